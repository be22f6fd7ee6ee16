#ifndef VSTUB_SM_QUAT
#define VSTUB_SM_QUAT
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace sm { namespace kinematics {
/// a unit quaternion (x y z w) of the rotation matrix, inverse of quat2r
inline Eigen::Vector4d r2quat(const Eigen::Matrix3d& C) { Eigen::Quaterniond q(C); return q.normalized().coeffs(); }
inline Eigen::Matrix3d quat2r(const Eigen::Vector4d& q) { return Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix(); }
} }
#endif
