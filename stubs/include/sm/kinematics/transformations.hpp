#ifndef VSTUB_SM_TRANSFORMATIONS
#define VSTUB_SM_TRANSFORMATIONS
#include <Eigen/Core>
namespace sm { namespace kinematics {
inline Eigen::Matrix4d rt2Transform(const Eigen::Matrix3d& C, const Eigen::Vector3d& r) { Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.topLeftCorner<3, 3>() = C; T.topRightCorner<3, 1>() = r; return T; }
} }
#endif
