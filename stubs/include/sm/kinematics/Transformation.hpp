#ifndef VSTUB_SM_TRANSFORMATION
#define VSTUB_SM_TRANSFORMATION
#include <sm/kinematics/quaternion_algebra.hpp>
namespace sm { namespace kinematics {
class Transformation {
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Transformation() : _q(0, 0, 0, 1), _t(0, 0, 0) {}
  Transformation(const Eigen::Vector4d& q_a_b, const Eigen::Vector3d& t_a_b_a) : _q(q_a_b), _t(t_a_b_a) {}
  Transformation(const Eigen::Matrix4d& T) : _q(r2quat(T.topLeftCorner<3, 3>())), _t(T.topRightCorner<3, 1>()) {}
  Eigen::Matrix3d C() const { return quat2r(_q); }
  const Eigen::Vector3d& t() const { return _t; }
  const Eigen::Vector4d& q() const { return _q; }
  Transformation inverse() const { return Transformation(Eigen::Vector4d(-_q(0), -_q(1), -_q(2), _q(3)), -(C().transpose() * _t)); }
private:
  Eigen::Vector4d _q; Eigen::Vector3d _t;
};
} }
#endif
