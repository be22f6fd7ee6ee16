// Stand-in for aslam_backend_expressions' RotationExpression: a rotation matrix.
#ifndef VSTUB_ROTATION_EXPRESSION
#define VSTUB_ROTATION_EXPRESSION
#include <boost/shared_ptr.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/EuclideanExpression.hpp>
namespace aslam { namespace backend {
class RotationExpression {
public:
  explicit RotationExpression(const Eigen::Matrix3d& C) : C(C) {}
  RotationExpression(const boost::shared_ptr<RotationQuaternion>& q) : C(sm::kinematics::quat2r(q->getQuaternion())) {}
  RotationExpression inverse() const { return RotationExpression(Eigen::Matrix3d(C.transpose())); }
  RotationExpression operator*(const RotationExpression& o) const { return RotationExpression(Eigen::Matrix3d(C * o.C)); }
  EuclideanExpression operator*(const EuclideanExpression& o) const { return EuclideanExpression(Eigen::Vector3d(C * o.toValue())); }
  Eigen::Matrix3d toRotationMatrix() const { return C; }
  Eigen::Matrix3d C;
};
} }
#endif
