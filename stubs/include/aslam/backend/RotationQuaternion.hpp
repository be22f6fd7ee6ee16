// Stand-in for aslam_backend_expressions' RotationQuaternion design variable.
#ifndef VSTUB_ROTATION_QUATERNION
#define VSTUB_ROTATION_QUATERNION
#include <aslam/backend/DesignVariable.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
namespace aslam { namespace backend {
class RotationQuaternion : public DesignVariable {
public:
  RotationQuaternion(const Eigen::Matrix3d& C) : _q(sm::kinematics::r2quat(C)), _old(_q) {}
  RotationQuaternion(const Eigen::Vector4d& q) : _q(q), _old(q) {}
  const Eigen::Vector4d& getQuaternion() const { return _q; }
protected:
  void revertUpdateImplementation() override { _q = _old; }
  void updateImplementation(const double*, int) override {}
  int minimalDimensionsImplementation() const override { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = _q; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { _old = _q; _q = v; }
  Eigen::Vector4d _q, _old;
};
} }
#endif
