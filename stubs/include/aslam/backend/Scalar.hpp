// Stand-in for aslam_backend_expressions' Scalar design variable.
#ifndef VSTUB_SCALAR
#define VSTUB_SCALAR
#include <aslam/backend/DesignVariable.hpp>
namespace aslam { namespace backend {
class Scalar : public DesignVariable {
public:
  Scalar(double p) : _p(p), _old(p) {}
  double toScalar() const { return _p; }
protected:
  void revertUpdateImplementation() override { _p = _old; }
  void updateImplementation(const double* dp, int) override { _old = _p; _p += dp[0]; }
  int minimalDimensionsImplementation() const override { return 1; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v.resize(1, 1); v(0, 0) = _p; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { _old = _p; _p = v(0, 0); }
  double _p, _old;
};
} }
#endif
