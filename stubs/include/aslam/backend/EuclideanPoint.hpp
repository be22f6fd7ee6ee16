// Stand-in for aslam_backend_expressions' EuclideanPoint design variable.
#ifndef VSTUB_EUCLIDEAN_POINT
#define VSTUB_EUCLIDEAN_POINT
#include <aslam/backend/DesignVariable.hpp>
namespace aslam { namespace backend {
class EuclideanPoint : public DesignVariable {
public:
  EuclideanPoint(const Eigen::Vector3d& p) : _p(p), _old(p) {}
  Eigen::Vector3d toEuclidean() const { return _p; }
protected:
  void revertUpdateImplementation() override { _p = _old; }
  void updateImplementation(const double* dp, int) override { _old = _p; for (int i = 0; i < 3; ++i) _p(i) += dp[i]; }
  int minimalDimensionsImplementation() const override { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = _p; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { _old = _p; _p = v; }
  Eigen::Vector3d _p, _old;
};
} }
#endif
