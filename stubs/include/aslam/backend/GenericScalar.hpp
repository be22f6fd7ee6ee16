// Stand-in for aslam_backend_expressions' GenericScalar design variable.
#ifndef VSTUB_GENERIC_SCALAR
#define VSTUB_GENERIC_SCALAR
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
namespace aslam { namespace backend {
template <typename S> class GenericScalarExpression {
public:
  GenericScalarExpression(const S& v) : v(v) {}
  const S& toScalar() const { return v; }
  GenericScalarExpression operator+(const GenericScalarExpression& o) const { return S(v.getNumerator() + o.v.getNumerator()); }
  GenericScalarExpression operator-(const GenericScalarExpression& o) const { return S(v.getNumerator() - o.v.getNumerator()); }
  S v;
};
template <typename S> class GenericScalar : public DesignVariable {
public:
  GenericScalar(const S& p) : _p(p), _old(p) {}
  const S& toScalar() const { return _p; }
  GenericScalarExpression<S> toExpression() const { return _p; }
protected:
  void revertUpdateImplementation() override { _p = _old; }
  void updateImplementation(const double*, int) override {}
  int minimalDimensionsImplementation() const override { return 1; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v.resize(1, 1); v(0, 0) = static_cast<double>(_p); }
  void setParametersImplementation(const Eigen::MatrixXd&) override {}
  S _p, _old;
};
} }
#endif
