// Stand-in for aslam_optimizer's ErrorTerm / ErrorTermFs (not available offline).
#ifndef VSTUB_ERROR_TERM_HPP
#define VSTUB_ERROR_TERM_HPP
#include <vector>
#include <set>
#include <Eigen/Core>
#include <Eigen/LU>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class ErrorTerm {
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit ErrorTerm(size_t dim) : _dim(dim), _rowBase(0) {}
  virtual ~ErrorTerm() {}
  double evaluateError() { return evaluateErrorImplementation(); }
  void evaluateJacobians(JacobianContainer& J) { evaluateJacobiansImplementation(J); }
  size_t numDesignVariables() const { return _designVariables.size(); }
  DesignVariable* designVariable(size_t i) { return _designVariables.at(i); }
  const DesignVariable* designVariable(size_t i) const { return _designVariables.at(i); }
  const std::vector<DesignVariable*>& designVariables() const { return _designVariables; }
  size_t dimension() const { return _dim; }
  size_t rowBase() const { return _rowBase; }
  void setRowBase(size_t b) { _rowBase = b; }
protected:
  virtual double evaluateErrorImplementation() = 0;
  virtual void evaluateJacobiansImplementation(JacobianContainer& J) = 0;
  void setDesignVariables(const std::vector<DesignVariable*>& dvs) { _designVariables = dvs; }
  void setDesignVariables(DesignVariable* dv1) { setDesignVariables(std::vector<DesignVariable*>{dv1}); }
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2) { setDesignVariables(std::vector<DesignVariable*>{dv1, dv2}); }
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3) { setDesignVariables(std::vector<DesignVariable*>{dv1, dv2, dv3}); }
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3, DesignVariable* dv4) { setDesignVariables(std::vector<DesignVariable*>{dv1, dv2, dv3, dv4}); }
  template <typename IT> void setDesignVariablesIterator(IT b, IT e) { _designVariables.assign(b, e); }
  void setDesignVariables(const std::set<DesignVariable*>& dvs) { _designVariables.assign(dvs.begin(), dvs.end()); }
private:
  std::vector<DesignVariable*> _designVariables;
  size_t _dim; size_t _rowBase;
};
template <int D>
class ErrorTermFs : public ErrorTerm {
public:
  enum { Dimension = D };
  typedef Eigen::Matrix<double, D, 1> error_t;
  typedef Eigen::Matrix<double, D, D> inverse_covariance_t;
  ErrorTermFs() : ErrorTerm(D) { _error.setZero(); _invR.setIdentity(); }
  virtual ~ErrorTermFs() {}
  const error_t& error() const { return _error; }
  const inverse_covariance_t& invR() const { return _invR; }
  template <typename DERIVED> void setInvR(const Eigen::MatrixBase<DERIVED>& invR) { _invR = invR; }
  template <typename DERIVED> void setInvR(const Eigen::EigenBase<DERIVED>& invR) { _invR = invR; }
  double evaluateChiSquaredError() const { return _error.dot(_invR * _error); }
  // test access
  const error_t& vsError() const { return _error; }
protected:
  template <typename DERIVED> void setError(const Eigen::MatrixBase<DERIVED>& e) { _error = e; }
private:
  error_t _error; inverse_covariance_t _invR;
};
class ScalarNonSquaredErrorTerm { public: virtual ~ScalarNonSquaredErrorTerm() {} };
} }
#endif
