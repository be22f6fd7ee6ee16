#ifndef VSTUB_OPTIMIZATION_PROBLEM_BASE_HPP
#define VSTUB_OPTIMIZATION_PROBLEM_BASE_HPP
#include <set>
#include <stdexcept>
#include <algorithm>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
namespace aslam { namespace backend {
class OptimizationProblemBase {
public:
  virtual ~OptimizationProblemBase() {}
  size_t numDesignVariables() const { return numDesignVariablesImplementation(); }
  DesignVariable* designVariable(size_t idx) { return designVariableImplementation(idx); }
  const DesignVariable* designVariable(size_t idx) const { return designVariableImplementation(idx); }
  size_t numErrorTerms() const { return numErrorTermsImplementation(); }
  ErrorTerm* errorTerm(size_t idx) { return errorTermImplementation(idx); }
  const ErrorTerm* errorTerm(size_t idx) const { return errorTermImplementation(idx); }
  void getErrors(const DesignVariable* dv, std::set<ErrorTerm*>& out) { getErrorsImplementation(dv, out); }
protected:
  virtual size_t numDesignVariablesImplementation() const = 0;
  virtual DesignVariable* designVariableImplementation(size_t idx) = 0;
  virtual const DesignVariable* designVariableImplementation(size_t idx) const = 0;
  virtual size_t numErrorTermsImplementation() const = 0;
  virtual ErrorTerm* errorTermImplementation(size_t idx) = 0;
  virtual const ErrorTerm* errorTermImplementation(size_t idx) const = 0;
  virtual void getErrorsImplementation(const DesignVariable* dv, std::set<ErrorTerm*>& outErrorSet) = 0;
  virtual size_t numNonSquaredErrorTermsImplementation() const = 0;
  virtual ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t idx) = 0;
  virtual const ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t idx) const = 0;
  virtual void getNonSquaredErrorsImplementation(const DesignVariable* dv, std::set<ScalarNonSquaredErrorTerm*>& outErrorSet) = 0;
};
} }
#endif
