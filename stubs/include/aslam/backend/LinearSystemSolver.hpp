#ifndef VSTUB_LSS_HPP
#define VSTUB_LSS_HPP
#include <string>
#include <vector>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
namespace aslam { namespace backend {
class LinearSystemSolver {
public:
  virtual ~LinearSystemSolver() {}
  virtual void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors, bool useDiag) {
    initMatrixStructureImplementation(dvs, errors, useDiag); }
  virtual void buildSystem(size_t numThreads, bool useMEstimator) = 0;
  virtual bool solveSystem(Eigen::VectorXd& dx) = 0;
  virtual double rhsJtJrhs() = 0;
  virtual std::string name() const = 0;
protected:
  Eigen::VectorXd _e;      // right-hand side
  virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors, bool useDiag) = 0;
};
} }
#endif
