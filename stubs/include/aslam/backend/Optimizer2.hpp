// Stand-in for aslam_optimizer's Optimizer2; optimize() calls a harness-supplied hook.
#ifndef VSTUB_OPTIMIZER2_HPP
#define VSTUB_OPTIMIZER2_HPP
#include <functional>
#include <boost/shared_ptr.hpp>
#include <sm/PropertyTree.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
#include <aslam/backend/OptimizationProblemBase.hpp>
#include <aslam/backend/CompressedColumnMatrix.hpp>
namespace aslam { namespace backend {
struct SolutionReturnValue { double JStart, JFinal; int iterations, failedIterations; double lmLambdaFinal, dXFinal, dJFinal; bool linearSolverFailure;
  SolutionReturnValue() : JStart(0), JFinal(0), iterations(0), failedIterations(0), lmLambdaFinal(0), dXFinal(0), dJFinal(0), linearSolverFailure(false) {} };
class Optimizer2 {
public:
  Optimizer2(const Optimizer2Options& options = Optimizer2Options()) : _options(options) {}
  Optimizer2(const sm::PropertyTree&, boost::shared_ptr<LinearSystemSolver> s, boost::shared_ptr<TrustRegionPolicy> p) { _options.linearSystemSolver = s; _options.trustRegionPolicy = p; _solver = s; }
  void setProblem(boost::shared_ptr<OptimizationProblemBase> p) { _problem = p; }
  void initializeLinearSolver() { _solver = _options.linearSystemSolver; }
  void initializeTrustRegionPolicy() {}
  Optimizer2Options& options() { return _options; }
  const Optimizer2Options& options() const { return _options; }
  template <typename T> const T* getSolver() const { return dynamic_cast<const T*>(_solver.get()); }
  template <typename T> T* getSolver() { return dynamic_cast<T*>(_solver.get()); }
  SolutionReturnValue optimize() { return hook()(*this); }
  boost::shared_ptr<OptimizationProblemBase> problem() const { return _problem; }
  static std::function<SolutionReturnValue(Optimizer2&)>& hook() { static std::function<SolutionReturnValue(Optimizer2&)> h; return h; }
private:
  Optimizer2Options _options; boost::shared_ptr<LinearSystemSolver> _solver; boost::shared_ptr<OptimizationProblemBase> _problem;
};
} }
#endif
