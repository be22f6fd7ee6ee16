#ifndef VSTUB_OPT2OPTIONS_HPP
#define VSTUB_OPT2OPTIONS_HPP
#include <boost/shared_ptr.hpp>
#include <aslam/backend/LinearSystemSolver.hpp>
namespace aslam { namespace backend {
class TrustRegionPolicy { public: virtual ~TrustRegionPolicy() {} };
struct Optimizer2Options {
  Optimizer2Options() : convergenceDeltaJ(1e-3), convergenceDeltaX(1e-3), levenbergMarquardtLambdaInit(1e-9), doLevenbergMarquardt(true), doSchurComplement(false), maxIterations(20), verbose(false), linearSolverMaximumFails(0), numThreadsJacobian(4), numThreadsError(1), resetSolverEveryIteration(false) {}
  double convergenceDeltaJ, convergenceDeltaX, levenbergMarquardtLambdaInit;
  bool doLevenbergMarquardt, doSchurComplement;
  int maxIterations;
  bool verbose;
  int linearSolverMaximumFails;
  int numThreadsJacobian, numThreadsError;
  bool resetSolverEveryIteration;
  boost::shared_ptr<LinearSystemSolver> linearSystemSolver;
  boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy;
};
} }
#endif
