// Test doubles for the problem classes.
#pragma once
#include "common.h"
#include <algorithm>
#include <map>
#include <memory>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include "aslam/calibration/core/OptimizationProblem.h"
namespace ab = aslam::backend;
namespace ac = aslam::calibration;
struct TDV : ab::DesignVariable {
  Eigen::MatrixXd v; int id;
  TDV(int id, int n) : v(Eigen::MatrixXd::Constant(n, 1, id)), id(id) {}
  void revertUpdateImplementation() override {}
  void updateImplementation(const double* dp, int s) override { for (int i = 0; i < s; ++i) v(i) += dp[i]; }
  int minimalDimensionsImplementation() const override { return v.rows(); }
  void getParametersImplementation(Eigen::MatrixXd& x) const override { x = v; }
  void setParametersImplementation(const Eigen::MatrixXd& x) override { v = x; }
};
typedef boost::shared_ptr<TDV> DVP;
struct TET : ab::ErrorTerm {
  int id; std::vector<ab::DesignVariable*> d;
  TET(int id, const std::vector<ab::DesignVariable*>& d) : ab::ErrorTerm(1), id(id), d(d) { setDesignVariables(d); }
  double evaluateErrorImplementation() override { return 0; }
  void evaluateJacobiansImplementation(ab::JacobianContainer&) override {}
};
typedef boost::shared_ptr<TET> ETP;
inline DVP mkdv(int id) { auto& c = hx::C(); DVP d(new TDV(id, c.i(1, 4))); d->setActive(c.i(0, 3) != 0); return d; }
typedef std::vector<size_t> VZ;
template <class F> bool thrown(F f) { try { f(); } catch (...) { return true; } return false; }
inline VZ randperm(size_t n) { VZ p(n); for (size_t i = 0; i < n; ++i) p[i] = i; std::shuffle(p.begin(), p.end(), hx::C().rng); return p; }
