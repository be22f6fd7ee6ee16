#include "common.h"
#include <cmath>
#include <vector>
#include <Eigen/Dense>
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/EstimatorML.h"
using namespace aslam::calibration;
typedef EstimatorML<NormalDistribution<1> > E1;

static double val() { switch (hx::C().i(0, 2)) { case 0: return hx::C().i(-3, 3); case 1: return hx::C().u(-10, 10); default: return 100 + hx::C().u(0, 1); } }
static bool definite(double v, double scale) { return v > 1e-9 * scale; }

static void one() {
  E1 e;
  std::vector<double> pts;
  HX("ml1-initial", e.getNumPoints() == 0 && !e.getValid(), "a new estimator has no points and is not valid");
  int steps = hx::C().i(1, 8);
  for (int s = 0; s < steps; s++) {
    hx::at("EstimatorML<NormalDistribution<1>>");
    if (hx::C().coin()) { E1 t; t.addPoint(7.5); t.addPoint(9.25); E1 w(t); t = e; E1 u(t); e = w; e = u; }
    int k = hx::C().i(0, 5);
    bool weighted = false;
    if (k <= 1) { double p = val(); e.addPoint(p); pts.push_back(p); }
    else if (k == 2) { std::vector<double> v; for (int i = hx::C().i(0, 4); i > 0; i--) v.push_back(val()); e.addPoints(v); pts.insert(pts.end(), v.begin(), v.end()); if (v.empty()) continue; }
    else if (k == 3) { std::vector<double> v; for (int i = 0; i < 5; i++) v.push_back(val()); int a = hx::C().i(0, 4), b = hx::C().i(a, 5);
      e.addPoints(v.cbegin() + a, v.cbegin() + b); pts.insert(pts.end(), v.begin() + a, v.begin() + b); if (a == b) continue; }
    else if (k == 4) { e.reset(); pts.clear(); HX("ml1-reset", e.getNumPoints() == 0 && !e.getValid(), "reset forgets all points"); continue; }
    else {
      weighted = true;
      int n = hx::C().i(1, 5); std::vector<double> v; Eigen::VectorXd w(n);
      for (int i = 0; i < n; i++) { v.push_back(val()); w(i) = hx::C().u(0.1, 2); }
      E1 c(e);
      Eigen::VectorXd bad(n + 1); bad.setOnes();
      double m0 = c.getDistribution().getMean(), v0 = c.getDistribution().getVariance(); bool b0 = c.getValid();
      c.addPoints(v.cbegin(), v.cend(), bad);
      HX("ml1-weights-size", c.getDistribution().getMean() == m0 && c.getDistribution().getVariance() == v0 && c.getValid() == b0, "weights of another number change nothing");
      c.addPoints(v.cbegin(), v.cend(), w);
      double m = 0, q = 0; for (int i = 0; i < n; i++) m += w(i) * v[i]; m /= w.sum(); for (int i = 0; i < n; i++) q += w(i) * (v[i] - m) * (v[i] - m); q /= w.sum();
      HX("ml1-weighted-mean", hx::close(c.getDistribution().getMean(), m), "weighted mean of " << n << " points");
      if (definite(q, m * m + 1)) HX("ml1-weighted-variance", c.getValid() && hx::close(c.getDistribution().getVariance(), q, 1e-6), "weighted variance " << c.getDistribution().getVariance() << " != " << q);
      HX("ml1-weighted-count", c.getNumPoints() == e.getNumPoints(), "responsibilities do not add points");
      E1 d; d = c; HX("ml1-assign", d.getNumPoints() == c.getNumPoints() && d.getValid() == c.getValid() && d.getDistribution().getMean() == c.getDistribution().getMean() && d.getDistribution().getVariance() == c.getDistribution().getVariance(), "assignment copies");
      if (hx::C().coin()) e = c; else continue;
    }
    if (weighted) continue;
    size_t n = pts.size();
    HX("ml1-count", e.getNumPoints() == n, "count " << e.getNumPoints() << " != " << n);
    double m = 0, q = 0, big = 1; for (double p : pts) { m += p; big = std::max(big, p * p); } m /= n; for (double p : pts) q += (p - m) * (p - m); q /= n;
    HX("ml1-mean", hx::close(e.getDistribution().getMean(), m), "mean " << e.getDistribution().getMean() << " != " << m << " of " << n << " points");
    if (definite(q, big)) {
      HX("ml1-valid", e.getValid(), n << " points with variance " << q << " give a valid estimate");
      HX("ml1-variance", std::fabs(e.getDistribution().getVariance() - q) < 1e-8 * big, "variance " << e.getDistribution().getVariance() << " != " << q);
    }
    if (n == 1 && pts[0] == std::floor(pts[0])) HX("ml1-invalid", !e.getValid(), "one point does not determine a variance");
  }
}

template <int M> static void several() {
  typedef EstimatorML<NormalDistribution<M> > E;
  typedef Eigen::Matrix<double, M, 1> V;
  typedef Eigen::Matrix<double, M, M> S;
  E e;
  std::vector<V> pts;
  HX("mlm-initial", e.getNumPoints() == 0 && !e.getValid(), "a new estimator has no points and is not valid");
  auto pt = [] { V p; for (int i = 0; i < M; i++) p(i) = hx::C().coin() ? hx::C().i(-3, 3) : hx::C().u(-5, 5); return p; };
  int steps = hx::C().i(1, 8);
  for (int s = 0; s < steps; s++) {
    hx::at("EstimatorML<NormalDistribution<M>>");
    if (hx::C().coin()) { E t; t.addPoint(V::Constant(7.5)); t.addPoint(pt()); E w(t); t = e; E u(t); e = w; e = u; }
    int k = hx::C().i(0, 5);
    if (k <= 1) { V p = pt(); e.addPoint(p); pts.push_back(p); }
    else if (k == 2) { std::vector<V> v; for (int i = hx::C().i(1, 5); i > 0; i--) v.push_back(pt()); e.addPoints(v); pts.insert(pts.end(), v.begin(), v.end()); }
    else if (k == 3) { std::vector<V> v; for (int i = 0; i < 5; i++) v.push_back(pt()); int a = hx::C().i(0, 4), b = hx::C().i(a, 5);
      e.addPoints(v.cbegin() + a, v.cbegin() + b); pts.insert(pts.end(), v.begin() + a, v.begin() + b); if (a == b) continue; }
    else if (k == 4) { e.reset(); pts.clear(); HX("mlm-reset", e.getNumPoints() == 0 && !e.getValid(), "reset forgets all points"); continue; }
    else {
      int n = hx::C().i(1, 7); std::vector<V> v; Eigen::VectorXd w(n);
      for (int i = 0; i < n; i++) { v.push_back(pt()); w(i) = hx::C().u(0.1, 2); }
      E c(e);
      c.addPoints(v.cbegin(), v.cend(), w);
      V m = V::Zero(); S q = S::Zero(); for (int i = 0; i < n; i++) m += w(i) * v[i]; m /= w.sum(); for (int i = 0; i < n; i++) q += w(i) * (v[i] - m) * (v[i] - m).transpose(); q /= w.sum();
      HX("mlm-weighted-mean", (c.getDistribution().getMean() - m).norm() < 1e-9, "weighted mean of " << n << " points");
      Eigen::SelfAdjointEigenSolver<S> es(q);
      if (es.eigenvalues()(0) > 1e-6) HX("mlm-weighted-covariance", c.getValid() && (c.getDistribution().getCovariance() - q).norm() < 1e-8, "weighted covariance of " << n << " points");
      HX("mlm-weighted-count", c.getNumPoints() == e.getNumPoints(), "responsibilities do not add points");
      E d; d = c; HX("mlm-assign", d.getNumPoints() == c.getNumPoints() && d.getValid() == c.getValid() && d.getDistribution().getMean() == c.getDistribution().getMean() && d.getDistribution().getCovariance() == c.getDistribution().getCovariance(), "assignment copies");
      continue;
    }
    size_t n = pts.size();
    HX("mlm-count", e.getNumPoints() == n, "count " << e.getNumPoints() << " != " << n);
    V m = V::Zero(); S q = S::Zero(); for (auto& p : pts) m += p; m /= n; for (auto& p : pts) q += (p - m) * (p - m).transpose(); q /= n;
    HX("mlm-mean", (e.getDistribution().getMean() - m).norm() < 1e-9, "mean of " << n << " points");
    Eigen::SelfAdjointEigenSolver<S> es(q);
    if (es.eigenvalues()(0) > 1e-6) {
      HX("mlm-valid", e.getValid(), n << " points with a definite covariance give a valid estimate");
      HX("mlm-covariance", (e.getDistribution().getCovariance() - q).norm() < 1e-8, "covariance of " << n << " points");
    }
    bool same = true; for (auto& p : pts) same = same && p == pts[0];
    bool integer = true; for (int i = 0; i < M; i++) integer = integer && pts[0](i) == std::floor(pts[0](i));
    if (n == 1 && integer) HX("mlm-invalid", !e.getValid(), "one point does not determine a covariance");
  }
}

template <class F> static void run(const char* key, F f) {
  try { f(); } catch (const std::exception& ex) { HX(key, false, "exception " << ex.what()); }
}
int main() {
  hx::guard();
  while (hx::C().left()) {
    run("ml1-exception", one);
    run("mlm-exception", several<2>);
    run("mlm-exception", several<3>);
  }
  return hx::done();
}
