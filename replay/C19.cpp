#include "common.h"
#include <Eigen/Core>
#include "aslam/calibration/data-structures/VectorDesignVariable.h"
#include "aslam/calibration/exceptions/OutOfBoundException.h"
using namespace aslam::calibration;
template <int M> static Eigen::Matrix<double, M, 1> rnd(int n) { Eigen::Matrix<double, M, 1> v(n); for (int i = 0; i < n; ++i) v(i) = hx::C().u(-10, 10) * std::pow(10.0, hx::C().i(-3, 3)); return v; }
template <int M> static void hist(int n) {
  auto& c = hx::C();
  typedef Eigen::Matrix<double, M, 1> V; typedef VectorDesignVariable<M> D;
  V cur = rnd<M>(n), old = cur;
  std::ostringstream o; o.precision(17); o << "M=" << M << " n=" << n << " init=" << cur.transpose(); hx::at(o.str());
  D d(cur);
  for (int k = 0; k < 8; ++k) {
    int op = c.i(0, 7);
    if (op <= 1) { V u = c.i(0, 3) ? rnd<M>(n) : V(V::Zero(n)); o << " update(" << u.transpose() << ")"; hx::at(o.str()); d.update(u.data(), n); old = cur; cur += u; }
    if (op == 2) { o << " revert"; hx::at(o.str()); d.revertUpdate(); cur = old; }
    if (op == 3) { V u = c.i(0, 3) ? rnd<M>(n) : cur; o << " setValue(" << u.transpose() << ")"; hx::at(o.str()); d.setValue(u); old = cur; cur = u; }
    if (op == 4) { V u = c.i(0, 3) ? rnd<M>(n) : cur; Eigen::MatrixXd m = u; o << " setParameters(" << u.transpose() << ")"; hx::at(o.str()); d.setParameters(m); old = cur; cur = u; }
    if (op == 5) { int r = c.i(0, n + 2), q = c.i(0, 3); Eigen::MatrixXd m = Eigen::MatrixXd::Random(r, q); o << " setParameters[" << r << "x" << q << "]"; hx::at(o.str());
      bool th = false; if (r == n && q == 1) { old = cur; cur = m; }
      try { d.setParameters(m); } catch (const OutOfBoundException<int>&) { th = true; } HX("shape-rejected", th == !(r == n && q == 1), o.str()); }
    if (op == 6) { o << " copy"; hx::at(o.str()); D e(d); d.setValue(rnd<M>(n)); d.setValue(rnd<M>(n)); d = e; D& f = d; d = f; HX("copy", e.getValue() == cur, o.str()); }
    if (op == 7) { o << " copy-revert"; hx::at(o.str()); D e(d); e.revertUpdate(); HX("copy-revert", e.getValue() == old, o.str()); }
    HX("value", d.getValue() == cur, o.str() << " got " << d.getValue().transpose() << " expected " << cur.transpose());
    Eigen::MatrixXd m(c.i(0, 3), c.i(0, 3)); d.getParameters(m);
    HX("parameters", m.rows() == n && m.cols() == 1 && m == Eigen::MatrixXd(cur), o.str());
    HX("dimensions", d.minimalDimensions() == n, o.str());
  }
}
int main() {
  hx::guard(); auto& c = hx::C();
  { VectorDesignVariable<3> z; HX("default-zero", z.getValue() == Eigen::Vector3d::Zero(), "default value"); }
  do for (int k = 0; k < 200; ++k) { hist<1>(1); hist<2>(2); hist<3>(3); hist<6>(6); hist<Eigen::Dynamic>(c.i(1, 9)); } while (c.left());
  return hx::done();
}
