#include "common.h"
#include <iostream>
#include <Eigen/Core>
#include "aslam/calibration/statistics/Histogram.h"
using namespace aslam::calibration;
template <class T> static T pick(double lo, double hi) { return std::is_integral<T>::value ? T(hx::C().i((int)lo, (int)hi)) : T(hx::C().u(lo, hi)); }
// uniform access to the two interfaces
template <class T, int M> struct A {
  typedef Histogram<T, M> H; typedef typename H::Coordinate P;
  static H make(const P& a, const P& b, const P& r) { return H(a, b, r); }
  static void add(H& h, const P& x) { h.addSample(x); }
  static void adds(H& h, const std::vector<P>& x) { h.addSamples(x); }
  static Eigen::VectorXd mean(const H& h) { return h.getMean(); }
  static Eigen::VectorXd mode(const H& h) { return h.getMode(); }
  static Eigen::MatrixXd cov(const H& h) { return h.getCovariance(); }
  static double median(const H&) { return 0; }
};
template <class T> struct A<T, 1> {
  typedef Histogram<T, 1> H; typedef typename H::Coordinate P;
  static H make(const P& a, const P& b, const P& r) { return H(a(0), b(0), r(0)); }
  static void add(H& h, const P& x) { h.addSample(x(0)); }
  static void adds(H& h, const std::vector<P>& x) { std::vector<T> v; for (auto& p : x) v.push_back(p(0)); h.addSamples(v); }
  static Eigen::VectorXd mean(const H& h) { return Eigen::VectorXd::Constant(1, h.getMean()); }
  static Eigen::VectorXd mode(const H& h) { return Eigen::VectorXd::Constant(1, h.getMode()); }
  static Eigen::MatrixXd cov(const H& h) { return Eigen::MatrixXd::Constant(1, 1, h.getVariance()); }
  static double median(const H& h) { return h.getMedian(); }
};
template <class V> static bool vclose(const V& a, const V& b, double tol = 1e-9) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.size(); ++i) if (!hx::close(a.data()[i], b.data()[i], tol)) return false; return true; }
template <class T, int M> static void one(int d) {
  auto& c = hx::C();
  typedef A<T, M> F; typedef typename F::H H; typedef typename F::P P; typedef typename H::Index X;
  P mn(d), mx(d), rs(d);
  for (int i = 0; i < d; ++i) {
    if (std::is_integral<T>::value) { mn(i) = T(c.i(-20, 20)); rs(i) = T(c.i(1, 4)); mx(i) = T(mn(i) + c.i(1, 6) * rs(i) + c.i(0, 3)); if (mx(i) - mn(i) < rs(i)) mx(i) = mn(i) + rs(i); }
    else { mn(i) = T(c.u(-5, 5)); rs(i) = T(c.u(0.1, 2)); mx(i) = T(mn(i) + rs(i) * c.u(1.01, 8)); }
  }
  std::ostringstream o; o.precision(20); o << (std::is_integral<T>::value ? "int" : "double") << " M=" << M << " d=" << d << " min=" << mn.transpose() << " max=" << mx.transpose() << " res=" << rs.transpose();
  H h = F::make(mn, mx, rs); if (c.coin()) { P mn2 = mn, mx2 = mx, rs2 = rs; for (int i = 0; i < d; ++i) { mn2(i) -= 3 * rs(i); mx2(i) += 2 * rs(i); rs2(i) = T(2 * rs(i)); } H w = F::make(mn2, mx2, rs2); F::add(w, mn); H hc(h); h = w; h = hc; }
  const X n = h.getNumCells(); const size_t tot = h.getCells().size();
  std::vector<double> cnt(tot, 0); size_t in = 0;
  HX("empty", h.getSum() == 0, o.str());
  int calls = c.i(0, 5); std::ostringstream hist;
  double scale = c.i(0, 3);
  for (int q = 0; q < calls; ++q) {
    std::vector<P> xs; int m = c.coin() ? 1 : c.i(0, 12); std::vector<double> before(h.getCellBegin(), h.getCellEnd());
    P hot(d); for (int i = 0; i < d; ++i) hot(i) = pick<T>(mn(i), mx(i));
    for (int k = 0; k < m; ++k) {
      P x(d); bool ok = true;
      for (int i = 0; i < d; ++i) {
        x(i) = pick<T>(mn(i) - scale, mx(i) + scale); int kind = c.i(0, 20);
        if (kind == 0) x(i) = mx(i); else if (kind == 1) x(i) = mn(i); else if (kind < 6) x(i) = hot(i);
        if (!std::is_integral<T>::value) { long double f = ((long double)x(i) - mn(i)) / rs(i); if (x(i) != mx(i) && x(i) != mn(i) && std::fabs(f - std::round(f)) < 1e-9) ok = false;
          long double g = ((long double)mx(i) - mn(i)) / rs(i); if (x(i) == mx(i) && std::fabs(g - std::round(g)) < 1e-9) ok = false; }
      }
      if (!ok) continue;
      xs.push_back(x);
      bool inr = true; X j(d);
      for (int i = 0; i < d; ++i) { if (x(i) < mn(i) || x(i) > mx(i)) inr = false; int b = (int)std::floor(((long double)x(i) - mn(i)) / rs(i)); if (b > n(i) - 1) b = n(i) - 1; j(i) = b; }
      if (inr) { ++in; cnt[h.computeLinearIndex(j)]++; }
    }
    hist << " +"; for (auto& x : xs) hist << "(" << x.transpose() << ")";
    hx::at(o.str() + hist.str());
    try { if (xs.size() == 1 && c.coin()) F::add(h, xs[0]); else F::adds(h, xs); } catch (std::exception& e) { HX("sample-throws", false, o.str() << hist.str() << " " << e.what()); return; }
    bool same = h.getCells().size() == tot; for (size_t l = 0; same && l < tot; ++l) same = h.getCells()[l] == cnt[l];
    HX("counts", same, o.str() << hist.str());
    if (!same) return;
    HX("sum", h.getSum() == (double)in, o.str() << hist.str() << " sum " << h.getSum() << " samples in range " << in);
  }
  hx::at(o.str() + hist.str() + " statistics");
  const H& ch = h;
  if (in >= 1) {
    Eigen::VectorXd mean = Eigen::VectorXd::Zero(d); double best = 0; std::vector<Eigen::VectorXd> ctr(tot); std::vector<size_t> order;
    std::vector<int> idx(d, 0);
    for (size_t r = 0; r < tot; ++r) { X j(d); size_t q = r; for (int i = 0; i < d; ++i) { j(i) = q % n(i); q /= n(i); } size_t l = h.computeLinearIndex(j); Eigen::VectorXd x(d); for (int i = 0; i < d; ++i) x(i) = (double)T((double)mn(i) + (j(i) + 0.5) * (double)rs(i) - (std::is_integral<T>::value && (double)mn(i) + (j(i) + 0.5) * (double)rs(i) < 0 && std::floor((double)mn(i) + (j(i) + 0.5) * (double)rs(i)) != (double)mn(i) + (j(i) + 0.5) * (double)rs(i) ? 1 : 0)); ctr[l] = x; mean += cnt[l] * x; best = std::max(best, cnt[l]); order.push_back(l); }
    mean /= in;
    HX("mean", vclose(F::mean(ch), mean), o.str() << hist.str() << " mean " << F::mean(ch).transpose() << " expected " << mean.transpose());
    Eigen::VectorXd mo = F::mode(ch); bool okm = false; for (size_t l = 0; l < tot; ++l) if (cnt[l] == best && vclose(mo, ctr[l])) okm = true;
    HX("mode", okm, o.str() << hist.str() << " mode " << mo.transpose() << " largest count " << best);
    if (M == 1) { double cum = 0, med = NAN; for (size_t l : order) { cum += cnt[l]; if (cum >= in / 2.0) { med = ctr[l](0); break; } } HX("median", hx::close(F::median(ch), med), o.str() << hist.str() << " median " << F::median(ch) << " expected " << med); }
    if (in >= 2) {
      Eigen::MatrixXd cov = Eigen::MatrixXd::Zero(d, d); for (size_t l = 0; l < tot; ++l) cov += cnt[l] * (ctr[l] - mean) * (ctr[l] - mean).transpose();
      cov /= (in - 1.0);
      HX("variance", vclose(F::cov(ch), cov, 1e-8), o.str() << hist.str() << " covariance " << F::cov(ch) << " expected " << cov);
    }
    H m = ch.getNormalized(); double s = 0; bool okn = m.getCells().size() == tot; for (size_t l = 0; okn && l < tot; ++l) { okn = hx::close(m.getCells()[l], cnt[l] / in); s += m.getCells()[l]; }
    HX("normalized", okn && hx::close(s, 1) && hx::close(m.getSum(), 1), o.str() << hist.str() << " total of normalised bins " << s);
    HX("normalized-grid", m.getMinimum() == mn && m.getMaximum() == mx && m.getResolution() == rs && m.getNumCells() == n, o.str());
    bool same = true; for (size_t l = 0; l < tot; ++l) same = same && h.getCells()[l] == cnt[l];
    HX("normalized-leaves-original", same, o.str() << hist.str());
  }
  { H k(h); bool same = true; P x(d); for (int i = 0; i < d; ++i) x(i) = mn(i); F::add(k, x); double s = 0; for (size_t l = 0; l < tot; ++l) { same = same && h.getCells()[l] == cnt[l]; s += std::fabs(k.getCells()[l] - cnt[l]); } HX("copy", same && s == 1, o.str() << hist.str());
    k = h; H& kk = k; k = kk; same = true; for (size_t l = 0; l < tot; ++l) same = same && k.getCells()[l] == cnt[l]; HX("assign", same && k.getMinimum() == mn && k.getNumCells() == n, o.str() << hist.str()); }
}
int main() {
  hx::guard(); auto& c = hx::C();
  do for (int k = 0; k < 40; ++k) { one<double, 1>(1); one<int, 1>(1); one<double, 2>(2); one<int, 2>(2); one<double, 3>(3); one<double, Eigen::Dynamic>(c.i(1, 3)); } while (c.left());
  return hx::done();
}
