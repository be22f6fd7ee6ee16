#include "common.h"
#include <iostream>
#include <Eigen/Core>
#include "aslam/calibration/data-structures/Grid.h"
using namespace aslam::calibration;
typedef long double LD;
template <class T> static T pick(double lo, double hi) { return std::is_integral<T>::value ? T(hx::C().i((int)lo, (int)hi)) : T(hx::C().u(lo, hi)); }
template <class T, int M> static void one(int d) {
  auto& c = hx::C();
  typedef Grid<T, double, M> G; typedef typename G::Coordinate P; typedef typename G::Index X;
  const LD EPS = std::is_integral<T>::value ? 0 : 64 * (LD)std::numeric_limits<T>::epsilon();
  P mn(d), mx(d), rs(d);
  bool simple = !std::is_integral<T>::value && c.coin();
  for (int i = 0; i < d; ++i) {
    double sc = std::pow(10.0, c.i(-2, 2)); if (std::is_integral<T>::value) sc = 10;
    mn(i) = pick<T>(-5 * sc, 5 * sc); int k = c.i(1, 6);
    if (simple) { mn(i) = T(c.i(-20, 20) / 10.0); rs(i) = T(std::vector<double>{0.1, 0.2, 0.25, 0.3, 0.5, 0.7, 1.0}[c.i(0, 6)]); mx(i) = T(mn(i) + k * rs(i)); if (!c.i(0, 3)) mx(i) += rs(i) / 3; }
    else if (std::is_integral<T>::value) { rs(i) = T(c.i(1, 4)); mx(i) = T(mn(i) + k * rs(i) + c.i(0, 3)); }
    else { mx(i) = T(mn(i) + c.u(0.1, 10) * sc); rs(i) = T((mx(i) - mn(i)) / c.u(1.0001, 6)); }
  }
  for (int i = 0; i < d; ++i) if (mx(i) - mn(i) < rs(i)) mx(i) = T(mn(i) + 2 * rs(i));
  bool bad = false;
  int defect = c.i(0, 11), at = c.i(0, d - 1);
  if (defect == 0) { rs(at) = 0; bad = true; }
  if (defect == 1) { rs(at) = -rs(at); bad = true; }
  if (defect == 2) { mx(at) = mn(at); bad = true; }
  if (defect == 3) { std::swap(mn(at), mx(at)); bad = true; }
  if (defect == 4) { rs(at) = T((mx(at) - mn(at)) * 2); bad = true; }
  std::ostringstream o; o.precision(20); o << (std::is_integral<T>::value ? "int" : sizeof(T) == 4 ? "float" : "double") << " M=" << M << " d=" << d << " min=" << mn.transpose() << " max=" << mx.transpose() << " res=" << rs.transpose(); hx::at(o.str());
  bool th = false; G* gp = nullptr;
  try { gp = new G(mn, mx, rs); } catch (std::exception&) { th = true; }
  if (bad) { HX("ctor-rejects", th, o.str()); delete gp; return; }
  HX("ctor-accepts", !th, o.str()); if (th) return;
  G g0(*gp); P mn2 = mn, mx2 = mx, rs2 = rs; for (int i = 0; i < d; ++i) { mn2(i) -= 3 * rs(i); mx2(i) += 2 * rs(i); if (!std::is_integral<T>::value) rs2(i) = T(rs(i) * 0.77); else rs2(i) = T(rs(i) + 1); } G g(mn2, mx2, rs2); const bool viaCtor = c.coin(); if (viaCtor) { G gc(g0); g0 = g; g = gc; } else g = g0; G& self = g; g = self; delete gp;
  const X n = g.getNumCells();
  size_t tot = 1;
  for (int i = 0; i < d; ++i) {
    tot *= n(i);
    LD tol = EPS * (std::fabs((LD)mn(i)) + std::fabs((LD)mx(i)));
    HX("covers", (LD)mn(i) + (LD)n(i) * rs(i) >= (LD)mx(i) - tol, o.str() << " dim " << i << " cells " << n(i));
    HX("not-oversized", (LD)mn(i) + (LD)(n(i) - 1) * rs(i) <= (LD)mx(i) + tol, o.str() << " dim " << i << " cells " << n(i));
  }
  HX("params", g.getMinimum() == mn && g.getMaximum() == mx && g.getResolution() == rs, o.str());
  HX("total", g.getNumCellsTot() == tot && g.getCells().size() == tot && (size_t)std::distance(g.getCellBegin(), g.getCellEnd()) == tot, o.str() << " total " << g.getNumCellsTot() << " cells " << g.getCells().size());
  if (tot > 3000 || g.getCells().size() != tot) return;
  // iteration visits every cell once; linear indices are a bijection; cells addressed by index are those of the container
  std::vector<int> seen(tot, 0); size_t cnt = 0; bool okIter = true;
  const G& cg = g;
  for (X i = X::Zero(d); i != n; g.incrementIndex(i)) {
    if (++cnt > tot) { okIter = false; break; }
    HX("valid-in-iteration", g.isValidIndex(i), o.str() << " idx " << i.transpose()); if (!g.isValidIndex(i)) { okIter = false; break; }
    size_t l = g.computeLinearIndex(i);
    HX("linear-range", l < tot, o.str() << " idx " << i.transpose() << " lin " << l); if (l >= tot) return;
    seen[l]++; g.getCell(i) = cnt; g[i] += 0.5;
    HX("cell-is-linear", g.getCells()[l] == cnt + 0.5 && cg[i] == cnt + 0.5 && cg.getCell(i) == cnt + 0.5, o.str() << " idx " << i.transpose());
    P x = g.getCoordinates(i);
    bool in = true;
    for (int k = 0; k < d; ++k) {
      LD a = (LD)mn(k) + (LD)i(k) * rs(k), b = a + rs(k), tol = EPS * (std::fabs(a) + std::fabs(b) + rs(k)), mid = a + (LD)rs(k) / 2;
      HX("centre-in-cell", x(k) >= a - tol && (std::is_integral<T>::value ? x(k) < b : x(k) <= b + tol), o.str() << " idx " << i.transpose() << " centre " << x.transpose());
      HX("centre", std::fabs((LD)x(k) - mid) <= (std::is_integral<T>::value ? 0.5L : tol), o.str() << " idx " << i.transpose() << " centre " << x.transpose());
      if (x(k) < mn(k) || x(k) > mx(k)) in = false;
    }
    HX("inrange", g.isInRange(x) == in, o.str() << " point " << x.transpose());
    if (in) { X j = g.getIndex(x); HX("centre-maps-back", j == i, o.str() << " idx " << i.transpose() << " centre " << x.transpose() << " -> " << j.transpose());
      if (g.isValidIndex(j)) { HX("call-operator", &g(x) == &g[j] && &cg(x) == &cg[j], o.str() << " idx " << i.transpose()); } }
  }
  HX("iteration-count", okIter && cnt == tot, o.str() << " visited " << cnt << " of " << tot);
  for (size_t l = 0; okIter && l < tot; ++l) HX("iteration-each-once", seen[l] == 1, o.str() << " linear " << l << " visited " << seen[l]);
  // points
  for (int k = 0; k < 30; ++k) {
    P x(d); int kind = c.i(0, 8); int at = c.i(0, d - 1);
    for (int i = 0; i < d; ++i) { x(i) = std::is_integral<T>::value ? pick<T>(mn(i), mx(i)) : T(c.u(mn(i), mx(i))); if (x(i) > mx(i)) x(i) = mx(i); }
    if (kind == 0) x = mn; if (kind == 1) x = mx;
    if (kind == 2) x(at) = mx(at); if (kind == 3) x(at) = mn(at);
    if (kind == 4 && !std::is_integral<T>::value) { double e = std::pow(10.0, -c.i(3, 30)); T y = T(mx(at) - e); if (mx(at) == 0) y = T(-e); else y = std::nextafter((double)mx(at), -1e9); x(at) = y < mn(at) ? mn(at) : y; }
    if (kind == 5 && !std::is_integral<T>::value) { x(at) = mn(at) + c.i(0, n(at)) * rs(at); if (x(at) > mx(at)) x(at) = mx(at); }
    if (kind == 6) x(at) = mx(at) + rs(at); if (kind == 7) x(at) = mn(at) - rs(at);
    std::ostringstream q; q.precision(20); q << o.str() << " point " << x.transpose(); hx::at(q.str());
    bool in = true; for (int i = 0; i < d; ++i) if (x(i) < mn(i) || x(i) > mx(i)) in = false;
    HX("inrange", g.isInRange(x) == in, q.str());
    bool t1 = false, t2 = false, t3 = false; X j(d); double* cp = nullptr;
    try { j = g.getIndex(x); } catch (std::exception&) { t1 = true; }
    try { cp = &g(x); } catch (std::exception&) { t2 = true; }
    try { (void)cg(x); } catch (std::exception&) { t3 = true; }
    HX("point-accepted-iff-in-range", t1 == !in && t2 == !in && t3 == !in, q.str() << " threw " << t1 << t2 << t3);
    if (t1 || !in) continue;
    bool val = true;
    for (int i = 0; i < d; ++i) {
      HX("index-in-grid", j(i) >= 0 && j(i) < n(i), q.str() << " index " << j.transpose() << " of " << n.transpose()); if (j(i) < 0 || j(i) >= n(i)) val = false;
      LD a = (LD)mn(i) + (LD)j(i) * rs(i), b = a + rs(i), tol = std::is_integral<T>::value ? 0 : EPS * (std::fabs(a) + std::fabs(b) + rs(i));
      HX("point-in-its-cell", x(i) >= a - tol && (x(i) <= b + tol), q.str() << " index " << j.transpose());
      if (std::is_integral<T>::value) HX("point-in-its-cell", x(i) < b || x(i) == mx(i), q.str() << " index " << j.transpose());
    }
    if (val && cp) HX("call-operator", cp == &g[j], q.str());
  }
  // indices
  for (int k = 0; k < 20; ++k) {
    X i(d); bool val = true; for (int q = 0; q < d; ++q) { i(q) = c.i(0, 4) ? c.i(0, n(q) - 1) : c.i(-3, n(q) + 2); if (i(q) < 0 || i(q) >= n(q)) val = false; }
    std::ostringstream q; q << o.str() << " index " << i.transpose(); hx::at(q.str());
    HX("valid-index", g.isValidIndex(i) == val, q.str());
    int t = 0;
    try { (void)g.getCell(i); } catch (std::exception&) { ++t; } try { (void)cg.getCell(i); } catch (std::exception&) { ++t; }
    try { (void)g[i]; } catch (std::exception&) { ++t; } try { (void)cg[i]; } catch (std::exception&) { ++t; } try { (void)g.getCoordinates(i); } catch (std::exception&) { ++t; }
    HX("index-accepted-iff-valid", t == (val ? 0 : 5), q.str() << " rejected by " << t);
  }
  { G h(g); g.reset(); bool z = true; for (double v : g.getCells()) z = z && v == 0; HX("reset", z && g.getCells().size() == tot && g.getNumCells() == n, o.str());
    bool kept = tot == 0 || h.getCells()[0] != 0; HX("copy-independent", kept, o.str()); h.reset(); }
}
int main() {
  hx::guard(); auto& c = hx::C();
  { typedef Grid<double, double, 1> G; hx::at("min=-1 max=0 res=0.1 point=-1e-30"); typename G::Coordinate a, b, r, p; a << -1; b << 0; r << 0.1; p << -1e-30; G g(a, b, r); HX("index-in-grid", g.isValidIndex(g.getIndex(p)), "min=-1 max=0 res=0.1 point=-1e-30"); }
  do for (int k = 0; k < 40; ++k) { one<double, 1>(1); one<double, 2>(2); one<double, 3>(3); one<double, Eigen::Dynamic>(c.i(1, 4)); one<int, 1>(1); one<int, 2>(2); one<float, 2>(2); } while (c.left());
  return hx::done();
}
