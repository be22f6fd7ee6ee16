#include "common.h"
#include <iostream>
#include "aslam/calibration/functions/LogFactorialFunction.h"
#include "aslam/calibration/functions/LogGammaFunction.h"
#include "aslam/calibration/functions/DigammaFunction.h"
#include "aslam/calibration/functions/IncompleteGammaPFunction.h"
#include "aslam/calibration/functions/IncompleteGammaQFunction.h"
using namespace aslam::calibration;

template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

// lower regularised incomplete gamma function by its power series, upper by 1 - lower
static double lower(double a, double x) {
  if (x == 0) return 0;
  long double t = 1.0L / a, s = t;
  for (int n = 1; n < 2000; n++) { t *= x / (a + n); s += t; if (t < s * 1e-19L) break; }
  return (double)(s * expl(a * logl(x) - x - lgammal(a)));
}

int main() {
  hx::guard();
  LogFactorialFunction lf; LogGammaFunction<size_t> lgi; DigammaFunction<double> dg;
  const Function<double, size_t>& blf = lf; const Function<double, size_t>& blg = lgi; const Function<double, double>& bdg = dg;
  long double acc = 0;
  for (size_t n = 0; n <= 400; n++) {
    hx::at("logfactorial " + std::to_string(n));
    if (n) acc += logl((long double)n);
    HX("log-factorial", hx::close(lf.getValue(n), (double)acc), "log-factorial(" << n << ") = " << lf.getValue(n) << " != " << (double)acc);
    HX("log-gamma-integer", hx::close(lgi.getValue(n + 1), (double)acc), "log-gamma(" << n + 1 << ") = " << lgi.getValue(n + 1) << " != " << (double)acc);
    HX("call-operator", blf(n) == lf.getValue(n) && blg(n + 1) == lgi.getValue(n + 1), "the call operator gives the function value");
  }
  HX("log-gamma-zero", throws([&] { lgi.getValue(0); }), "integer log-gamma of zero is rejected");
  while (hx::C().left()) {
    auto& c = hx::C();
    hx::at("special functions");
    size_t m = c.i(1, 8);
    double x = c.coin() ? c.u(0.05, 50) : c.i(1, 40) * 0.5;
    double xm = x + 0.5 * (m - 1);
    LogGammaFunction<double> lg(m);
    HX("log-gamma-dim", lg.getDim() == m, "dimension");
    long double s = m * (m - 1) * 0.25L * logl(M_PIl);
    for (size_t i = 0; i < m; i++) s += lgammal(xm - 0.5L * i);
    HX("log-gamma", hx::close(lg.getValue(xm), (double)s), "log-gamma of dimension " << m << " at " << xm << " = " << lg.getValue(xm) << " != " << (double)s);
    LogGammaFunction<double> g1;
    HX("log-gamma-default", g1.getDim() == 1 && hx::close(g1.getValue(x), lgamma(x)), "log-gamma of dimension one at " << x);
    LogGammaFunction<double> g2(lg), g3(1 + m); g3 = lg; g1.setDim(m);
    HX("log-gamma-copy", g2.getDim() == m && g3.getDim() == m && g1.getDim() == m && g2.getValue(xm) == lg.getValue(xm) && g3.getValue(xm) == lg.getValue(xm) && g1.getValue(xm) == lg.getValue(xm), "copies and setter keep the dimension");
    double y = c.u(0.1, 30), h = 1e-4 * y;
    double d = (lgammal(y - 2 * h) - 8 * lgammal(y - h) + 8 * lgammal(y + h) - lgammal(y + 2 * h)) / (12 * h);
    HX("digamma", hx::close(dg.getValue(y), d, 1e-6) && bdg(y) == dg.getValue(y), "digamma(" << y << ") = " << dg.getValue(y) << " != " << d);
    HX("digamma-recurrence", hx::close(dg.getValue(y + 1), dg.getValue(y) + 1 / y, 1e-9), "digamma recurrence at " << y);
    double a = c.coin() ? c.u(0.1, 15) : c.i(1, 20) * 0.5, z = c.coin() ? c.u(0, 20) : c.i(0, 10);
    IncompleteGammaPFunction p(a); IncompleteGammaQFunction q(a);
    HX("incomplete-gamma-complement", hx::close(p.getValue(z) + q.getValue(z), 1.0), "P + Q = 1 for parameter " << a << " at " << z);
    HX("incomplete-gamma-P", std::fabs(p.getValue(z) - lower(a, z)) < 1e-9, "P(" << a << ", " << z << ") = " << p.getValue(z) << " != " << lower(a, z));
    IncompleteGammaPFunction p2(p), p3(a + 1); p3 = p; IncompleteGammaQFunction q2(q), q3(a + 1); q3 = q;
    HX("incomplete-gamma-copy", p2.getAlpha() == a && p3.getAlpha() == a && q2.getAlpha() == a && q3.getAlpha() == a && p3.getValue(z) == p.getValue(z) && q3.getValue(z) == q.getValue(z), "copies keep the parameter");
    double b = c.u(0.1, 15); p.setAlpha(b); q.setAlpha(b);
    HX("incomplete-gamma-set", p.getAlpha() == b && q.getAlpha() == b && std::fabs(p.getValue(z) - lower(b, z)) < 1e-9 && hx::close(p.getValue(z) + q.getValue(z), 1.0), "the parameter last set counts");
    HX("incomplete-gamma-domain", throws([&] { p.getValue(-1 - z); }) && throws([&] { q.getValue(-1 - z); }) && throws([&] { IncompleteGammaPFunction(-b).getValue(1); }), "arguments outside the domain are rejected");
  }
  return hx::done();
}
