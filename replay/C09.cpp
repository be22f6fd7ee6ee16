#include "common.h"
#include <iostream>
#include <Eigen/Dense>
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/UniformDistribution.h"
#include "aslam/calibration/statistics/GammaDistribution.h"
#include "aslam/calibration/statistics/ChiSquareDistribution.h"
using namespace aslam::calibration;
typedef long double LD;
static const LD PIL = 3.14159265358979323846264338327950288L;
static double digammaRef(double x) { LD r = 0, y = x; while (y < 12) { r -= 1 / y; y += 1; } LD i = 1 / (y * y); r += std::log(y) - 0.5L / y - i * (1.0L / 12 - i * (1.0L / 120 - i * (1.0L / 252 - i * (1.0L / 240 - i / 132)))); return (double)r; }
static double gammaCdfRef(double a, double x) { if (x <= 0) return 0; // series of the regularised lower incomplete gamma function
  LD t = std::exp((LD)a * std::log((LD)x) - (LD)x - std::lgamma((LD)a + 1)), s = t; for (int k = 1; k < 4000; ++k) { t *= (LD)x / (a + k); s += t; if (t < 1e-22L * s) break; } return (double)s; }
template <class F> static bool thr(F f) { try { f(); return false; } catch (...) { return true; } }
#define EQ(key, a, b, tol, msg) do { double _a = (a), _b = (b); HX(key, hx::close(_a, _b, tol), msg << " got " << _a << " expected " << _b); } while (0)

static void checkN1(const NormalDistribution<1>& d, double m, double v, const std::string& o) {
  auto& c = hx::C();
  EQ("n1-mean", d.getMean(), m, 1e-12, o); EQ("n1-median", d.getMedian(), m, 1e-12, o); EQ("n1-mode", d.getMode(), m, 1e-12, o);
  EQ("n1-variance", d.getVariance(), v, 1e-12, o); EQ("n1-precision", d.getPrecision(), 1 / v, 1e-12, o); EQ("n1-std", d.getStandardDeviation(), std::sqrt(v), 1e-12, o);
  EQ("n1-normalizer", d.getNormalizer(), 0.5L * std::log(2 * PIL * v), 1e-12, o);
  for (int k = 0; k < 4; ++k) {
    double x = m + c.u(-4, 4) * std::sqrt(v); if (!k) x = m;
    LD z = ((LD)x - m) * ((LD)x - m) / v, lp = -0.5L * z - 0.5L * std::log(2 * PIL * v); std::ostringstream q; q.precision(17); q << o << " x=" << x;
    EQ("n1-mahalanobis", d.mahalanobisDistance(x), z, 1e-9, q.str()); EQ("n1-logpdf", d.logpdf(x), lp, 1e-9, q.str()); EQ("n1-pdf", d.pdf(x), std::exp(lp), 1e-9, q.str()); EQ("n1-call", d(x), std::exp(lp), 1e-9, q.str());
    EQ("n1-cdf", d.cdf(x), 0.5L * std::erfc(-((LD)x - m) / std::sqrt(2.0L * v)), 1e-9, q.str());
  }
}
static void n1() {
  auto& c = hx::C(); double m = c.u(-10, 10), v = std::exp(c.u(-6, 6)); std::ostringstream o; o.precision(17); o << "normal1 N(" << m << "," << v << ")"; hx::at(o.str());
  NormalDistribution<1> d(m, v); if (c.coin()) d = NormalDistribution<1>(std::make_tuple(m, v)); checkN1(d, m, v, o.str());
  for (int k = 0; k < 3; ++k) {
    int op = c.i(0, 4);
    if (op == 0) { m = c.u(-10, 10); d.setMean(m); o << " setMean " << m; }
    if (op == 1) { v = std::exp(c.u(-6, 6)); d.setVariance(v); o << " setVariance " << v; }
    if (op == 2) { double b = c.coin() ? 0 : -std::exp(c.u(-6, 6)); o << " setVariance " << b; HX("n1-rejects", thr([&] { d.setVariance(b); }) && thr([&] { NormalDistribution<1> x(m, b); }) && thr([&] { NormalDistribution<1> x(std::make_tuple(m, b)); }), o.str()); }
    if (op == 3) { NormalDistribution<1> e(m + 1.5, 2 * v), w(m - 1, 3 * v); e = d; NormalDistribution<1>& r = e; e = r; o << " copy"; hx::at(o.str()); checkN1(e, m, v, o.str()); NormalDistribution<1> f(e); checkN1(f, m, v, o.str()); d = w; d = f; }
    hx::at(o.str()); checkN1(d, m, v, o.str());
  }
  double m2 = c.u(-10, 10), v2 = std::exp(c.u(-3, 3)); NormalDistribution<1> e(m2, v2); o << " other N(" << m2 << "," << v2 << ")";
  EQ("n1-kl", d.KLDivergence(e), 0.5L * (std::log((LD)v2 / v) + (LD)v / v2 - 1 + ((LD)m - m2) * ((LD)m - m2) / v2), 1e-8, o.str()); EQ("n1-kl-self", d.KLDivergence(d), 0, 1e-9, o.str());
}
template <int M> static Eigen::MatrixXd rndCov(int n) { auto& c = hx::C(); Eigen::MatrixXd A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = c.u(-1, 1); Eigen::MatrixXd S = A * A.transpose() + c.u(0.1, 2) * Eigen::MatrixXd::Identity(n, n); S = (0.5 * (S + S.transpose())).eval(); return S * std::exp(c.u(-2, 2)); }
template <int M> static void checkNM(const NormalDistribution<M>& d, const Eigen::VectorXd& m, const Eigen::MatrixXd& S, const std::string& o) {
  auto& c = hx::C(); int n = m.size();
  HX("nm-mean", Eigen::VectorXd(d.getMean()) == m && Eigen::VectorXd(d.getMode()) == m, o); HX("nm-covariance", Eigen::MatrixXd(d.getCovariance()) == S, o);
  Eigen::MatrixXd R = S.fullPivLu().inverse(); HX("nm-precision", (Eigen::MatrixXd(d.getPrecision()) * S - Eigen::MatrixXd::Identity(n, n)).norm() < 1e-7, o);
  Eigen::MatrixXd L = d.getTransformation().matrixL(); HX("nm-factor", (L * L.transpose() - S).norm() < 1e-9 * (1 + S.norm()), o);
  double ld = std::log(S.fullPivLu().determinant()); EQ("nm-determinant", std::log(d.getDeterminant()), ld, 1e-8, o); EQ("nm-normalizer", d.getNormalizer(), 0.5 * n * std::log(2 * M_PI) + 0.5 * ld, 1e-8, o);
  for (int k = 0; k < 2; ++k) { Eigen::VectorXd x(n); for (int i = 0; i < n; ++i) x(i) = m(i) + c.u(-2, 2); double z = (x - m).dot(S.fullPivLu().solve(x - m)); std::ostringstream q; q.precision(17); q << o << " x=" << x.transpose();
    double lp = -0.5 * z - 0.5 * n * std::log(2 * M_PI) - 0.5 * ld; EQ("nm-mahalanobis", d.mahalanobisDistance(x), z, 1e-7, q.str()); EQ("nm-logpdf", d.logpdf(x), lp, 1e-7, q.str()); EQ("nm-pdf", d.pdf(x), std::exp(lp), 1e-6, q.str()); EQ("nm-call", d(typename NormalDistribution<M>::RandomVariable(x)), std::exp(lp), 1e-6, q.str()); }
}
template <int M> static void nm(int n) {
  auto& c = hx::C(); Eigen::VectorXd m(n); for (int i = 0; i < n; ++i) m(i) = c.u(-5, 5); Eigen::MatrixXd S = rndCov<M>(n); typedef NormalDistribution<M> D; typedef typename D::Mean V; typedef typename D::Covariance C;
  std::ostringstream o; o.precision(17); o << "normal" << M << " mean " << m.transpose() << " cov " << Eigen::Map<Eigen::VectorXd>(S.data(), n * n).transpose(); hx::at(o.str());
  V mv = m; C Sv = S; D d(mv, Sv); if (c.coin()) d = D(std::make_tuple(mv, Sv)); checkNM<M>(d, m, S, o.str());
  for (int k = 0; k < 3; ++k) {
    int op = c.i(0, 5);
    if (op == 0) { for (int i = 0; i < n; ++i) m(i) = c.u(-5, 5); d.setMean(m); o << " setMean " << m.transpose(); }
    if (op == 1) { S = rndCov<M>(n); d.setCovariance(S); o << " setCovariance " << Eigen::Map<Eigen::VectorXd>(S.data(), n * n).transpose(); }
    if (op >= 2 && op <= 4) { Eigen::MatrixXd B = rndCov<M>(n); int kind = c.i(0, 3);
      if (kind == 0 && n > 1) B(0, n - 1) += 0.1; else if (kind == 1) B(n - 1, n - 1) = -B(n - 1, n - 1); else if (kind == 2) B.setZero(); else { B.setZero(); for (int i = 0; i + 1 < n; ++i) B(i, i) = 1; if (n > 1 && c.coin()) B = Eigen::MatrixXd::Ones(n, n); }
      o << " reject " << Eigen::Map<Eigen::VectorXd>(B.data(), n * n).transpose(); hx::at(o.str()); C Bv = B; HX("nm-rejects", thr([&] { d.setCovariance(Bv); }) && thr([&] { D x(mv, Bv); }), o.str()); }
    if (op == 5) { D e(V(2 * m + V::Constant(n, 1)), C(rndCov<M>(n))), w(e); e = d; D& r = e; e = r; o << " copy"; hx::at(o.str()); checkNM<M>(e, m, S, o.str()); D f(e); checkNM<M>(f, m, S, o.str()); d = w; d = f; }
    hx::at(o.str()); checkNM<M>(d, m, S, o.str());
  }
  Eigen::VectorXd m2(n); for (int i = 0; i < n; ++i) m2(i) = c.u(-5, 5); Eigen::MatrixXd S2 = rndCov<M>(n); D e{V(m2), C(S2)};
  double kl = 0.5 * (std::log(S2.determinant()) - std::log(S.determinant()) + S2.fullPivLu().solve(S).trace() - n + (m - m2).dot(S2.fullPivLu().solve(m - m2))); EQ("nm-kl", d.KLDivergence(e), kl, 1e-7, o.str()); EQ("nm-kl-self", d.KLDivergence(d), 0, 1e-7, o.str());
}
template <class X> static X pk(double a, double b) { return std::is_integral<X>::value ? X(hx::C().i((int)a, (int)b)) : X(hx::C().u(a, b)); }
template <class X> static void u1() {
  auto& c = hx::C(); const int I = std::is_integral<X>::value; X a = pk<X>(-20, 20), b = X(a + pk<X>(1, 30)); UniformDistribution<X> d(a, b); std::ostringstream o; o.precision(17); o << "uniform1 " << (I ? "int" : "double") << " [" << a << "," << b << "]";
  for (int k = 0; k < 4; ++k) {
    hx::at(o.str()); double w = (double)b - (double)a + I;
    HX("u1-support", d.getMinSupport() == a && d.getMaxSupport() == b, o.str()); EQ("u1-area", d.getSupportArea(), w, 1e-12, o.str()); EQ("u1-mean", d.getMean(), ((double)a + b) / 2, 1e-12, o.str()); EQ("u1-median", d.getMedian(), ((double)a + b) / 2, 1e-12, o.str());
    EQ("u1-variance", d.getVariance(), (w * w - I) / 12, 1e-12, o.str()); HX("u1-mode", thr([&] { d.getMode(); }), o.str());
    std::vector<X> xs = {a, b, X(a - 1), X(b + 1), pk<X>(a, b), pk<X>(a - 5, b + 5)};
    for (X x : xs) { double e = x >= a && x <= b ? 1 / w : 0; std::ostringstream q; q << o.str() << " x=" << x; EQ("u1-pdf", d.pdf(x), e, 1e-12, q.str()); EQ("u1-pmf", d.pmf(x), e, 1e-12, q.str()); EQ("u1-call", d(x), e, 1e-12, q.str()); }
    int op = c.i(0, 4);
    if (op == 0) { a = pk<X>(-20, 20); b = X(a + pk<X>(1, 30)); d.setSupport(a, b); o << " setSupport " << a << " " << b; }
    if (op == 1) { a = X(b - pk<X>(1, 30)); d.setMinSupport(a); o << " setMin " << a; }
    if (op == 2) { b = X(a + pk<X>(1, 30)); d.setMaxSupport(b); o << " setMax " << b; }
    if (op == 3) { X z = c.coin() ? b : X(b + 3), y = c.coin() ? a : X(a - 3); o << " reject"; HX("u1-rejects", thr([&] { d.setSupport(b, a); }) && thr([&] { d.setMinSupport(z); }) && thr([&] { d.setMaxSupport(y); }) && thr([&] { UniformDistribution<X> e(b, a); }) && thr([&] { UniformDistribution<X> e(a, a); }), o.str()); }
    if (op == 4) { UniformDistribution<X> e(0, 1), w(-3, 77); e = d; UniformDistribution<X>& r = e; e = r; UniformDistribution<X> f(e); d = w; d = f; o << " copy"; }
  }
}
template <class X, int M> static void um(int n) {
  auto& c = hx::C(); const int I = std::is_integral<X>::value; typedef UniformDistribution<X, M> D; typedef typename D::RandomVariable V; V a(n), b(n);
  auto gen = [&] { for (int i = 0; i < n; ++i) { a(i) = pk<X>(-8, 8); b(i) = X(a(i) + pk<X>(1, 9)); } }; gen(); D d(a, b); std::ostringstream o; o.precision(17); o << "uniform " << (I ? "int" : "double") << " M=" << M << " " << a.transpose() << " .. " << b.transpose();
  for (int k = 0; k < 4; ++k) {
    hx::at(o.str()); double area = 1; for (int i = 0; i < n; ++i) area *= (double)b(i) - (double)a(i) + I;
    HX("um-support", d.getMinSupport() == a && d.getMaxSupport() == b, o.str()); EQ("um-area", d.getSupportArea(), area, 1e-9, o.str()); HX("um-mode", thr([&] { d.getMode(); }), o.str());
    Eigen::VectorXd me = d.getMean(), md = d.getMedian(); Eigen::MatrixXd cv = d.getCovariance();
    for (int i = 0; i < n; ++i) { EQ("um-mean", me(i), ((double)a(i) + b(i)) / 2, 1e-12, o.str()); EQ("um-median", md(i), ((double)a(i) + b(i)) / 2, 1e-12, o.str()); double w = (double)b(i) - (double)a(i) + I; for (int j = 0; j < n; ++j) EQ("um-covariance", cv(i, j), i == j ? (w * w - I) / 12 : 0, 1e-9, o.str()); }
    for (int k2 = 0; k2 < 6; ++k2) { V x(n); bool in = true; for (int i = 0; i < n; ++i) { x(i) = k2 < 3 ? pk<X>(a(i), b(i)) : k2 == 3 ? a(i) : k2 == 4 ? b(i) : pk<X>(a(i) - 2, b(i) + 2); } if (k2 == 2) { int j = c.i(0, n - 1); x(j) = c.coin() ? X(a(j) - 1) : X(b(j) + 1); } for (int i = 0; i < n; ++i) in = in && x(i) >= a(i) && x(i) <= b(i);
      std::ostringstream q; q << o.str() << " x=" << x.transpose(); EQ("um-pdf", d.pdf(x), in ? 1 / area : 0, 1e-9, q.str()); EQ("um-pmf", d.pmf(x), in ? 1 / area : 0, 1e-9, q.str()); EQ("um-call", d(x), in ? 1 / area : 0, 1e-9, q.str()); }
    int op = c.i(0, 4), j = c.i(0, n - 1);
    if (op == 0) { gen(); d.setSupport(a, b); o << " setSupport"; }
    if (op == 1) { for (int i = 0; i < n; ++i) a(i) = X(b(i) - pk<X>(1, 9)); d.setMinSupport(a); o << " setMin " << a.transpose(); }
    if (op == 2) { for (int i = 0; i < n; ++i) b(i) = X(a(i) + pk<X>(1, 9)); d.setMaxSupport(b); o << " setMax " << b.transpose(); }
    if (op == 3) { V z = a, y = b; z(j) = c.coin() ? b(j) : X(b(j) + 2); y(j) = c.coin() ? a(j) : X(a(j) - 2); o << " reject dim " << j; HX("um-rejects", thr([&] { d.setMinSupport(z); }) && thr([&] { d.setMaxSupport(y); }) && thr([&] { d.setSupport(z, b); }) && thr([&] { D e(a, y); }), o.str()); }
    if (op == 4) { D e(V(a - V::Ones(n)), V(b + V::Constant(n, X(2)))), w(e); e = d; D& r = e; e = r; D f(e); d = w; d = f; o << " copy"; }
  }
}
static void checkG(const GammaDistribution<double>& d, double a, double b, const std::string& o) {
  auto& c = hx::C(); EQ("g-shape", d.getShape(), a, 1e-12, o); EQ("g-invscale", d.getInvScale(), b, 1e-12, o); EQ("g-mean", d.getMean(), a / b, 1e-12, o); EQ("g-variance", d.getVariance(), a / (b * b), 1e-12, o);
  LD nz = std::lgamma((LD)a) - (LD)a * std::log((LD)b); EQ("g-normalizer", d.getNormalizer(), nz, 1e-10, o);
  if (a < 1) HX("g-mode", thr([&] { d.getMode(); }), o); else EQ("g-mode", d.getMode(), (a - 1) / b, 1e-12, o);
  for (int k = 0; k < 3; ++k) { double x = a / b * std::exp(c.u(-2, 2)); LD lp = (a - 1) * std::log((LD)x) - (LD)x * b - nz; std::ostringstream q; q.precision(17); q << o << " x=" << x; EQ("g-logpdf", d.logpdf(x), lp, 1e-9, q.str()); EQ("g-pdf", d.pdf(x), std::exp(lp), 1e-8, q.str()); EQ("g-call", d(x), std::exp(lp), 1e-8, q.str()); double F = gammaCdfRef(a, x * b); EQ("g-cdf", d.cdf(x), F, 1e-8, q.str());
    HX("g-outside", d.pdf(-x) == 0 && d.cdf(-x) == 0 && d.cdf(0) == 0 && d.logpdf(-x) == -INFINITY, q.str()); double p = c.u(0.01, 0.99); double y = d.invcdf(p); q << " p=" << p; EQ("g-invcdf", gammaCdfRef(a, y * b), p, 1e-7, q.str()); HX("g-invcdf-rejects", thr([&] { d.invcdf(-0.01); }) && thr([&] { d.invcdf(1.01); }), q.str()); }
}
static void gam() {
  auto& c = hx::C(); double a = std::exp(c.u(-1, 3)), b = std::exp(c.u(-2, 2)); if (!c.i(0, 4)) a = 1; GammaDistribution<double> d(a, b); std::ostringstream o; o.precision(17); o << "gamma " << a << " " << b;
  for (int k = 0; k < 3; ++k) { hx::at(o.str()); checkG(d, a, b, o.str()); int op = c.i(0, 3);
    if (op == 0) { a = std::exp(c.u(-1, 3)); d.setShape(a); o << " setShape " << a; } if (op == 1) { b = std::exp(c.u(-2, 2)); d.setInvScale(b); o << " setInvScale " << b; }
    if (op == 2) { double z = c.coin() ? 0 : -1; o << " reject " << z; HX("g-rejects", thr([&] { d.setShape(z); }) && thr([&] { d.setInvScale(z); }) && thr([&] { GammaDistribution<double> e(z, 1); }) && thr([&] { GammaDistribution<double> e(1, z); }), o.str()); }
    if (op == 3) { GammaDistribution<double> e(a + 2, b * 3), w(e); e = d; auto& r = e; e = r; GammaDistribution<double> f(e); d = w; d = f; o << " copy"; } }
  hx::at(o.str()); checkG(d, a, b, o.str()); if (a == 1) EQ("g-logpdf-zero", d.logpdf(0), std::log(b), 1e-9, o.str());
  double a2 = std::exp(c.u(-1, 3)), b2 = std::exp(c.u(-2, 2)); GammaDistribution<double> e(a2, b2); o << " other " << a2 << " " << b2;
  EQ("g-kl", d.KLDivergence(e), (a - a2) * digammaRef(a) - std::lgamma(a) + std::lgamma(a2) + a2 * (std::log(b) - std::log(b2)) + a * (b2 - b) / b, 1e-8, o.str()); EQ("g-kl-self", d.KLDivergence(d), 0, 1e-9, o.str());
  double k = std::exp(c.u(-1, 4)); ChiSquareDistribution x(k); std::ostringstream q; q.precision(17); q << "chi2 " << k; hx::at(q.str()); EQ("chi2-degrees", x.getDegrees(), k, 1e-12, q.str()); checkG(x, k / 2, 0.5, q.str());
  k = std::exp(c.u(-1, 4)); x.setDegrees(k); q << " setDegrees " << k; if (c.coin()) { ChiSquareDistribution y(3); y = x; x = ChiSquareDistribution(y); } EQ("chi2-degrees", x.getDegrees(), k, 1e-12, q.str()); checkG(x, k / 2, 0.5, q.str()); double f = 1 - 2 / (9 * k); EQ("chi2-median", x.getMedian(), k * f * f * f, 1e-10, q.str()); HX("chi2-rejects", thr([&] { x.setDegrees(0); }) && thr([&] { ChiSquareDistribution y(-1); }), q.str());
}
int main() {
  hx::guard(); auto& c = hx::C();
  do for (int k = 0; k < 10; ++k) { n1(); nm<2>(2); nm<3>(3); nm<Eigen::Dynamic>(c.i(1, 4)); u1<double>(); u1<int>(); um<double, 2>(2); um<double, 3>(3); um<int, 2>(2); um<double, Eigen::Dynamic>(c.i(1, 4)); gam(); } while (c.left());
  return hx::done();
}
