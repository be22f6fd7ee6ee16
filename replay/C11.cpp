// Bounded search for a failing input: the samplers are fed chosen raw draws (random / srandom are replaced here).
#include "common.h"
#include <deque>
#include <Eigen/Core>
#include <Eigen/Dense>
#include "aslam/calibration/statistics/Randomizer.h"
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/UniformDistribution.h"
#include "aslam/calibration/statistics/GammaDistribution.h"
using namespace aslam::calibration;

static std::vector<long> feed;      // chosen draws, used first
static size_t fpos = 0;
static unsigned long lcg = 1, nseed = 0;
static unsigned lastseed = 0;
static long ndraw = 0;
static unsigned long mix() { lcg = lcg * 6364136223846793005ul + 1442695040888963407ul; return lcg >> 33; }
extern "C" long random(void) noexcept { ++ndraw; long r = fpos < feed.size() ? feed[fpos] : (long)mix(); ++fpos; return r; }
extern "C" void srandom(unsigned s) noexcept { lastseed = s; ++nseed; lcg = s * 2654435761ul + 12345; feed.clear(); fpos = 0; }

static const double RM = RAND_MAX;
static std::vector<long> used;      // the stream as a vector, generated ahead
static void prepare(int n, bool extremes) {
  used.clear();
  for (int k = 0; k < n; ++k) {
    int c = extremes ? hx::C().i(0, 9) : 9;
    used.push_back(c == 0 ? 0 : c == 1 ? RAND_MAX : c == 2 ? hx::C().i(0, 3) : c == 3 ? RAND_MAX - hx::C().i(0, 3) : hx::C().i(0, RAND_MAX));
  }
  feed = used; fpos = 0; ndraw = 0;
}
static double U(size_t k) { return used.at(k) / RM; }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } catch (...) { return true; } return false; }
static double para() { switch (hx::C().i(0, 6)) { case 0: return 0; case 1: return -hx::C().u(0, 3); case 2: return 1; case 3: return hx::C().u(0, 1e-3); case 4: return hx::C().i(1, 6); case 5: return hx::C().u(10, 30); default: return hx::C().u(0, 5); } }
static std::string S(const std::string& f, double a, double b) { std::ostringstream o; o.precision(17); o << f << "(" << a << ", " << b << ") with raw draws " << hx::str(std::vector<long>(used.begin(), used.begin() + std::min<size_t>(6, used.size()))); return o.str(); }

// expected value of the polar method on the stream from position k; both coordinates are standard normal
static bool polar(size_t& k, double& z1, double& z2) {
  for (; k + 1 < used.size();) {
    double u = 2 * U(k) - 1, v = 2 * U(k + 1) - 1, s = u * u + v * v;
    k += 2;
    if (s < 1 && s > 0) { double f = std::sqrt(-2 * std::log(s) / s); z1 = u * f; z2 = v * f; return true; }
  }
  return false;
}

template <class T> static void scalars(const char* tn) {
  Randomizer<T> r(1);
  const std::string t = std::string("Randomizer<") + tn + ">::";
  {
    T a = (T)(hx::C().coin() ? hx::C().u(-20, 20) : hx::C().i(-3, 3)), b = (T)(a + (hx::C().coin() ? para() : hx::C().u(0, 1e4)));
    prepare(4, true);
    hx::at(S(t + "sampleUniform", a, b));
    bool bad = a >= b; T x = T();
    bool thrown = throws([&] { x = r.sampleUniform(a, b); });
    HX("sampleUniform.reject", thrown == bad, hx::C().at << (bad ? " accepted" : " rejected"));
    if (!bad && !thrown) {
      double e = a + U(0) * ((double)b - a);
      HX("sampleUniform.range", x >= a && x <= b, hx::C().at << " = " << x);
      HX("sampleUniform.value", std::numeric_limits<T>::is_integer ? std::fabs(x - e) <= 0.5 + 1e-6 : hx::close(x, e), hx::C().at << " = " << x << ", expected " << e);
    }
  }
  {
    T m = (T)hx::C().u(-20, 20), v = (T)para();
    prepare(400, hx::C().coin());
    hx::at(S(t + "sampleNormal", m, v));
    bool bad = v <= 0; T x = T();
    bool thrown = throws([&] { x = r.sampleNormal(m, v); });
    HX("sampleNormal.reject", thrown == bad, hx::C().at << (bad ? " accepted" : " rejected"));
    size_t k = 0; double z1, z2;
    if (!bad && !thrown && polar(k, z1, z2)) {
      double e1 = m + std::sqrt((double)v) * z1, e2 = m + std::sqrt((double)v) * z2;
      auto okv = [&](double e) { return std::numeric_limits<T>::is_integer ? std::fabs(x - e) <= 0.5 + 1e-6 : hx::close(x, e); };
      HX("sampleNormal.value", okv(e1) || okv(e2), hx::C().at << " = " << x << ", expected " << e1 << " (or " << e2 << ")");
    }
  }
  {
    double m = para();
    prepare(400, hx::C().coin());
    hx::at(S(t + "samplePoisson", m, 0));
    size_t x = 0; bool bad = m <= 0, thrown = throws([&] { x = r.samplePoisson(m); });
    HX("samplePoisson.reject", thrown == bad, hx::C().at << (bad ? " accepted" : " rejected"));
    if (!bad && !thrown) {
      size_t k = 0; double p = 1; do { p *= U(k++); } while (p > std::exp(-m) && k < used.size());
      HX("samplePoisson.value", k == used.size() || x == k - 1, hx::C().at << " = " << x << ", expected " << k - 1);
    }
  }
  {
    double m = para();
    prepare(60, hx::C().coin());
    hx::at(S(t + "sampleExponential", m, 0));
    double x = 0; bool bad = m <= 0, thrown = throws([&] { x = r.sampleExponential(m); });
    HX("sampleExponential.reject", thrown == bad, hx::C().at << (bad ? " accepted" : " rejected"));
    if (!bad && !thrown) {
      size_t k = 0; while (k < used.size() && used[k] == 0) ++k;
      HX("sampleExponential.support", x >= 0 && std::isfinite(x), hx::C().at << " = " << x);
      if (k < used.size()) HX("sampleExponential.value", hx::close(x, -std::log(U(k)) / m), hx::C().at << " = " << x << ", expected " << -std::log(U(k)) / m);
    }
  }
  {
    double p = hx::C().i(0, 4) == 0 ? 1.0 : hx::C().coin() ? para() : hx::C().u(0.01, 1);
    prepare(60, hx::C().coin());
    hx::at(S(t + "sampleGeometric", p, 0));
    size_t x = 0; bool bad = p <= 0 || p > 1, thrown = throws([&] { x = r.sampleGeometric(p); });
    HX("sampleGeometric.reject", thrown == bad, hx::C().at << (bad ? " accepted" : " rejected"));
    if (!bad && !thrown) {
      size_t k = 0; while (k < used.size() && used[k] == 0) ++k;
      if (k < used.size()) {
        double e = p == 1 ? 0 : std::log(U(k)) / std::log(1 - p);
        if (e < 1e15 && std::fabs(e - std::round(e)) > 1e-7) HX("sampleGeometric.value", x == (size_t)std::floor(e), hx::C().at << " = " << x << ", expected " << std::floor(e));
        if (p == 1) HX("sampleGeometric.one", x == 0, hx::C().at << " = " << x << ", expected 0");
      }
    }
  }
  {
    double a = hx::C().i(0, 3) == 0 ? hx::C().i(0, 4) : para(), b = para();
    prepare(400, hx::C().coin());
    hx::at(S(t + "sampleGamma", a, b));
    double x = 0; bool bad = a <= 0 || b <= 0, thrown = throws([&] { x = r.sampleGamma(a, b); });
    HX("sampleGamma.reject", thrown == bad, hx::C().at << (bad ? " accepted" : " rejected"));
    if (!bad && !thrown) {
      HX("sampleGamma.support", x >= 0, hx::C().at << " = " << x);
      size_t k = 0, n = (size_t)std::floor(a); double y = 0, f = a - n, z = 0, bb = (M_E + f) / M_E; bool have = true;
      for (size_t i = 0; i < n; ++i) { while (k < used.size() && used[k] == 0) ++k; if (k >= used.size()) { have = false; break; } y += -std::log(U(k++)); }
      bool edge = std::fabs(f) <= 1e-9 && f != 0;
      if (have && f > 1e-9)
        for (;;) {
          if (k + 1 >= used.size()) { have = false; break; }
          double p = bb * U(k++);
          z = p > 1 ? -std::log((bb - p) / f) : std::pow(p, 1 / f);
          double lim = p > 1 ? std::pow(z, f - 1) : std::exp(-z);
          if (std::fabs(U(k) - lim) < 1e-9 || std::fabs(p - 1) < 1e-9) { edge = true; break; }
          if (U(k++) <= lim) break;
        }
      if (have && !edge) HX("sampleGamma.value", hx::close(x, (y + z) / b, 1e-7), hx::C().at << " = " << x << ", expected " << (y + z) / b);
    }
  }
  {
    unsigned s = (unsigned)hx::C().i(0, 1000000);
    std::ostringstream o; o << t << "setSeed(" << s << ")"; hx::at(o.str());
    prepare(3, false);
    auto seq = [&] { std::vector<double> v; for (int k = 0; k < 5; ++k) { v.push_back(r.sampleUniform(T(0), T(1000))); v.push_back(r.sampleNormal(T(1), T(100))); v.push_back(r.sampleGamma(1.5, 2)); } return v; };
    r.setSeed((T)s); bool okseed = lastseed == s; std::vector<double> a = seq();
    r.sampleNormal(T(0), T(100));
    r.setSeed((T)s); std::vector<double> b = seq();
    HX("setSeed.seed", okseed, hx::C().at << " seeded the generator with " << lastseed);
    HX("setSeed.same", a == b, hx::C().at << " gave two different sequences");
    Randomizer<T> c(r), d(2); d = r; (void)c; (void)d;
  }
}

template <int M> static void categorical(const char* nm, int n) {
  typedef Eigen::Matrix<double, M, 1> V;
  Randomizer<double, M> r(1);
  V p(n); double s = 0;
  for (int i = 0; i < n; ++i) { p(i) = hx::C().i(0, 3) == 0 ? 0 : hx::C().u(0, 1); s += p(i); }
  if (s == 0) { p(0) = 1; s = 1; }
  p /= s;
  int kind = hx::C().i(0, 5);
  if (kind == 0) p *= hx::C().u(0.2, 0.999);
  if (kind == 1 && n > 1) { double d = hx::C().u(0.01, 2); int k = hx::C().i(0, n - 1); p((k + 1) % n) += p(k) + d; p(k) = -d; }
  bool bad = std::fabs(p.sum() - 1.0) > 1e-12 || p.minCoeff() < 0;
  prepare(3, hx::C().coin());
  std::ostringstream o; o.precision(17); o << "Randomizer<double, " << nm << ">::sampleCategorical([" << p.transpose() << "]) with unit draw " << U(0); hx::at(o.str());
  size_t x = 0; bool thrown = throws([&] { x = r.sampleCategorical(p); });
  HX("sampleCategorical.reject", thrown == bad, o.str() << (bad ? " accepted" : " rejected"));
  if (bad || thrown) return;
  HX("sampleCategorical.index", x < (size_t)n, o.str() << " = " << x);
  double c = 0; size_t e = n - 1; bool edge = false;
  for (int i = 0; i < n; ++i) { c += p(i); if (std::fabs(U(0) - c) < 1e-12 && U(0) != c) edge = true; if (U(0) <= c) { e = i; break; } }
  if (!edge) HX("sampleCategorical.value", x == e, o.str() << " = " << x << ", expected " << e);
}

static void distributions() {
  static bool warm = false;
  double mu = hx::C().u(-5, 5), v = hx::C().u(0.1, 9);
  NormalDistribution<1> n1(mu, v);
  UniformDistribution<double> ud(mu, mu + v);
  UniformDistribution<int> ui((int)mu - 3, (int)mu + 4);
  GammaDistribution<double> g(v, 0.5 + v);
  Eigen::Vector3d m3 = Eigen::Vector3d::Random(); Eigen::Matrix3d A = Eigen::Matrix3d::Random(), C = A * A.transpose() + 0.1 * Eigen::Matrix3d::Identity();
  C = 0.5 * (C + C.transpose()).eval();
  NormalDistribution<3> n3(m3, C);
  Eigen::Vector2d lo(mu, mu - 1), hi(mu + v, mu + 3);
  UniformDistribution<double, 2> u2(lo, hi);
  if (!warm) { n1.getSample(); ud.getSample(); ui.getSample(); g.getSample(); n3.getSample(); u2.getSample(); warm = true; }
  prepare(400, false); hx::at(S("NormalDistribution<1>::getSample", mu, v));
  size_t k = 0; double z1, z2; double x = n1.getSample();
  if (polar(k, z1, z2)) HX("normal1.sample", hx::close(x, mu + std::sqrt(v) * z1) || hx::close(x, mu + std::sqrt(v) * z2), hx::C().at << " = " << x << ", expected " << mu + std::sqrt(v) * z1);
  prepare(9, true); hx::at(S("UniformDistribution<double>::getSample", mu, mu + v));
  x = ud.getSample(); HX("uniform1.sample", hx::close(x, mu + U(0) * v), hx::C().at << " = " << x << ", expected " << mu + U(0) * v);
  prepare(9, true); hx::at(S("UniformDistribution<int>::getSample", ui.getMinSupport(), ui.getMaxSupport()));
  int xi = ui.getSample(); HX("uniformi.sample", xi >= ui.getMinSupport() && xi <= ui.getMaxSupport() && std::fabs(xi - (ui.getMinSupport() + U(0) * (ui.getMaxSupport() - ui.getMinSupport()))) < 0.5001, hx::C().at << " = " << xi);
  prepare(400, false); hx::at(S("GammaDistribution<double>::getSample", v, 0.5 + v));
  x = g.getSample(); fpos = 0; Randomizer<double> rr(1); fpos = 0; double xg = rr.sampleGamma(v, 0.5 + v);
  HX("gamma.sample", hx::close(x, xg), hx::C().at << " = " << x << ", expected " << xg);
  prepare(400, false); { std::ostringstream o; o << "NormalDistribution<3>::getSample, mean [" << m3.transpose() << "], covariance [" << C << "]"; hx::at(o.str()); }
  Eigen::Vector3d xs = n3.getSample(), za, zb; k = 0; bool all = true;
  for (int i = 0; i < 3; ++i) all = all && polar(k, za(i), zb(i));
  if (all) {
    Eigen::Matrix3d L = C.llt().matrixL();
    bool ok = false; Eigen::Vector3d e0 = m3 + L * za;
    for (const Eigen::Vector3d& z : {za, zb, Eigen::Vector3d(za.reverse()), Eigen::Vector3d(zb.reverse())}) ok = ok || (xs - (m3 + L * z)).norm() < 1e-8 * (1 + xs.norm());
    HX("normal3.sample", ok, hx::C().at << " = [" << xs.transpose() << "], expected [" << e0.transpose() << "]");
  }
  prepare(9, true); hx::at(S("UniformDistribution<double, 2>::getSample", mu, v));
  Eigen::Vector2d x2 = u2.getSample();
  for (int i = 0; i < 2; ++i) {
    HX("uniform2.range", x2(i) >= lo(i) && x2(i) <= hi(i), hx::C().at << " component " << i << " = " << x2(i) << " outside [" << lo(i) << ", " << hi(i) << "]");
    HX("uniform2.value", hx::close(x2(i), lo(i) + U(i) * (hi(i) - lo(i))) || hx::close(x2(i), lo(i) + U(1 - i) * (hi(i) - lo(i))), hx::C().at << " component " << i << " = " << x2(i));
  }
  size_t n = hx::C().i(0, 20);
  std::ostringstream o; o << "getSamples(" << n << ")"; hx::at(o.str());
  std::vector<double> vs(hx::C().i(0, 5), -1e9);
  prepare(2000, false); ud.getSamples(vs, n);
  HX("getSamples.count", vs.size() == n, o.str() << " returned " << vs.size());
  fpos = 0; for (size_t i = 0; i < vs.size(); ++i) { double e = ud.getSample(); if (!(vs[i] == e)) { HX("getSamples.values", false, o.str() << " sample " << i << " = " << vs[i] << ", expected " << e); break; } }
}

int main() {
  hx::guard();
  std::srand(hx::C().i(0, 1 << 30));
  while (hx::C().left()) {
    scalars<double>("double"); scalars<int>("int");
    categorical<Eigen::Dynamic>("Dynamic", hx::C().i(1, 8)); categorical<3>("3", 3); categorical<1>("1", 1);
    distributions();
  }
  return hx::done();
}
