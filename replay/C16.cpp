#include "common.h"
#define bestQuat bestQuat_car
#include "incremental_calibration_examples_car/src/algo/bestQuat.cpp"
#undef bestQuat
#define bestQuat bestQuat_td
#include "incremental_calibration_examples_time_delay/src/algo/bestQuat.cpp"
#undef bestQuat
#define bestQuat bestQuat_ego
#include "incremental_calibration_examples_egomotion_sensors/src/algo/bestQuat.cpp"
#undef bestQuat
#include "incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp"
#include "incremental_calibration_examples_car/src/geo/geodetic.cpp"
using namespace aslam::calibration;
typedef Eigen::Matrix<double, 3, 1> V3; typedef Eigen::Matrix<double, 2, 1> V2;
static bool eq(double a, double b) { return hx::close(a, b, 1e-9) || std::fabs(a - b) < 1e-9; }
static void path() {
  auto& c = hx::C();
  const size_t n = c.i(0, 5) ? c.i(1, 40) : 1; const double A = c.u(-5, 5), f = c.u(0.001, 2), T = c.u(0.001, 1);
  std::vector<V3> u(c.i(0, 3), V3(7, 8, 9));
  std::ostringstream o; o.precision(17); o << "genSineWavePath(steps=" << n << ", amplitude=" << A << ", frequency=" << f << ", T=" << T << ") on a vector of " << u.size(); hx::at(o.str());
  genSineWavePath(u, n, A, f, T);
  HX("number-of-poses", u.size() == n, o.str() << ": " << u.size());
  if (u.size() != n) return;
  HX("first", u[0].isZero(), o.str() << ": first input " << u[0].transpose());
  auto S = [&](size_t k) { return A * std::cos(2 * M_PI * f * (k * T)); };
  auto H = [&](size_t k) { return k ? std::atan(S(k)) : 0.0; };
  for (size_t k = 1; k < n; ++k) {
    const double v = 2 * M_PI * f * (std::sqrt(1 + S(k) * S(k)) + std::sqrt(1 + S(k - 1) * S(k - 1))) / 2, w = (H(k) - H(k - 1)) / T;
    HX("speed", eq(u[k](0), v), o.str() << ": input " << k << " speed " << u[k](0) << " expected " << v);
    HX("lateral", u[k](1) == 0, o.str() << ": input " << k << " lateral " << u[k](1));
    HX("turn-rate", std::fabs(u[k](2) - w) < 1e-6 * (1 + std::fabs(w)), o.str() << ": input " << k << " turn rate " << u[k](2) << " expected " << w);
  }
}
static void marks() {
  auto& c = hx::C();
  const size_t n = c.i(0, 6), nl = c.i(0, 5), rows = c.i(0, 8) ? n : n + c.i(0, 2);
  std::vector<V3> x(n); for (auto& p : x) p = V3(c.u(-9, 9), c.u(-9, 9), c.u(-4, 4));
  V3 th(c.u(-1, 1), c.u(-1, 1), c.u(-4, 4));
  std::vector<std::vector<double> > r(rows, std::vector<double>(nl)), b = r;
  std::ostringstream o; o.precision(17); o << "initLandmarks: " << n << " poses, " << nl << " landmarks, Theta=" << th.transpose() << " ranges";
  for (size_t i = 0; i < rows; ++i) { o << " ["; for (size_t j = 0; j < nl; ++j) { r[i][j] = c.i(0, 2) ? (c.coin() ? 0.0 : -c.u(0, 2)) : c.u(0.01, 9); b[i][j] = c.u(-4, 4); o << r[i][j] << " "; } o << "]"; }
  std::vector<V2> m(c.i(0, 4), V2(5, 6)), m0 = m; hx::at(o.str());
  initLandmarks(m, x, th, r, b);
  if (rows < 1) { HX("nothing-seen", m == m0, o.str()); return; }
  HX("one-per-landmark", m.size() == nl, o.str() << ": " << m.size());
  if (m.size() != nl) return;
  for (size_t j = 0; j < nl; ++j) {
    V2 e(0, 0);
    for (size_t i = 0; i < n; ++i) if (r[i][j] > 0) { const double t = x[i](2), a = b[i][j] + th(2) + t;
      e << x[i](0) + th(0) * std::cos(t) - th(1) * std::sin(t) + r[i][j] * std::cos(a), x[i](1) + th(0) * std::sin(t) + th(1) * std::cos(t) + r[i][j] * std::sin(a); break; }
    HX("landmark", eq(m[j](0), e(0)) && eq(m[j](1), e(1)), o.str() << ": landmark " << j << " at " << m[j].transpose() << " expected " << e.transpose());
  }
}
template <class F> static void quat(F bq, const char* w) {
  auto& c = hx::C(); Eigen::Vector4d p, q;
  do { for (int i = 0; i < 4; ++i) { p(i) = c.u(-1, 1); q(i) = c.u(-1, 1); } } while (p.norm() < 0.1 || q.norm() < 0.1 || std::fabs(p.normalized().dot(q.normalized())) < 1e-6);
  if (c.coin()) { p.normalize(); q.normalize(); }
  if (!c.i(0, 3)) q = (c.coin() ? 1 : -1) * p;
  std::ostringstream o; o.precision(17); o << w << "(" << p.transpose() << ", " << q.transpose() << ")"; hx::at(o.str());
  Eigen::Vector4d r = bq(p, q), e = p.dot(q) < 0 ? Eigen::Vector4d(-q) : q;
  HX("same-rotation", r == q || r == -q, o.str() << " = " << r.transpose());
  HX("closer-sign", r == e, o.str() << " = " << r.transpose());
}
static void geo() {
  auto& c = hx::C(); const double la = c.u(-M_PI / 2, M_PI / 2), lo = c.u(-M_PI, M_PI), h = c.u(-100, 9000);
  std::ostringstream o; o.precision(17); o << "latitude " << la << " longitude " << lo << " altitude " << h; hx::at(o.str());
  double x, y, z; wgs84ToEcef(la, lo, h, x, y, z);
  const double a = 6378137, bb = 6356752.3142, e2 = 1 - bb * bb / (a * a), N = a / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
  Eigen::Vector3d up(std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la)), no(-std::sin(la) * std::cos(lo), -std::sin(la) * std::sin(lo), std::cos(la)), ea(-std::sin(lo), std::cos(lo), 0);
  Eigen::Vector3d p(N * up(0), N * up(1), N * (1 - e2) * up(2)); p += h * up;
  HX("ecef", (Eigen::Vector3d(x, y, z) - p).norm() < 1e-4, o.str() << ": " << x << " " << y << " " << z << " expected " << p.transpose());
  auto chk = [&](const sm::kinematics::Transformation& T, const Eigen::Vector3d& i, const Eigen::Vector3d& j, const Eigen::Vector3d& k, const char* w) {
    Eigen::Matrix3d M; M << i, j, k;
    HX(w, (T.C() - M).norm() < 1e-9 && (T.t() - p).norm() < 1e-3, o.str() << ": rotation " << T.C() << " expected " << M); };
  chk(enu2ecef(p(0), p(1), p(2), la, lo), ea, no, up, "enu");
  chk(ecef2enu(p(0), p(1), p(2), la, lo).inverse(), ea, no, up, "enu-inverse");
  chk(ned2ecef(p(0), p(1), p(2), la, lo), no, ea, -up, "ned");
  chk(ecef2ned(p(0), p(1), p(2), la, lo).inverse(), no, ea, -up, "ned-inverse");
}
int main() {
  hx::guard(); auto& c = hx::C();
  do for (int k = 0; k < 100; ++k) { path(); marks(); quat(bestQuat_car, "bestQuat (car)"); quat(bestQuat_td, "bestQuat (time-delay)"); quat(bestQuat_ego, "bestQuat (egomotion)"); geo(); } while (c.left());
  return hx::done();
}
