#include "common.h"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "aslam/calibration/geometry/Transformation.h"
using namespace aslam::calibration;
template <int N> struct Pose;
template <> struct Pose<2> {
  double x, y, w;
  void rnd(hx::Ctx& c, double s) { x = c.u(-s, s); y = c.u(-s, s); w = c.u(-7, 7); if (!c.i(0, 9)) w = 0; if (!c.i(0, 9)) x = y = 0; if (!c.i(0, 9)) w = (c.coin() ? 1 : -1) * M_PI; }
  Eigen::Matrix3d M() const { Eigen::Matrix3d m = Eigen::Matrix3d::Identity(); m.topLeftCorner<2, 2>() = Eigen::Rotation2Dd(w).toRotationMatrix(); m(0, 2) = x; m(1, 2) = y; return m; }
  Transformation<double, 2> make() const { return Transformation<double, 2>(x, y, w); }
  void set(Transformation<double, 2>& t) const { t.setTransformation(x, y, w); }
  std::string s() const { std::ostringstream o; o.precision(17); o << "(" << x << "," << y << "," << w << ")"; return o.str(); }
};
template <> struct Pose<3> {
  double x, y, z, r, p, w;
  void rnd(hx::Ctx& c, double s) { x = c.u(-s, s); y = c.u(-s, s); z = c.u(-s, s); r = c.u(-7, 7); p = c.u(-7, 7); w = c.u(-7, 7);
    if (!c.i(0, 9)) r = 0; if (!c.i(0, 9)) p = 0; if (!c.i(0, 9)) w = 0; if (!c.i(0, 9)) p = M_PI / 2; if (!c.i(0, 9)) x = y = 0; }
  Eigen::Matrix4d M() const { Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.topLeftCorner<3, 3>() = (Eigen::AngleAxisd(w, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX())).toRotationMatrix();
    m(0, 3) = x; m(1, 3) = y; m(2, 3) = z; return m; }
  Transformation<double, 3> make() const { return Transformation<double, 3>(x, y, z, r, p, w); }
  void set(Transformation<double, 3>& t) const { t.setTransformation(x, y, z, r, p, w); }
  std::string s() const { std::ostringstream o; o.precision(17); o << "(" << x << "," << y << "," << z << "," << r << "," << p << "," << w << ")"; return o.str(); }
};
template <class A, class B> static bool eq(const A& a, const B& b, double sc) { return (a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + sc); }
template <int N> static void hist() {
  auto& c = hx::C();
  typedef Transformation<double, N> T; typedef Eigen::Matrix<double, N + 1, N + 1> M; typedef Eigen::Matrix<double, N, 1> V;
  double s = std::pow(10.0, c.i(-2, 4));
  Pose<N> p; p.rnd(c, s);
  std::string log = (N == 2 ? "2d " : "3d ") + p.s();
  hx::at(log);
  T t = p.make();
  M ref = p.M();
  double sc = s;
  for (int k = 0; k < 6; ++k) {
    int op = c.i(0, 7);
    if (op == 0) { p.rnd(c, s); log += " setPose" + p.s(); hx::at(log); p.set(t); ref = p.M(); }
    if (op == 1) { p.rnd(c, s); log += " setMatrix" + p.s(); hx::at(log); t.setTransformationMatrix(p.M()); ref = p.M(); }
    if (op == 2) { p.rnd(c, s); log += " ctorMatrix" + p.s(); hx::at(log); t = T(p.M()); ref = p.M(); }
    if (op == 3) { log += " inverse"; hx::at(log); const T& r = t.inverse(); HX("inverse-returns-self", &r == &t, log); ref = M(ref.inverse()); }
    if (op == 4) { log += " =getInverse"; hx::at(log); M b = t.getTransformationMatrix(); T u = t.getInverse(); HX("getInverse-const", t.getTransformationMatrix() == b, log);
      HX("get-inverse", eq(u.getTransformationMatrix() * b, M::Identity(), sc), log); if (c.coin()) { t = u; ref = M(ref.inverse()); } }
    if (op == 5) { log += " copy"; hx::at(log); T u(t); t = u; T& v = t; t = v; }
    if (op == 6) { log += " inverse-twice"; hx::at(log); M b = t.getTransformationMatrix(); t.inverse(); t.inverse(); HX("inverse-twice", eq(t.getTransformationMatrix(), b, sc), log); }
    if (op == 7) { log += " inv-of-copy"; hx::at(log); T u(t); u.inverse(); T w = u.getInverse(); HX("inverse-of-copy", eq(w.getTransformationMatrix(), ref, sc), log); }
    HX("matrix", eq(t.getTransformationMatrix(), ref, sc), log << " got\n" << t.getTransformationMatrix() << "\nexpected\n" << ref);
    V a = V::Random() * s, b = V::Random() * s, d1, d2;
    t.transform(a, d1); d2 = t(b);
    V ea = ref.template topLeftCorner<N, N>() * a + ref.template topRightCorner<N, 1>();
    V eb = ref.template topLeftCorner<N, N>() * b + ref.template topRightCorner<N, 1>();
    HX("transform", eq(d1, ea, sc), log); HX("apply", eq(d2, eb, sc), log);
    V al = a; t.transform(al, al); HX("transform-in-place", eq(al, ea, sc), log);
    HX("distance", hx::close((d1 - d2).norm(), (a - b).norm(), 1e-8), log);
    V back = t.getInverse()(d1); HX("back", eq(back, a, 10 * sc), log);
  }
}
int main() {
  hx::guard();
  auto& c = hx::C();
  do for (int it = 0; it < 300; ++it) { hist<2>(); hist<3>(); } while (c.left());
  return hx::done();
}
