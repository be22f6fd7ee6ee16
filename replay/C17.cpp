#include "common.h"
#include <Eigen/Dense>
#include "incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp"
#include "incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermVelocities.cpp"
#define ErrorTermPose ErrorTermPoseTd
#define ErrorTermWheel ErrorTermWheelTd
#include "incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp"
#include "incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp"
#undef ErrorTermPose
#undef ErrorTermWheel
using namespace aslam::calibration; namespace ab = aslam::backend;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static hx::Ctx& c() { return hx::C(); }
template <int N> static Eigen::Matrix<double, N, N> spd() { Eigen::Matrix<double, N, N> A = Eigen::Matrix<double, N, N>::Zero(); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A(i, j) = c().u(-1, 1); return (A * A.transpose() + 0.5 * Eigen::Matrix<double, N, N>::Identity()) * std::pow(10.0, c().i(-2, 2)); }
template <int N> static Eigen::Matrix<double, N, 1> vec(double s = 3) { Eigen::Matrix<double, N, 1> v; for (int i = 0; i < N; ++i) v(i) = c().u(-s, s); return v; }
static bool near(const M& a, const M& b, double tol = 1e-5) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).norm() <= tol * (1 + b.norm())); }
template <class F> static std::string S(const F& m) { std::ostringstream o; o.precision(17); o << m; return o.str(); }
static double wrap(double d) { return std::remainder(d, 2 * M_PI); }
// derivative of the error of e with respect to n values reachable through get/set
template <class E, class G, class P> static M numeric(E& e, int n, G get, P put, const std::vector<int>& angles) {
  M J(e.dimension(), n); V x = get();
  for (int k = 0; k < n; ++k) { const double h = 1e-6 * (1 + std::fabs(x(k))); V y = x;
    y(k) = x(k) + h; put(y); e.evaluateError(); V a = e.vsError(); y(k) = x(k) - h; put(y); e.evaluateError(); V b = e.vsError(); put(x);
    V d = a - b; for (int i : angles) d(i) = wrap(d(i)); J.col(k) = d / (2 * h); }
  e.evaluateError(); return J;
}
template <class E, int N> static void dvJ(E& e, VectorDesignVariable<N>& d, const std::vector<int>& ang, const std::string& o) {
  M J = numeric(e, N, [&] { return V(d.getValue()); }, [&](const V& x) { d.setValue(x); }, ang);
  ab::JacobianContainer jc(e.dimension()); e.evaluateJacobians(jc);
  HX("jacobian", jc.has(&d) && near(jc.Jacobian(&d), J), o << ": reported " << (jc.has(&d) ? S(jc.Jacobian(&d)) : "nothing") << " derivative " << S(J)); 
}
template <class E, class N> static void exJ(E& e, N& n, const std::vector<int>& ang, const std::string& o) {
  M J = numeric(e, 3, [&] { return V(n.value); }, [&](const V& x) { n.value = x; }, ang);
  const int b = n.times; ab::JacobianContainer jc(e.dimension()); e.evaluateJacobians(jc);
  HX("jacobian", n.times == b + 1 && near(n.applied, J), o << ": handed on " << S(n.applied) << " derivative " << S(J));
}
template <class E> static void exS(E& e, ab::ScalarExpressionNode& n, const std::string& o) {
  M J = numeric(e, 1, [&] { return V(V::Constant(1, n.value)); }, [&](const V& x) { n.value = x(0); }, {});
  const int b = n.times; ab::JacobianContainer jc(e.dimension()); e.evaluateJacobians(jc);
  HX("jacobian", n.times == b + 1 && near(n.applied, J), o << ": handed on " << S(n.applied) << " derivative " << S(J));
}
template <class E> static void err(E& e, const V& x, const std::string& o) {
  const double r = e.evaluateError(); V d = e.vsError();
  HX("error", near(d, x, 1e-9), o << ": error " << d.transpose() << " expected " << x.transpose());
  HX("chi-squared", hx::close(r, d.dot(M(e.invR()) * d), 1e-8) || std::fabs(r) < 1e-12, o << ": " << r);
}
template <class E, class C> static void wgt(const E& e, const C& cov, const std::string& o) {
  HX("weight", near(M(e.invR()) * M(cov), M::Identity(cov.rows(), cov.cols()), 1e-6), o << ": weight " << S(e.invR()) << " covariance " << S(cov));
  E f(e); HX("copy-weight", near(f.invR(), e.invR(), 1e-12), o << ": weight of a copy " << S(f.invR()));
}
template <class E, class A> static void asg(E& e, const A& other, const std::string& o) { E f(other); f = e; HX("assign-weight", near(f.invR(), e.invR(), 1e-12), o << ": weight after assignment " << S(f.invR()) << " expected " << S(e.invR())); E& g = f; f = g; HX("self-assign", near(f.invR(), e.invR(), 1e-12), o); }
static void lrf() {
  VectorDesignVariable<3> a(vec<3>()), b(vec<3>()), th(vec<3>(1)); VectorDesignVariable<2> l(vec<2>(9));
  { Eigen::Matrix3d Q = spd<3>(); double T = c().u(0.05, 2) * (c().i(0, 5) ? 1 : -1); Eigen::Vector3d u = vec<3>();
    ErrorTermMotion e(&a, &b, T, u, Q), e2(&b, &a, T, u, spd<3>());
    std::ostringstream s; s.precision(17); s << "ErrorTermMotion x0=" << a.getValue().transpose() << " x1=" << b.getValue().transpose() << " T=" << T << " u=" << u.transpose(); hx::at(s.str());
    auto full = [&] { const double t = a.getValue()(2); Eigen::Matrix3d R; R << std::cos(t), std::sin(t), 0, -std::sin(t), std::cos(t), 0, 0, 0, 1; err(e, u - R * (b.getValue() - a.getValue()) / T, s.str()); wgt(e, Q, s.str()); dvJ(e, a, {}, s.str()); dvJ(e, b, {}, s.str()); asg(e, e2, s.str()); };
    full(); Q = spd<3>(); e.setCovariance(Q); T = c().u(0.05, 2); e.setTimestep(T); u = vec<3>(); e.setInput(u); s << " then setCovariance, setTimestep(" << T << "), setInput(" << u.transpose() << ")"; full();
    HX("getters", e.getTimestep() == T && e.getInput() == u && e.getCovariance() == Q, s.str()); }
  { Eigen::Matrix2d R = spd<2>(); double r = c().u(0, 9), be = c().u(-3, 3); ErrorTermObservation e(&a, &l, &th, r, be, R), e2(&b, &l, &th, r, be, spd<2>());
    std::ostringstream s; s.precision(17); s << "ErrorTermObservation x=" << a.getValue().transpose() << " l=" << l.getValue().transpose() << " Theta=" << th.getValue().transpose() << " r=" << r << " b=" << be; hx::at(s.str());
    const double t = a.getValue()(2), cx = std::cos(t), sx = std::sin(t); const double A = l.getValue()(0) - a.getValue()(0) - th.getValue()(0) * cx + th.getValue()(1) * sx, B = l.getValue()(1) - a.getValue()(1) - th.getValue()(0) * sx - th.getValue()(1) * cx;
    if (A * A + B * B < 0.01) return;
    auto full = [&] { err(e, Eigen::Vector2d(r - std::sqrt(A * A + B * B), sm::kinematics::angleMod(be - (std::atan2(B, A) - t - th.getValue()(2)))), s.str()); wgt(e, R, s.str()); dvJ(e, a, {1}, s.str()); dvJ(e, l, {1}, s.str()); dvJ(e, th, {1}, s.str()); asg(e, e2, s.str()); };
    full(); R = spd<2>(); e.setCovariance(R); r = c().u(0, 9); e.setRange(r); be = c().u(-3, 3); e.setBearing(be); s << " then setCovariance, setRange(" << r << "), setBearing(" << be << ")"; full();
    HX("getters", e.getRange() == r && e.getBearing() == be && e.getCovariance() == R, s.str()); }
}
template <class N> static std::shared_ptr<N> node() { return std::make_shared<N>(); }
template <class W> static void wheel(const char* nm) {
  auto v = node<ab::EuclideanExpressionNode>(); auto k = node<ab::ScalarExpressionNode>(); v->value = vec<3>(9); if (std::fabs(v->value(0)) < 0.1) v->value(0) = c().coin() ? 0.5 : -0.5; if (!c().i(0, 5)) v->value(1) = 0; k->value = c().u(0.5, 2);
  VectorDesignVariable<3> dv, dk; v->dvs.insert(&dv); k->dvs.insert(&dk);
  double m = c().u(-9, 9); bool front = c().coin(); Eigen::Matrix3d Q = spd<3>();
  W e(ab::EuclideanExpression(v), ab::ScalarExpression(k), m, Q, front), e2(ab::EuclideanExpression(v), ab::ScalarExpression(k), m, spd<3>(), !front);
  std::ostringstream s; s.precision(17); s << nm << " v=" << v->value.transpose() << " k=" << k->value << " measurement=" << m << " front=" << front; hx::at(s.str());
  HX("design-variables", e.numDesignVariables() == 2, s.str());
  auto full = [&] { const double sp = front ? (v->value(0) < 0 ? -1 : 1) * std::hypot(v->value(0), v->value(1)) : v->value(0);
    err(e, Eigen::Vector3d(m - k->value * sp, front ? 0 : -v->value(1), -v->value(2)), s.str()); wgt(e, Q, s.str()); exJ(e, *v, {}, s.str()); exS(e, *k, s.str()); asg(e, e2, s.str()); };
  full(); Q = spd<3>(); e.setCovariance(Q); m = c().u(-9, 9); e.setMeasurement(m); front = c().coin(); e.setFrontEnabled(front); s << " then setCovariance, setMeasurement(" << m << "), setFrontEnabled(" << front << ")"; full();
  HX("getters", e.getMeasurement() == m && e.getFrontEnabled() == front && e.getCovariance() == Q, s.str());
}
static void steering() {
  auto v = node<ab::EuclideanExpressionNode>(); v->value = vec<3>(9); if (std::fabs(v->value(0)) < 0.1) v->value(0) = c().coin() ? 0.5 : -0.5; VectorDesignVariable<4> p(vec<4>(1)); VectorDesignVariable<3> dv; v->dvs.insert(&dv);
  double m = c().u(-2, 2), q = std::pow(10.0, c().u(-3, 3)); ErrorTermSteering e(ab::EuclideanExpression(v), m, q, &p), e2(ab::EuclideanExpression(v), m, 2 * q, &p);
  std::ostringstream s; s.precision(17); s << "ErrorTermSteering v=" << v->value.transpose() << " params=" << p.getValue().transpose() << " measurement=" << m << " variance=" << q; hx::at(s.str());
  HX("design-variables", e.numDesignVariables() == 2, s.str());
  auto full = [&] { auto a = p.getValue(); err(e, V::Constant(1, sm::kinematics::angleMod(a(0) + m * (a(1) + m * (a(2) + m * a(3))) - std::atan2(v->value(1), v->value(0)))), s.str()); wgt(e, Eigen::Matrix<double, 1, 1>::Constant(q).eval(), s.str()); dvJ(e, p, {0}, s.str()); exJ(e, *v, {0}, s.str()); asg(e, e2, s.str()); };
  full(); q *= 3; e.setVariance(q); m = c().u(-2, 2); e.setMeasurement(m); s << " then setVariance(" << q << "), setMeasurement(" << m << ")"; full();
  HX("getters", e.getMeasurement() == m && e.getVariance() == q, s.str());
}
static void velocities() {
  auto v = node<ab::EuclideanExpressionNode>(), w = node<ab::EuclideanExpressionNode>(); v->value = vec<3>(9); w->value = vec<3>(2); VectorDesignVariable<3> d1, d2; v->dvs.insert(&d1); w->dvs.insert(&d2);
  Eigen::Vector3d a = vec<3>(9), b = vec<3>(2); Eigen::Matrix3d P = spd<3>(), Q = spd<3>(); Eigen::Matrix<double, 6, 6> C = Eigen::Matrix<double, 6, 6>::Zero(); C.topLeftCorner<3, 3>() = P; C.bottomRightCorner<3, 3>() = Q;
  ErrorTermVelocities e(ab::EuclideanExpression(v), ab::EuclideanExpression(w), a, b, P, Q), e2(ab::EuclideanExpression(w), ab::EuclideanExpression(v), a, b, Q, P);
  std::ostringstream s; s.precision(17); s << "ErrorTermVelocities v=" << v->value.transpose() << " om=" << w->value.transpose() << " measured " << a.transpose() << " " << b.transpose(); hx::at(s.str());
  HX("design-variables", e.numDesignVariables() == 2, s.str());
  V x(6); x << a - v->value, b - w->value; err(e, x, s.str()); wgt(e, C, s.str()); exJ(e, *v, {}, s.str()); exJ(e, *w, {}, s.str()); asg(e, e2, s.str());
}
template <class E> static void pose(const char* nm) {
  sm::kinematics::EulerAnglesYawPitchRoll ypr; auto n = node<ab::TransformationExpressionNode>(); VectorDesignVariable<3> d1; n->dvs.insert(&d1);
  Eigen::Vector3d a(c().u(-3, 3), c().u(-1.2, 1.2), c().u(-3, 3)), t = vec<3>(9); n->value = Eigen::Matrix4d::Identity(); n->value.topLeftCorner<3, 3>() = ypr.parametersToRotationMatrix(a); n->value.topRightCorner<3, 1>() = t;
  Eigen::Matrix<double, 6, 1> m = vec<6>(3); Eigen::Matrix<double, 6, 6> Q = spd<6>(); ab::TransformationExpression T(n);
  E e(T, m, Q), e2(T, m, spd<6>());
  std::ostringstream s; s.precision(17); s << nm << " t=" << t.transpose() << " ypr=" << a.transpose() << " measured " << m.transpose(); hx::at(s.str());
  HX("design-variables", e.numDesignVariables() == 1, s.str());
  auto full = [&] { V x(6); x.head<3>() = m.template head<3>() - t; for (int i = 0; i < 3; ++i) x(3 + i) = sm::kinematics::angleMod(m(3 + i) - a(i)); err(e, x, s.str()); wgt(e, Q, s.str()); asg(e, e2, s.str());
    M J = M::Identity(6, 6); J.topRightCorner(3, 3) = sm::kinematics::crossMx(t); J.bottomRightCorner(3, 3) = ypr.parametersToSMatrix(a).inverse();
    const int k = n->times; ab::JacobianContainer jc(6); e.evaluateJacobians(jc); HX("jacobian", n->times == k + 1 && near(n->applied, -J, 1e-7), s.str() << ": handed on " << S(n->applied) << " expected " << S(-J)); };
  full(); Q = spd<6>(); e.setCovariance(Q); m = vec<6>(3); e.setInput(m); s << " then setCovariance, setInput(" << m.transpose() << ")"; full();
  HX("getters", e.getInput() == m && e.getCovariance() == Q, s.str());
}
int main() {
  hx::guard();
  do for (int k = 0; k < 60; ++k) { lrf(); wheel<ErrorTermWheel>("ErrorTermWheel (car)"); wheel<ErrorTermWheelTd>("ErrorTermWheel (time-delay)"); steering(); velocities(); pose<ErrorTermPose>("ErrorTermPose (car)"); pose<ErrorTermPoseTd>("ErrorTermPose (time-delay)"); } while (c().left());
  return hx::done();
}
