// The example calibrators over a scripted estimator and scripted splines, with the error terms a measurement has to become.
#include "common.h"
#include <algorithm>
#include <map>
#include <new>
#include <Eigen/Dense>
#include <sm/PropertyTree.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include "incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp"
#include "incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp"
#include "incremental_calibration_examples_car/src/algo/OptimizationProblemSpline.cpp"
#include "incremental_calibration_examples_car/src/algo/bestQuat.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp"
#include "incremental_calibration_examples_car/src/error-terms/ErrorTermVelocities.cpp"
#include "incremental_calibration_examples_car/src/algo/CarCalibrator.cpp"
#define OdometryDesignVariables OdometryDesignVariables_td
#define OptimizationProblemSpline OptimizationProblemSpline_td
#define MeasurementsContainer MeasurementsContainer_td
#define PoseMeasurement PoseMeasurement_td
#define bestQuat bestQuat_td
#define ErrorTermPose ErrorTermPose_td
#define ErrorTermWheel ErrorTermWheel_td
#include "incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp"
#include "incremental_calibration_examples_time_delay/src/design-variables/OdometryDesignVariables.cpp"
#include "incremental_calibration_examples_time_delay/src/algo/OptimizationProblemSpline.cpp"
#include "incremental_calibration_examples_time_delay/src/algo/bestQuat.cpp"
#include "incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp"
#include "incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp"
#include "incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp"
#undef OdometryDesignVariables
#undef OptimizationProblemSpline
#undef MeasurementsContainer
#undef PoseMeasurement
#undef bestQuat
#undef ErrorTermPose
#undef ErrorTermWheel
using namespace aslam::calibration; namespace ab = aslam::backend;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX; typedef sm::timing::NsecTime Ns;
// ---- the estimator: what it was given
struct Script { std::function<IncrementalEstimator::ReturnValue(const IncrementalEstimator::BatchSP&, bool)> add; std::vector<double> groups; } script;
namespace aslam { namespace calibration {
IncrementalEstimator::IncrementalEstimator(const sm::PropertyTree& c) { script.groups.push_back(c.getInt("groupId")); }
IncrementalEstimator::~IncrementalEstimator() {}
IncrementalEstimator::ReturnValue IncrementalEstimator::addBatch(const BatchSP& b, bool f) { return script.add(b, f); }
const MX& IncrementalEstimator::getSigma2Theta(bool) const { return _sigma2Theta; }
} }
static hx::Ctx& c() { return hx::C(); }
template <int N> static Eigen::Matrix<double, N, 1> rv(double s = 3) { Eigen::Matrix<double, N, 1> v; for (int i = 0; i < N; ++i) v(i) = c().u(-s, s); return v; }
static M3 rspd() { M3 A; for (int i = 0; i < 9; ++i) A(i) = c().u(-1, 1); return A * A.transpose() + 0.3 * M3::Identity(); }
// ---- the trajectory
struct Traj { V3 a, b, d, e; Eigen::Vector4d q0, q1; V3 o0, o1; } traj;
static void newTraj() { traj.a = rv<3>(50); traj.b = rv<3>(6); traj.d = rv<3>(2); traj.e = rv<3>(1); traj.q0 = rv<4>(1); traj.q1 = rv<4>(0.5); traj.o0 = rv<3>(1); traj.o1 = rv<3>(1); if (c().i(0, 3)) traj.b(0) += 6; }
static double sec(Ns t) { return t / 1e9; }
static V3 pos(Ns t) { return traj.a + traj.b * sec(t) + traj.d * std::sin(sec(t)); }
static V3 vel(Ns t) { return traj.b + traj.d * std::cos(sec(t)); }
static Eigen::Vector4d quat(Ns t) { return (traj.q0 + traj.q1 * std::sin(0.7 * sec(t))).normalized(); }
static V3 omega(Ns t) { return traj.o0 + traj.o1 * std::cos(1.3 * sec(t)); }
static M3 rot(const Eigen::Vector4d& q) { return Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix(); }
struct Car : CarCalibrator { using CarCalibrator::CarCalibrator; typedef CarCalibrator B;
  using B::_translationSpline; using B::_rotationSpline; using B::addPoseErrorTerms; using B::addVelocitiesErrorTerms; using B::addDMIErrorTerms; using B::addFrontWheelsErrorTerms; using B::addRearWheelsErrorTerms; using B::addSteeringErrorTerms; using B::initSplines;
  using B::predictPoses; using B::predictVelocities; using B::predictDMI; using B::predictFrontWheels; using B::predictRearWheels; using B::predictSteering; };
struct Td : Calibrator { using Calibrator::Calibrator; typedef Calibrator B;
  using B::_translationSpline; using B::_rotationSpline; using B::addPoseErrorTerms; using B::addLeftWheelErrorTerms; using B::addRightWheelErrorTerms; using B::initSplines; using B::predictPoses; using B::predictLeftWheel; using B::predictRightWheel; };
struct Knot : ab::DesignVariable {
  void revertUpdateImplementation() override {} void updateImplementation(const double*, int) override {} int minimalDimensionsImplementation() const override { return 1; }
  void getParametersImplementation(MX&) const override {} void setParametersImplementation(const MX&) override {}
};
static std::vector<std::unique_ptr<Knot>> knots;
static std::vector<ab::DesignVariable*> newKnots() { std::vector<ab::DesignVariable*> r; for (int n = c().i(1, 3); n > 0; --n) { knots.emplace_back(new Knot); r.push_back(knots.back().get()); } return r; }
static void scriptSplines() {
  Car::TranslationSpline::maker() = Car::RotationSpline::maker() = newKnots;
  Car::TranslationSpline::script() = [](int d, Ns t, bool) { return VX(d ? vel(t) : pos(t)); };
  Car::RotationSpline::script() = [](int d, Ns t, bool om) { return om ? VX(omega(t)) : VX(quat(t)); };
}
// ---- error terms
struct Term { std::string kind; VX err; MX info; VX extra; };
static std::string show(const Term& t) { std::ostringstream o; o.precision(12); o << t.kind << " error [" << t.err.transpose() << "] weights [" << VX(t.info.diagonal()).transpose() << "] [" << t.extra.transpose() << "]"; return o.str(); }
static bool same(const Term& a, const Term& b) { return a.kind == b.kind && a.err.size() == b.err.size() && (a.err - b.err).norm() <= 1e-6 * (1 + b.err.norm()) && (a.info - b.info).norm() <= 1e-6 * (1 + b.info.norm()) && a.extra.size() == b.extra.size() && (a.extra - b.extra).norm() <= 1e-9 * (1 + b.extra.norm()); }
static double wrap(double d) { return sm::kinematics::angleMod(d); }
static MX blocks(const M3& a, const M3& b) { MX m = MX::Zero(6, 6); m.topLeftCorner(3, 3) = a.inverse(); m.bottomRightCorner(3, 3) = b.inverse(); return m; }
static Term poseTerm(const V3& t, const M3& R, const V3& mt, const V3& mr, const M3& st, const M3& sr) {
  const sm::kinematics::EulerAnglesYawPitchRoll ypr; Term r{"pose", VX(6), blocks(st, sr), VX(12)}; r.err.head(3) = mt - t; r.err.tail(3) = mr - ypr.rotationMatrixToParameters(R); for (int i = 3; i < 6; ++i) r.err(i) = wrap(r.err(i));
  r.extra << mt, mr, t, ypr.rotationMatrixToParameters(R); return r; }
static Term wheelTerm(const V3& v, double k, double m, const V3& s, bool front) {
  Term r{front ? "front wheel" : "wheel", VX(3), s.cwiseInverse().asDiagonal(), VX(1)}; if (front) r.err << m - k * (v(0) < 0 ? -1 : 1) * std::hypot(v(0), v(1)), 0, -v(2); else r.err << m - k * v(0), -v(1), -v(2); r.extra << m; return r; }
/// what an error term of a batch says
static Term read(ab::ErrorTerm* e) {
  e->evaluateError(); Term r; const sm::kinematics::EulerAnglesYawPitchRoll ypr;
#define POSE(T) if (auto p = dynamic_cast<T*>(e)) { struct A : T { static const ab::TransformationExpression& x(const T& t) { return static_cast<const A&>(t)._T; } }; const Eigen::Matrix4d m = A::x(*p).toTransformationMatrix(); \
    r = Term{"pose", p->error(), p->invR(), VX(12)}; r.extra << p->getInput(), V3(m.topRightCorner<3, 1>()), ypr.rotationMatrixToParameters(m.topLeftCorner<3, 3>()); }
  POSE(ErrorTermPose) POSE(ErrorTermPose_td)
#define WHEEL(T) if (auto p = dynamic_cast<T*>(e)) r = Term{p->getFrontEnabled() ? "front wheel" : "wheel", p->error(), p->invR(), VX::Constant(1, p->getMeasurement())};
  WHEEL(ErrorTermWheel) WHEEL(ErrorTermWheel_td)
  if (auto p = dynamic_cast<ErrorTermSteering*>(e)) r = Term{"steering", p->error(), p->invR(), VX::Constant(1, p->getMeasurement())};
  if (auto p = dynamic_cast<ErrorTermVelocities*>(e)) r = Term{"velocities", p->error(), p->invR(), VX()};
  return r;
}
static std::vector<Term> read(ab::OptimizationProblemBase& b) { std::vector<Term> r; for (size_t i = 0; i < b.numErrorTerms(); ++i) r.push_back(read(b.errorTerm(i))); return r; }
static std::string differ(const std::vector<Term>& got, const std::vector<Term>& want) {
  std::ostringstream o; if (got.size() != want.size()) { o << got.size() << " error terms, expected " << want.size(); return o.str(); }
  for (size_t i = 0; i < got.size(); ++i) if (!same(got[i], want[i])) { o << "error term " << i << ": " << show(got[i]) << " expected " << show(want[i]); return o.str(); }
  return ""; }
// ---- the values of the configuration
typedef std::map<std::string, double> Vals;
struct Window { Ns lo, hi; };
static bool within(const Vals& o, const Window& w, Ns t) { return t + (Ns)o.at("bound") <= w.hi && t - (Ns)o.at("bound") >= w.lo; }
struct Motion { V3 v, w; };
static Motion motion(Ns t) { const M3 R = rot(quat(t)); return {R.transpose() * vel(t), -(R.transpose() * omega(t))}; }
static M3 extrinsic(const Vals& o) { const sm::kinematics::EulerAnglesYawPitchRoll ypr; return ypr.parametersToRotationMatrix(V3(o.at("yaw"), o.at("pitch"), o.at("roll"))); }
static V3 lever(const Vals& o) { return V3(o.at("x"), o.at("y"), o.at("z")); }
/// the wheel, at position p of the vehicle, at time t
static V3 at(const Motion& m, const V3& p) { return m.v + m.w.cross(p); }
/// a pose of the sensor at time t
static Term poseAt(const Vals& o, Ns t, const V3& mt, const V3& mr, const M3& st, const M3& sr) { const M3 R = rot(quat(t)); return poseTerm(pos(t) + R * lever(o), R * extrinsic(o), mt, mr, st, sr); }
template <class T> static std::vector<Term> operator+(std::vector<Term> a, const T& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static double sigma(const Vals& o, const char* k) { return o.at(k); }
// --- car: the error terms of one measurement
static std::vector<Term> carPose(const Vals& o, const Window&, Ns t, const PoseMeasurement& m) { return {poseAt(o, t, m.m_r_mr, m.m_R_r, m.sigma2_m_r_mr, m.sigma2_m_R_r)}; }
static std::vector<Term> carVel(const Vals& o, const Window& w, Ns t, const VelocitiesMeasurement& m) {
  if (t < w.lo || t > w.hi) return {};
  const Motion x = motion(t); const M3 R = extrinsic(o); Term r{"velocities", VX(6), blocks(m.sigma2_r_v_mr, m.sigma2_r_om_mr), VX()};
  r.err << m.r_v_mr - R.transpose() * at(x, lever(o)), m.r_om_mr - R.transpose() * x.w; return {r}; }
static V3 slip(const Vals& o, const char* k) { return V3(sigma(o, k), sigma(o, "vy"), sigma(o, "vz")); }
static std::vector<Term> carDmi(const Vals& o, const Window& w, Ns t, const DMIMeasurement& m) {
  t += (Ns)o.at("t_dmi"); if (!within(o, w, t)) return {};
  return {wheelTerm(at(motion(t), V3(0, o.at("e_r"), 0)), o.at("k_dmi"), m.wheelSpeed, slip(o, "dmi"), false)}; }
static std::vector<Term> carWheels(const Vals& o, const Window& w, Ns t, const WheelSpeedsMeasurement& m, bool front) {
  if (m.left < o.at("cutoff") || m.right < o.at("cutoff")) return {};
  t += (Ns)o.at(front ? "t_f" : "t_r"); if (!within(o, w, t)) return {};
  const Motion x = motion(t); if (x.v(0) < 0) return {};
  const double l = front ? o.at("L") : 0, e = o.at(front ? "e_f" : "e_r");
  return {wheelTerm(at(x, V3(l, e, 0)), o.at(front ? "k_fl" : "k_rl"), m.left, slip(o, front ? "flw" : "rlw"), front), wheelTerm(at(x, V3(l, -e, 0)), o.at(front ? "k_fr" : "k_rr"), m.right, slip(o, front ? "frw" : "rrw"), front)}; }
static std::vector<Term> carSteer(const Vals& o, const Window& w, Ns t, const SteeringMeasurement& m) {
  t += (Ns)o.at("t_s"); if (!within(o, w, t)) return {};
  const V3 v = at(motion(t), V3(o.at("L"), 0, 0)); if (std::fabs(v(0)) < o.at("tol")) return {};
  const double x = m.value; Term r{"steering", VX(1), MX::Constant(1, 1, 1 / o.at("st")), VX::Constant(1, x)};
  r.err << wrap(o.at("a0") + o.at("a1") * x + o.at("a2") * x * x + o.at("a3") * x * x * x - std::atan2(v(1), v(0))); return {r}; }
// --- time delay
static std::vector<Term> tdPose(const Vals& o, const Window&, Ns t, const PoseMeasurement_td& m) { return {poseAt(o, t, m.w_r_wp, m.w_R_p, m.sigma2_w_r_wp, m.sigma2_w_R_p)}; }
static std::vector<Term> tdWheel(const Vals& o, const Window& w, Ns t, const WheelSpeedMeasurement& m, bool left) {
  t += (Ns)o.at(left ? "t_l" : "t_r"); if (!within(o, w, t)) return {};
  return {wheelTerm(at(motion(t), V3(0, left ? o.at("b") : -o.at("b"), 0)), o.at(left ? "k_l" : "k_r"), m.value, slip(o, left ? "lw" : "rw"), false)}; }
// ---- configurations
static double ns() { return c().i(0, 2) ? c().i(-400, 400) * 1e5 : 0; }
static void common(sm::PropertyTree& t, Vals& o, double window) {
  auto& v = t.values; v["estimator/groupId"] = 1; v["windowDuration"] = window; v["verbose"] = 0; v["splines/transSplineLambda"] = c().u(0, 1); v["splines/rotSplineLambda"] = c().u(0, 1); v["splines/splineKnotsPerSecond"] = c().i(1, 20); v["splines/transSplineOrder"] = c().i(2, 6); v["splines/rotSplineOrder"] = c().i(2, 6);
  o["window"] = window; for (auto k : {"transSplineLambda", "rotSplineLambda", "splineKnotsPerSecond", "transSplineOrder", "rotSplineOrder"}) o[k] = v[std::string("splines/") + k];
  const std::string E = "odometry/extrinsics/"; for (auto k : {"x", "y", "z"}) v[E + "translation/" + k] = o[k] = c().u(-2, 2); v[E + "rotation/yaw"] = o["yaw"] = c().u(-3, 3); v[E + "rotation/pitch"] = o["pitch"] = c().u(-1.2, 1.2); v[E + "rotation/roll"] = o["roll"] = c().u(-3, 3);
  v["odometry/constraints/noise/vyVariance"] = o["vy"] = c().u(0.1, 2); v["odometry/constraints/noise/vzVariance"] = o["vz"] = c().u(0.1, 2);
}
static void carConfig(sm::PropertyTree& t, Vals& o, double window) {
  common(t, o, window); auto& v = t.values; const std::string D = "odometry/timeDelays/", S = "odometry/sensors/", I = "odometry/intrinsics/";
  auto put = [&](const std::string& key, const char* name, double x) { v[key] = o[name] = x; };
  v["usePose"] = o["usePose"] = c().i(0, 3) != 0; v["useVelocities"] = o["useVelocities"] = c().coin();
  put(D + "delayBound", "bound", c().i(0, 3) ? c().i(0, 100) * 1e6 : 0); v[D + "active"] = 1; put(D + "rearWheels", "t_r", ns()); put(D + "frontWheels", "t_f", ns()); put(D + "steering", "t_s", ns()); put(D + "dmi", "t_dmi", ns());
  put(S + "linearVelocityTolerance", "tol", c().i(0, 4)); put(S + "wheelSpeedSensorCutoff", "cutoff", c().i(0, 400)); v[S + "dmi/noise/dmiPercentError"] = 0.1; put(S + "dmi/noise/dmiVariance", "dmi", c().u(0.1, 9)); put(S + "st/noise/steeringVariance", "st", c().u(0.1, 9));
  for (auto k : {"fws/noise/flw", "fws/noise/frw", "rws/noise/rlw", "rws/noise/rrw"}) { v[S + k + "PercentError"] = 0.1; put(S + k + "Variance", k + 10, c().u(0.1, 9)); }
  put(I + "halfRearTrack", "e_r", c().u(0.2, 2)); put(I + "halfFrontTrack", "e_f", c().u(0.2, 2)); put(I + "wheelBase", "L", c().u(0.5, 4)); put(I + "steeringCoefficient0", "a0", c().u(-1, 1)); put(I + "steeringCoefficient1", "a1", c().u(-1, 1)); put(I + "steeringCoefficient2", "a2", c().u(-1, 1)); put(I + "steeringCoefficient3", "a3", c().u(-1, 1));
  put(I + "rlwCoefficient", "k_rl", c().u(1, 5)); put(I + "rrwCoefficient", "k_rr", c().u(1, 5)); put(I + "flwCoefficient", "k_fl", c().u(1, 5)); put(I + "frwCoefficient", "k_fr", c().u(1, 5)); put(I + "dmiCoefficient", "k_dmi", c().u(1, 5));
}
static void tdConfig(sm::PropertyTree& t, Vals& o, double window) {
  common(t, o, window); auto& v = t.values; const std::string I = "odometry/intrinsics/"; auto put = [&](const std::string& key, const char* name, double x) { v[key] = o[name] = x; };
  put("delayBound", "bound", c().i(0, 3) ? c().i(0, 100) * 1e6 : 0); put("odometry/sensors/wss/noise/lwVariance", "lw", c().u(0.1, 9)); put("odometry/sensors/wss/noise/rwVariance", "rw", c().u(0.1, 9));
  v[I + "timeDelaysActive"] = v["odometry/extrinsics/translation/active"] = v["odometry/extrinsics/rotation/active"] = 1; put(I + "lwTimeDelay", "t_l", ns()); put(I + "rwTimeDelay", "t_r", ns()); put(I + "halfWheelBase", "b", c().u(0.2, 2)); put(I + "lwCoefficient", "k_l", c().u(1, 5)); put(I + "rwCoefficient", "k_r", c().u(1, 5));
}
static PoseMeasurement carPoseM() { PoseMeasurement m; m.m_r_mr = rv<3>(50); m.m_R_r = rv<3>(1.4); m.sigma2_m_r_mr = rspd(); m.sigma2_m_R_r = rspd(); return m; }
static VelocitiesMeasurement carVelM() { VelocitiesMeasurement m; m.r_v_mr = rv<3>(9); m.r_om_mr = rv<3>(2); m.sigma2_r_v_mr = rspd(); m.sigma2_r_om_mr = rspd(); return m; }
static WheelSpeedsMeasurement carWheelM() { WheelSpeedsMeasurement m; m.left = c().u(0, 900); m.right = c().u(0, 900); return m; }
static PoseMeasurement_td tdPoseM() { PoseMeasurement_td m; m.w_r_wp = rv<3>(50); m.w_R_p = rv<3>(1.4); m.sigma2_w_r_wp = rspd(); m.sigma2_w_R_p = rspd(); return m; }
template <class M> static std::string times(const std::vector<std::pair<Ns, M>>& v) { std::ostringstream o; o << "{"; for (auto& x : v) o << " " << x.first; o << " }"; return o.str(); }
static std::string values(const Vals& o) { std::ostringstream s; s.precision(17); for (auto& kv : o) s << " " << kv.first << "=" << kv.second; return s.str(); }
