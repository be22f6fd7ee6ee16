#include "common.h"
#include <sm/PropertyTree.hpp>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <new>
#include <cstring>
#include "incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp"
#define OdometryDesignVariables OdometryDesignVariables_car
#define OptimizationProblemSpline OptimizationProblemSpline_car
#include "incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp"
#include "incremental_calibration_examples_car/src/algo/OptimizationProblemSpline.cpp"
#undef OdometryDesignVariables
#undef OptimizationProblemSpline
#define OdometryDesignVariables OdometryDesignVariables_td
#define OptimizationProblemSpline OptimizationProblemSpline_td
#define CalibratorOptions CalibratorOptions_td
#define TrajectoryParams TrajectoryParams_td
#include "incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp"
#include "incremental_calibration_examples_time_delay/src/design-variables/OdometryDesignVariables.cpp"
#include "incremental_calibration_examples_time_delay/src/algo/OptimizationProblemSpline.cpp"
#include "incremental_calibration_examples_time_delay/src/simulation/TrajectoryParams.cpp"
#include "incremental_calibration_examples_time_delay/src/simulation/SimulationParams.cpp"
#undef OdometryDesignVariables
#undef OptimizationProblemSpline
#undef CalibratorOptions
#undef TrajectoryParams
#define OptimizationProblemSpline OptimizationProblemSpline_ego
#define CalibratorOptions CalibratorOptions_ego
#define TrajectoryParams TrajectoryParams_ego
#include "incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp"
#include "incremental_calibration_examples_egomotion_sensors/src/algo/OptimizationProblemSpline.cpp"
#include "incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp"
#include "incremental_calibration_examples_egomotion_sensors/src/design-variables/DesignVariables.cpp"
#undef OptimizationProblemSpline
#undef CalibratorOptions
#undef TrajectoryParams
using namespace aslam::calibration;
typedef std::map<std::string, double> Vals;
static sm::PropertyTree tree(const std::vector<std::string>& ks, const Vals& fixed = Vals()) {
  sm::PropertyTree t; auto& c = hx::C();
  for (auto& k : ks) t.values[k] = c.i(0, 4) ? c.i(1, 65535) : c.i(0, 1);
  for (auto& f : fixed) t.values[f.first] = f.second;
  return t;
}
// an object built over painted memory, so that members which are never assigned show
template <class T> struct Painted {
  alignas(T) char mem[sizeof(T)]; T* p = nullptr;
  template <class... A> explicit Painted(const A&... a) { std::memset(mem, hx::C().coin() ? 0xA5 : 0x5A, sizeof mem); p = new (mem) T(a...); }
  ~Painted() { p->~T(); }
  T& operator*() { return *p; } T* operator->() { return p; }
};
struct Field { std::string key; std::function<double()> got; double def; bool optional; };
#define FLD(o, f, key, def) Field{key, [&] { return (double)(o)->f; }, def, false}
#define OPT(o, f, key, def) Field{key, [&] { return (double)(o)->f; }, def, true}
template <class T> using Maker = std::function<std::vector<Field>(Painted<T>&)>;
template <class T> static void options(const char* w, Maker<T> fields, const std::vector<std::string>& more = {}) {
  auto& c = hx::C();
  { Painted<T> o; hx::at(std::string(w) + " default"); int n = 0;
    for (auto& f : fields(o)) { ++n; if (std::isnan(f.def)) continue; std::ostringstream m; m << w << "::default: " << f.key << " member " << f.got() << " expected " << f.def; HX(std::string(w) + "-default", f.got() == f.def, m.str()); } }
  std::vector<std::string> ks = more, opt; { Painted<T> o; for (auto& f : fields(o)) (f.optional ? opt : ks).push_back(f.key); }
  auto t = tree(ks); for (auto& k : opt) if (c.coin()) t.values[k] = c.i(1, 9);
  for (auto k : {"verbose", "usePose", "useVelocities"}) if (t.values.count(k)) t.values[k] = c.coin();
  t.svalues["type"] = "sine";
  std::string gone; if (!c.i(0, 3)) { gone = ks[c.i(0, (int)ks.size() - 1)]; t.values.erase(gone); }
  std::ostringstream in; in << w << " from"; for (auto& kv : t.values) in << " " << kv.first << "=" << kv.second; if (gone.size()) in << " (without " << gone << ")"; hx::at(in.str());
  try {
    Painted<T> o(t);
    HX(std::string(w) + "-missing", gone.empty(), in.str() << ": accepted");
    if (!gone.empty()) return;
    for (auto& f : fields(o)) {
      const bool has = t.values.count(f.key); const double e = has ? t.values[f.key] : f.def;
      HX(std::string(w) + "-entry", f.got() == e, in.str() << ": member of " << f.key << " is " << f.got() << " expected " << e);
    }
  } catch (const std::exception& x) { HX(std::string(w) + "-rejected", !gone.empty(), in.str() << ": " << x.what()); }
}
#define SPL(o) FLD(o, transSplineLambda, "splines/transSplineLambda", 0), FLD(o, rotSplineLambda, "splines/rotSplineLambda", 0), FLD(o, splineKnotsPerSecond, "splines/splineKnotsPerSecond", 5), OPT(o, transSplineOrder, "splines/transSplineOrder", 4), FLD(o, rotSplineOrder, "splines/rotSplineOrder", 4)
#define S "odometry/sensors/"
static std::vector<Field> car(Painted<CarCalibratorOptions>& o) {
  return {FLD(o, windowDuration, "windowDuration", 10), FLD(o, verbose, "verbose", 1), SPL(o), FLD(o, usePose, "usePose", 1), FLD(o, useVelocities, "useVelocities", 0), FLD(o, delayBound, "odometry/timeDelays/delayBound", 50000000),
    FLD(o, linearVelocityTolerance, S "linearVelocityTolerance", 1), FLD(o, dmiPercentError, S "dmi/noise/dmiPercentError", 0.1), FLD(o, dmiVariance, S "dmi/noise/dmiVariance", 1), FLD(o, steeringVariance, S "st/noise/steeringVariance", 1e-6), FLD(o, wheelSpeedSensorCutoff, S "wheelSpeedSensorCutoff", 350),
    FLD(o, flwPercentError, S "fws/noise/flwPercentError", 0.1), FLD(o, flwVariance, S "fws/noise/flwVariance", 1e-6), FLD(o, frwPercentError, S "fws/noise/frwPercentError", 0.1), FLD(o, frwVariance, S "fws/noise/frwVariance", 1e-6),
    FLD(o, rlwPercentError, S "rws/noise/rlwPercentError", 0.1), FLD(o, rlwVariance, S "rws/noise/rlwVariance", 1e-6), FLD(o, rrwPercentError, S "rws/noise/rrwPercentError", 0.1), FLD(o, rrwVariance, S "rws/noise/rrwVariance", 1e-6),
    FLD(o, vyVariance, "odometry/constraints/noise/vyVariance", 0.1), FLD(o, vzVariance, "odometry/constraints/noise/vzVariance", 0.1)};
}
static std::vector<Field> td(Painted<CalibratorOptions_td>& o) {
  return {FLD(o, windowDuration, "windowDuration", 10), FLD(o, verbose, "verbose", 1), SPL(o), FLD(o, delayBound, "delayBound", 50000000), FLD(o, lwVariance, S "wss/noise/lwVariance", 1e-3), FLD(o, rwVariance, S "wss/noise/rwVariance", 1e-3),
    FLD(o, vyVariance, "odometry/constraints/noise/vyVariance", 0.1), FLD(o, vzVariance, "odometry/constraints/noise/vzVariance", 0.1)};
}
static std::vector<Field> ego(Painted<CalibratorOptions_ego>& o) {
  return {FLD(o, windowDuration, "windowDuration", 10), FLD(o, verbose, "verbose", 1), SPL(o), FLD(o, delayBound, "delayBound", 50000000), FLD(o, referenceSensor, "referenceSensor", 0)};
}
static std::vector<Field> tp(Painted<TrajectoryParams_td>& o) { return {FLD(o, A, "A", 15), FLD(o, f, "f", 0.01)}; }
static std::vector<Field> ep(Painted<TrajectoryParams_ego>& o) {
  return {FLD(o, A, "A", 15), FLD(o, f, "f", 0.01), SPL(o), FLD(o, w_T_v_0.t()(0), "w_T_v_0/x", NAN), FLD(o, w_T_v_0.t()(1), "w_T_v_0/y", NAN), FLD(o, w_T_v_0.t()(2), "w_T_v_0/z", NAN)};
}
static std::vector<Field> sim(Painted<SimulationParams>& o) {
  const std::string w = "calibration/odometry/wss/", n = "noise/odometry/wss/", q = "noise/pose/sigma2_w_";
  return {FLD(o, b, w + "b", 0.8), FLD(o, k_l, w + "k_l", 360), FLD(o, t_l, w + "t_l", 0.1), FLD(o, k_r, w + "k_r", 360), FLD(o, t_r, w + "t_r", 0.1), FLD(o, dt, "dt", 0.1), FLD(o, T, "T", 1000), FLD(o, sigma2_l, n + "sigma2_l", 1e-3), FLD(o, sigma2_r, n + "sigma2_r", 1e-3),
    FLD(o, sigma2_w_r_wp(0, 0), q + "r_wp/e1", 1e-6), FLD(o, sigma2_w_r_wp(1, 1), q + "r_wp/e2", 1e-6), FLD(o, sigma2_w_r_wp(2, 2), q + "r_wp/e3", 1e-6), FLD(o, sigma2_w_R_p(0, 0), q + "R_p/e1", 1e-6), FLD(o, sigma2_w_R_p(1, 1), q + "R_p/e2", 1e-6), FLD(o, sigma2_w_R_p(2, 2), q + "R_p/e3", 1e-6),
    FLD(o, v_T_p.t()(0), "calibration/v_T_p/v_r_vp/e1", 0), FLD(o, v_T_p.t()(1), "calibration/v_T_p/v_r_vp/e2", 0), FLD(o, v_T_p.t()(2), "calibration/v_T_p/v_r_vp/e3", 0), FLD(o, trajectoryParams.A, "trajectory/A", 15), FLD(o, trajectoryParams.f, "trajectory/f", 0.01)};
}
// ---- design variables
typedef std::vector<aslam::backend::DesignVariable*> DVs;
static double sec(double ns) { return ns * 1e-9; }
static void angles(Vals& f, const std::string& p) { auto& c = hx::C(); f[p + "yaw"] = c.u(-3, 3); f[p + "pitch"] = c.u(-1.4, 1.4); f[p + "roll"] = c.u(-3, 3); }
static std::string show(const char* w, const sm::PropertyTree& t) { std::ostringstream o; o.precision(17); o << w; for (auto& kv : t.values) o << " " << kv.first << "=" << kv.second; return o.str(); }
static bool near(const Eigen::VectorXd& a, const std::vector<double>& b) { if ((size_t)a.size() != b.size()) return false; for (size_t i = 0; i < b.size(); ++i) if (!(std::fabs(a(i) - b[i]) < 1e-6 * (1 + std::fabs(b[i])))) return false; return true; }
template <class V> static void handed(const char* w, V& v, DVs all, const std::string& in) {
  const size_t g = hx::C().i(0, 3);
  boost::shared_ptr<OptimizationProblem> b = boost::make_shared<OptimizationProblem>();
  v.addToBatch(b, g);
  HX(std::string(w) + "-handed", b->numDesignVariables() == all.size(), in << ": " << b->numDesignVariables() << " variables in the batch, expected " << all.size());
  for (auto d : all) { HX(std::string(w) + "-handed", b->isDesignVariableInProblem(d), in << ": a variable is not in the batch"); if (b->isDesignVariableInProblem(d)) HX(std::string(w) + "-group", b->getGroupId(d) == g, in << ": group " << b->getGroupId(d) << " expected " << g); }
}
static bool ns(double got, double want) { return std::fabs(got - want) < 1e-12 + 1e-9 * std::fabs(want); }
static void odoCar() {
  auto& c = hx::C(); const std::string I = "intrinsics/", E = "extrinsics/", D = "timeDelays/"; Vals f; angles(f, E + "rotation/"); f[D + "active"] = c.coin();
  auto t = tree({I + "halfRearTrack", I + "halfFrontTrack", I + "wheelBase", I + "steeringCoefficient0", I + "steeringCoefficient1", I + "steeringCoefficient2", I + "steeringCoefficient3", I + "rlwCoefficient", I + "rrwCoefficient", I + "flwCoefficient", I + "frwCoefficient", I + "dmiCoefficient",
    E + "translation/x", E + "translation/y", E + "translation/z", D + "rearWheels", D + "frontWheels", D + "steering", D + "dmi"}, f);
  auto& m = t.values; const std::string in = show("car odometry from", t); hx::at(in);
  OdometryDesignVariables_car v(t);
  const bool a = f[D + "active"];
  HX("car-active", v.e_r->isActive() && v.e_f->isActive() && v.L->isActive() && v.a->isActive() && v.k_rl->isActive() && v.k_rr->isActive() && v.k_fl->isActive() && v.k_fr->isActive() && v.k_dmi->isActive() && !v.v_r_vr->isActive() && !v.v_R_r->isActive() && v.t_r->isActive() == a && v.t_f->isActive() == a && v.t_s->isActive() == a && v.t_dmi->isActive() == a, in << ": wrong variables are active");
  handed("car", v, {v.e_r.get(), v.e_f.get(), v.L.get(), v.a.get(), v.k_rl.get(), v.k_rr.get(), v.k_fl.get(), v.k_fr.get(), v.k_dmi.get(), v.v_r_vr.get(), v.v_R_r.get(), v.t_r.get(), v.t_f.get(), v.t_s.get(), v.t_dmi.get()}, in);
  std::vector<double> e{m[I + "halfRearTrack"], m[I + "halfFrontTrack"], m[I + "wheelBase"], m[I + "rlwCoefficient"], m[I + "rrwCoefficient"], m[I + "flwCoefficient"], m[I + "frwCoefficient"], m[I + "dmiCoefficient"], m[I + "steeringCoefficient0"], m[I + "steeringCoefficient1"], m[I + "steeringCoefficient2"], m[I + "steeringCoefficient3"],
    m[E + "translation/x"], m[E + "translation/y"], m[E + "translation/z"], f[E + "rotation/yaw"], f[E + "rotation/pitch"], f[E + "rotation/roll"], sec(m[D + "rearWheels"]), sec(m[D + "frontWheels"]), sec(m[D + "steering"]), sec(m[D + "dmi"])};
  const Eigen::VectorXd p = v.getParameters(); HX("car-parameters", near(p, e) && ns(p(18), e[18]) && ns(p(19), e[19]) && ns(p(20), e[20]) && ns(p(21), e[21]), in << ": getParameters " << p.transpose());
}
static void odoTd() {
  auto& c = hx::C(); const std::string I = "intrinsics/", E = "extrinsics/"; Vals f; angles(f, E + "rotation/"); f[I + "timeDelaysActive"] = c.coin(); f[E + "translation/active"] = c.coin(); f[E + "rotation/active"] = c.coin();
  auto t = tree({I + "halfWheelBase", I + "lwCoefficient", I + "rwCoefficient", E + "translation/x", E + "translation/y", E + "translation/z", I + "lwTimeDelay", I + "rwTimeDelay"}, f);
  auto& m = t.values; const std::string in = show("differential odometry from", t); hx::at(in);
  OdometryDesignVariables_td v(t); const bool a = m[I + "timeDelaysActive"];
  HX("delay-active", v.b->isActive() && v.k_l->isActive() && v.k_r->isActive() && v.t_l->isActive() == a && v.t_r->isActive() == a && v.v_r_vp->isActive() == (m[E + "translation/active"] != 0) && v.v_R_p->isActive() == (m[E + "rotation/active"] != 0), in << ": wrong variables are active");
  handed("delay", v, {v.b.get(), v.k_l.get(), v.k_r.get(), v.t_l.get(), v.t_r.get(), v.v_r_vp.get(), v.v_R_p.get()}, in);
  std::vector<double> e{m[I + "halfWheelBase"], m[I + "lwCoefficient"], sec(m[I + "lwTimeDelay"]), m[I + "rwCoefficient"], sec(m[I + "rwTimeDelay"]), m[E + "translation/x"], m[E + "translation/y"], m[E + "translation/z"], f[E + "rotation/yaw"], f[E + "rotation/pitch"], f[E + "rotation/roll"]};
  const Eigen::VectorXd p = v.getParameters(); HX("delay-parameters", near(p, e) && ns(p(2), e[2]) && ns(p(4), e[4]), in << ": getParameters " << p.transpose());
}
static void sensors() {
  auto& c = hx::C(); Vals f; const int n = c.i(0, 12); f["num"] = n; std::vector<std::string> ks; std::vector<size_t> idx;
  for (int i = 0; i < n; ++i) {
    const std::string p = "sensor_" + std::to_string(i) + "/"; angles(f, p + "extrinsics/rotation/");
    size_t k; do k = c.i(0, 30); while (std::count(idx.begin(), idx.end(), k)); idx.push_back(k); f[p + "idx"] = k;
    for (auto s : {"extrinsics/translation/active", "extrinsics/rotation/active", "intrinsics/timeDelayActive"}) f[p + s] = c.coin();
    for (auto s : {"extrinsics/translation/x", "extrinsics/translation/y", "extrinsics/translation/z", "intrinsics/timeDelay"}) ks.push_back(p + s);
  }
  auto t = tree(ks, f); auto& m = t.values; const std::string in = show("sensors from", t); hx::at(in);
  DesignVariables v(t); DVs all;
  HX("sensor-count", v.calibrationVariables_.size() == (size_t)n, in << ": " << v.calibrationVariables_.size() << " sensors");
  for (int i = 0; i < n; ++i) {
    const std::string p = "sensor_" + std::to_string(i) + "/"; if (!v.calibrationVariables_.count(idx[i])) { HX("sensor-missing", false, in << ": sensor " << idx[i] << " missing"); continue; }
    auto& s = v.calibrationVariables_.at(idx[i]); all.push_back(std::get<0>(s).get()); all.push_back(std::get<1>(s).get()); all.push_back(std::get<2>(s).get());
    HX("sensor-active", std::get<0>(s)->isActive() == (m[p + "intrinsics/timeDelayActive"] != 0) && std::get<1>(s)->isActive() == (m[p + "extrinsics/translation/active"] != 0) && std::get<2>(s)->isActive() == (m[p + "extrinsics/rotation/active"] != 0), in << ": wrong variables of sensor " << i << " are active");
    std::vector<double> e{sec(m[p + "intrinsics/timeDelay"]), m[p + "extrinsics/translation/x"], m[p + "extrinsics/translation/y"], m[p + "extrinsics/translation/z"], m[p + "extrinsics/rotation/yaw"], m[p + "extrinsics/rotation/pitch"], m[p + "extrinsics/rotation/roll"]};
    const Eigen::VectorXd q = v.getParameters(idx[i]); HX("sensor-parameters", near(q, e) && ns(q(0), e[0]), in << ": getParameters(" << idx[i] << ") " << q.transpose());
  }
  if (all.size() == 3 * (size_t)n) handed("sensor", v, all, in);
  const size_t x = c.i(31, 40); bool threw = false; try { v.getParameters(x); } catch (const OutOfBoundException<size_t>&) { threw = true; } HX("sensor-unknown", threw, in << ": unknown sensor " << x << " accepted");
}
// ---- splines
struct Point : aslam::backend::DesignVariable {
  void revertUpdateImplementation() override {} void updateImplementation(const double*, int) override {} int minimalDimensionsImplementation() const override { return 1; }
  void getParametersImplementation(Eigen::MatrixXd&) const override {} void setParametersImplementation(const Eigen::MatrixXd&) override {}
};
template <class P, class SP> static bool one(const char* w, P& p, std::vector<SP>& kept, std::vector<std::unique_ptr<Point>>& pool, const std::string& in) {
  auto& c = hx::C(); auto s = boost::make_shared<typename SP::element_type>(); const int n = c.i(0, 5); bool dup = false; DVs known; for (auto& d : pool) known.push_back(d.get());
  for (int i = 0; i < n; ++i) { if (!c.i(0, 11) && !known.empty()) { s->dvs.push_back(known[c.i(0, (int)known.size() - 1)]); dup = dup || p.isDesignVariableInProblem(s->dvs.back()) || std::count(s->dvs.begin(), s->dvs.end(), s->dvs.back()) > 1; } else { pool.emplace_back(new Point); pool.back()->setActive(c.coin()); s->dvs.push_back(pool.back().get()); } }
  const size_t g = c.i(0, 3); bool ok = true;
  try { p.addSpline(s, g); } catch (const InvalidOperationException&) { ok = false; }
  HX(std::string(w) + "-spline-accepted", ok == !dup, in << ": " << (ok ? "accepted" : "rejected"));
  if (!ok) return false;
  kept.push_back(s);
  for (auto d : s->dvs) { HX(std::string(w) + "-spline-variables", p.isDesignVariableInProblem(d), in << ": a variable of the spline is not in the problem"); if (p.isDesignVariableInProblem(d)) HX(std::string(w) + "-spline-group", p.getGroupId(d) == g, in << ": group"); HX(std::string(w) + "-spline-active", d->isActive(), in << ": a variable of the spline is not active"); }
  return true;
}
template <class P> static void splines(const char* w) {
  auto& c = hx::C(); std::vector<std::unique_ptr<Point>> pool; std::vector<typename P::TranslationSplineSP> t; std::vector<typename P::RotationSplineSP> r;
  std::ostringstream o; o << w << " splines:"; P p; const int n = c.i(0, 8);
  for (int i = 0; i < n; ++i) {
    const bool tr = c.coin(); o << (tr ? " T" : " R"); hx::at(o.str()); const size_t before = p.numDesignVariables();
    if (!(tr ? one(w, p, t, pool, o.str()) : one(w, p, r, pool, o.str()))) { (void)before; break; }
    HX(std::string(w) + "-spline-count", p.getNumTranslationSplines() == t.size() && p.getNumRotationSplines() == r.size(), o.str() << ": " << p.getNumTranslationSplines() << " and " << p.getNumRotationSplines());
    const P& k = p;
    for (size_t j = 0; j < t.size() && t.size() == p.getNumTranslationSplines(); ++j) HX(std::string(w) + "-spline-at", p.getTranslationSpline(j) == t[j].get() && k.getTranslationSpline(j) == t[j].get(), o.str() << ": translation spline " << j);
    for (size_t j = 0; j < r.size() && r.size() == p.getNumRotationSplines(); ++j) HX(std::string(w) + "-spline-at", p.getRotationSpline(j) == r[j].get() && k.getRotationSpline(j) == r[j].get(), o.str() << ": rotation spline " << j);
  }
  int threw = 0; const P& k = p; const size_t x = t.size() + c.i(0, 2), y = r.size() + c.i(0, 2);
  try { p.getTranslationSpline(x); } catch (const OutOfBoundException<size_t>&) { ++threw; } try { k.getTranslationSpline(x); } catch (const OutOfBoundException<size_t>&) { ++threw; }
  try { p.getRotationSpline(y); } catch (const OutOfBoundException<size_t>&) { ++threw; } try { k.getRotationSpline(y); } catch (const OutOfBoundException<size_t>&) { ++threw; }
  HX(std::string(w) + "-spline-range", threw == 4, o.str() << ": positions " << x << " and " << y << " accepted");
}
int main() {
  hx::guard();
  std::vector<std::string> rot{"w_T_v_0/yaw", "w_T_v_0/pitch", "w_T_v_0/roll"}, rv{"calibration/v_T_p/v_R_p/e1", "calibration/v_T_p/v_R_p/e2", "calibration/v_T_p/v_R_p/e3"};
  while (hx::C().left()) {
    options<CarCalibratorOptions>("CarCalibratorOptions", car); options<CalibratorOptions_td>("CalibratorOptions(time_delay)", td); options<CalibratorOptions_ego>("CalibratorOptions(egomotion)", ego);
    options<TrajectoryParams_td>("TrajectoryParams(time_delay)", tp); options<TrajectoryParams_ego>("TrajectoryParams(egomotion)", ep, rot); options<SimulationParams>("SimulationParams", sim, rv);
    odoCar(); odoTd(); sensors(); splines<OptimizationProblemSpline_car>("car"); splines<OptimizationProblemSpline_td>("time_delay"); splines<OptimizationProblemSpline_ego>("egomotion");
  }
  return hx::done();
}
