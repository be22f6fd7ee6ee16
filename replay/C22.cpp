#include "calibrators.h"
// every measurement becomes the error terms of its kind, and of no other
template <class M> static std::vector<std::pair<Ns, M>> list(const Window& w, std::function<M()> make) { std::vector<std::pair<Ns, M>> r; for (int n = c().i(0, 7); n > 0; --n) r.push_back({w.lo + c().i(-100, (int)((w.hi - w.lo) / 1000000) + 100) * 1000000LL + (c().coin() ? c().i(-3, 3) : 0), make()}); return r; }
template <class M> static std::vector<Term> expect(const std::vector<std::pair<Ns, M>>& l, const Vals& o, const Window& w, std::function<std::vector<Term>(const Vals&, const Window&, Ns, const M&)> f) { std::vector<Term> r; for (auto& x : l) r = r + f(o, w, x.first, x.second); return r; }
static void predicted(const std::string& w, const std::vector<VX>& e, const std::vector<double>& e2, size_t n, const std::vector<Term>& want, size_t per, const std::string& in) {
  HX(w, e.size() * per == want.size() && e2.size() == e.size() && n == e.size(), in << ": " << n << " predictions, " << e.size() << " errors, " << e2.size() << " squared errors, expected " << want.size() / per);
  if (e.size() * per != want.size() || e2.size() != e.size()) return;
  for (size_t i = 0; i < e.size(); ++i) { VX x(0); double s = 0; for (size_t j = 0; j < per; ++j) { const Term& t = want[i * per + j]; VX y(x.size() + t.err.size()); y << x, t.err; x = y; s += t.err.dot(t.info * t.err); }
    HX(w, e[i].size() == x.size() && (e[i] - x).norm() <= 1e-6 * (1 + x.norm()) && hx::close(e2[i], s, 1e-6), in << ": prediction " << i << " error " << e[i].transpose() << " squared " << e2[i] << " expected " << x.transpose() << " squared " << s); }
}
// a predicted wheel speed is what was measured less its error (or, for the steered-wheel formula on a wheel that is not steered, the whole speed of the wheel)
static void value(const std::string& w, double got, const Term& t, double k, bool whole, const std::string& in) {
  const double p = t.extra(0) - t.err(0), q = (p < 0 ? -1 : 1) * std::hypot(p, k * t.err(1)); HX(w, hx::close(got, p, 1e-6) || (whole && hx::close(got, q, 1e-6)), in << ": predicted " << got << " expected " << p); }
static Window window() { const Ns lo = c().i(0, 5000) * 1000000LL; return {lo, lo + c().i(300, 3000) * 1000000LL}; }
template <class K> static void spline(K& k, const Window& w) { k._translationSpline.reset(new typename K::TranslationSpline); k._rotationSpline.reset(new typename K::RotationSpline); k._translationSpline->tmin = k._rotationSpline->tmin = w.lo; k._translationSpline->tmax = k._rotationSpline->tmax = w.hi; }
template <class K, class L, class G> static void fit(const std::string& w, K& k, L l, const Vals& o, G get, const std::string& in) {
  const Ns dt = c().i(5, 400) * 1000000LL; for (size_t i = 0; i < l.size(); ++i) l[i].first = (Ns)(i + 1) * dt; if (l.size() < 2) return;
  k.initSplines(l); auto& t = *k._translationSpline; auto& r = *k._rotationSpline; const sm::kinematics::EulerAnglesYawPitchRoll ypr; bool ok = t.points.size() == l.size() && r.points.size() == l.size() && t.times.size() == l.size() && r.times == t.times;
  for (size_t i = 0; i < l.size() && ok; ++i) { const V3 p = get(l[i].second).first; const M3 R = ypr.parametersToRotationMatrix(get(l[i].second).second) * extrinsic(o).transpose();
    ok = t.times[i] == l[i].first && (t.points[i] - (p - R * lever(o))).norm() < 1e-6 && (rot(r.points[i]) - R).norm() < 1e-6 && (i == 0 || (r.points[i] - r.points[i - 1]).norm() <= (r.points[i] + r.points[i - 1]).norm() + 1e-9); }
  HX(w + "-fit", ok, in << ": the splines are not fitted to the poses of the vehicle");
  const double T = sec(l.back().first - l.front().first); const double kps = o.at("splineKnotsPerSecond"); const int n = std::round(l.size() / T) > kps ? std::ceil(kps * T) : (int)l.size();
  HX(w + "-fit", t.segments == n && r.segments == n && t.lambda == o.at("transSplineLambda") && r.lambda == o.at("rotSplineLambda") && t.order == o.at("transSplineOrder") && r.order == o.at("rotSplineOrder"), in << ": segments " << t.segments << " and " << r.segments << " expected " << n << ", or other settings than configured");
}
static void car() {
  sm::PropertyTree t; Vals o; carConfig(t, o, 10); Car k(t); const Window w = window(); spline(k, w); const std::string in = "car" + values(o); hx::at(in); newTraj();
  typedef CarCalibrator K;
  auto P = list<PoseMeasurement>(w, carPoseM); auto V = list<VelocitiesMeasurement>(w, carVelM); auto D = list<DMIMeasurement>(w, [] { DMIMeasurement m; m.wheelSpeed = c().u(-99, 99); return m; });
  auto F = list<WheelSpeedsMeasurement>(w, carWheelM), R = list<WheelSpeedsMeasurement>(w, carWheelM); auto S = list<SteeringMeasurement>(w, [] { SteeringMeasurement m; m.value = c().u(-1, 1); return m; });
  auto eP = expect<PoseMeasurement>(P, o, w, carPose), eV = expect<VelocitiesMeasurement>(V, o, w, carVel), eD = expect<DMIMeasurement>(D, o, w, carDmi), eS = expect<SteeringMeasurement>(S, o, w, carSteer);
  auto eF = expect<WheelSpeedsMeasurement>(F, o, w, [](const Vals& o, const Window& w, Ns t, const WheelSpeedsMeasurement& m) { return carWheels(o, w, t, m, true); }), eR = expect<WheelSpeedsMeasurement>(R, o, w, [](const Vals& o, const Window& w, Ns t, const WheelSpeedsMeasurement& m) { return carWheels(o, w, t, m, false); });
#define CHECK(name, fn, l, want) { auto b = boost::make_shared<K::OptimizationProblemSplineSP::element_type>(); k.getOdometryDesignVariables()->addToBatch(b, 1); k.fn(l, b); const std::string d = differ(read(*b), want); HX(name, d == "", in << " window " << w.lo << ".." << w.hi << " measured at " << times(l) << ": " << d); }
  CHECK("car-pose", addPoseErrorTerms, P, eP) CHECK("car-velocities", addVelocitiesErrorTerms, V, eV) CHECK("car-dmi", addDMIErrorTerms, D, eD) CHECK("car-front", addFrontWheelsErrorTerms, F, eF) CHECK("car-rear", addRearWheelsErrorTerms, R, eR) CHECK("car-steering", addSteeringErrorTerms, S, eS)
  k.predictPoses(P); predicted("car-predict-pose", k.getPosePredictionErrors(), k.getPosePredictionErrors2(), k.getPosePredictions().size(), eP, 1, in);
  k.predictVelocities(V); predicted("car-predict-velocities", k.getVelocitiesPredictionErrors(), k.getVelocitiesPredictionErrors2(), k.getVelocitiesPredictions().size(), eV, 1, in);
  k.predictDMI(D); predicted("car-predict-dmi", k.getDMIPredictionErrors(), k.getDMIPredictionErrors2(), k.getDMIPredictions().size(), eD, 1, in);
  k.predictFrontWheels(F); predicted("car-predict-front", k.getFrontWheelsPredictionErrors(), k.getFrontWheelsPredictionErrors2(), k.getFrontWheelsPredictions().size(), eF, 2, in);
  for (size_t i = 0; i < k.getFrontWheelsPredictions().size() && 2 * i + 1 < eF.size(); ++i) { auto& m = k.getFrontWheelsPredictions()[i].second; value("car-predict-front", m.left, eF[2 * i], 1, false, in); value("car-predict-front", m.right, eF[2 * i + 1], 1, false, in); }
  k.predictRearWheels(R); predicted("car-predict-rear", k.getRearWheelsPredictionErrors(), k.getRearWheelsPredictionErrors2(), k.getRearWheelsPredictions().size(), eR, 2, in);
  k.predictSteering(S); predicted("car-predict-steering", k.getSteeringPredictionErrors(), k.getSteeringPredictionErrors2(), k.getSteeringPredictions().size(), eS, 1, in);
  fit("car", k, P, o, [](const PoseMeasurement& m) { return std::make_pair(m.m_r_mr, m.m_R_r); }, in);
}
static void td() {
  sm::PropertyTree t; Vals o; tdConfig(t, o, 10); Td k(t); const Window w = window(); spline(k, w); const std::string in = "time delay" + values(o); hx::at(in); newTraj();
  typedef Calibrator K; auto wm = [] { WheelSpeedMeasurement m; m.value = c().u(-99, 99); return m; };
  auto P = list<PoseMeasurement_td>(w, tdPoseM); auto L = list<WheelSpeedMeasurement>(w, wm), R = list<WheelSpeedMeasurement>(w, wm);
  auto eP = expect<PoseMeasurement_td>(P, o, w, tdPose), eL = expect<WheelSpeedMeasurement>(L, o, w, [](const Vals& o, const Window& w, Ns t, const WheelSpeedMeasurement& m) { return tdWheel(o, w, t, m, true); }), eR = expect<WheelSpeedMeasurement>(R, o, w, [](const Vals& o, const Window& w, Ns t, const WheelSpeedMeasurement& m) { return tdWheel(o, w, t, m, false); });
  CHECK("delay-pose", addPoseErrorTerms, P, eP) CHECK("delay-left", addLeftWheelErrorTerms, L, eL) CHECK("delay-right", addRightWheelErrorTerms, R, eR)
  k.predictPoses(P); predicted("delay-predict-pose", k.getPosePredictionErrors(), k.getPosePredictionErrors2(), k.getPosePredictions().size(), eP, 1, in);
  k.predictLeftWheel(L); predicted("delay-predict-left", k.getLeftWheelPredictionErrors(), k.getLeftWheelPredictionErrors2(), k.getLeftWheelPredictions().size(), eL, 1, in);
  for (size_t i = 0; i < k.getLeftWheelPredictions().size() && i < eL.size(); ++i) value("delay-predict-left", k.getLeftWheelPredictions()[i].second.value, eL[i], o.at("k_l"), true, in);
  k.predictRightWheel(R); predicted("delay-predict-right", k.getRightWheelPredictionErrors(), k.getRightWheelPredictionErrors2(), k.getRightWheelPredictions().size(), eR, 1, in);
  for (size_t i = 0; i < k.getRightWheelPredictions().size() && i < eR.size(); ++i) value("delay-predict-right", k.getRightWheelPredictions()[i].second.value, eR[i], o.at("k_r"), true, in);
  fit("delay", k, P, o, [](const PoseMeasurement_td& m) { return std::make_pair(m.w_r_wp, m.w_R_p); }, in);
}
int main() { hx::guard(); scriptSplines(); while (c().left()) for (int i = 0; i < 50; ++i) { car(); td(); knots.clear(); } return hx::done(); }
