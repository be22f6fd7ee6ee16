#include "calibrators.h"
// the stream of measurements is cut into windows, and every measurement of a window is in one batch
template <class M> using List = std::vector<std::pair<Ns, M>>;
static std::vector<Term> of(const std::vector<Term>& l, const std::set<std::string>& k) { std::vector<Term> r; for (auto& t : l) if (k.count(t.kind)) r.push_back(t); return r; }
struct Given { std::vector<Term> terms; size_t vars; std::vector<size_t> order; Ns fitFrom, fitTo; size_t fitted; std::string fit; };
/// the poses of the vehicle, and the times they were measured at
struct Poses { std::vector<Ns> t; std::vector<V3> p; std::vector<M3> R; void put(const Vals& o, Ns ts, const V3& r, const V3& w) { const sm::kinematics::EulerAnglesYawPitchRoll ypr; const M3 C = ypr.parametersToRotationMatrix(w) * extrinsic(o).transpose(); t.push_back(ts); p.push_back(r - C * lever(o)); R.push_back(C); } };
template <class T, class Q> static std::string fit(const Poses& w, const Vals& o, const T& t, const Q& r) {
  if (t.times != w.t || r.times != w.t || t.points.size() != w.t.size() || r.points.size() != w.t.size()) return "another number of poses, or other times, than measured";
  for (size_t i = 0; i < w.t.size(); ++i) { if ((t.points[i] - w.p[i]).norm() > 1e-6 * (1 + w.p[i].norm()) || (rot(r.points[i]) - w.R[i]).norm() > 1e-6) return "pose " + std::to_string(i) + " is not that of the vehicle"; if (i && (r.points[i] - r.points[i - 1]).norm() > (r.points[i] + r.points[i - 1]).norm() + 1e-9) return "the sign of quaternion " + std::to_string(i) + " jumps"; }
  const double T0 = sec(w.t.back() - w.t.front()), kps = o.at("splineKnotsPerSecond"); const int n = std::round(w.t.size() / T0) > kps ? std::ceil(kps * T0) : (int)w.t.size();
  if (std::abs(t.segments - n) > (std::fabs(kps * T0 - std::round(kps * T0)) < 1e-9 || std::fabs(w.t.size() / T0 - kps - 0.5) < 1e-9) || r.segments != t.segments) return "number of segments";
  return t.lambda == o.at("transSplineLambda") && r.lambda == o.at("rotSplineLambda") && t.order == o.at("transSplineOrder") && r.order == o.at("rotSplineOrder") ? "" : "other settings than configured"; }
/// state shared by the two calibrators
template <class K, class V> struct Run {
  sm::PropertyTree t; Vals o; std::unique_ptr<K> k; std::string in; std::vector<Given> given; double ig = 0; std::vector<double> igs; std::vector<VX> hist; Ns start = -1, last = -1; size_t batches = 0; Poses poses; Vals fitted;
  void begin(const char* w) {
    std::ostringstream s; s << w << values(o) << " stream"; in = s.str(); script.groups.clear();
    script.add = [this](const IncrementalEstimator::BatchSP& b, bool) {
      Given g; auto* p = dynamic_cast<typename K::OptimizationProblemSplineSP::element_type*>(b.get()); HX("batch-kind", p, in << ": another kind of batch");
      g.terms = read(*b); g.order = b->getGroupsOrdering(); auto& ts = *k->_translationSpline; g.fitFrom = ts.times.front(); g.fitTo = ts.times.back(); g.fitted = ts.times.size(); g.fit = fit(poses, fitted, ts, *k->_rotationSpline);
      if (p) HX("batch-splines", p->getNumTranslationSplines() == 1 && p->getNumRotationSplines() == 1 && p->getTranslationSpline(0) == k->_translationSpline.get() && p->getRotationSpline(0) == k->_rotationSpline.get(), in << ": the batch does not hold the splines of the window");
      auto gs = b->getDesignVariablesGroups(); g.vars = gs.count(1) ? gs[1].size() : 0;
      given.push_back(g); IncrementalEstimator::ReturnValue r = IncrementalEstimator::ReturnValue(); r.batchAccepted = c().coin(); r.informationGain = ig = c().u(0, 5); change(); return r; };
    k.reset(new K(t)); hist.push_back(k->getOdometryDesignVariables()->getParameters());
    HX("new", script.groups == std::vector<double>{1} && given.empty() && !k->unprocessedMeasurements() && k->getInformationGainHistory().empty() && k->getOdometryVariablesHistory() == hist, in << ": a new calibrator");
  }
  void change();
  /// a window is due before measurement at ts is kept
  template <class F> void step(Ns ts, size_t poses, F emit, bool forced) {
    if (!forced) { last = ts; if (start == -1) start = ts; }
    const bool due = poses >= 2 && (forced || sec(ts - start) >= o.at("window"));
    if (due) { start = last; ++batches; }
    fitted = o; emit(due);
  }
};
template <> void Run<Car, int>::change() { Eigen::MatrixXd v(1, 1); auto& d = k->getOdometryDesignVariables(); d->e_r->getParameters(v); v(0, 0) += 0.25; d->e_r->setParameters(v); o["e_r"] = v(0, 0); hist.push_back(d->getParameters()); igs.push_back(ig); }
template <> void Run<Td, int>::change() { Eigen::MatrixXd v(1, 1); auto& d = k->getOdometryDesignVariables(); d->b->getParameters(v); v(0, 0) += 0.25; d->b->setParameters(v); o["b"] = v(0, 0); hist.push_back(d->getParameters()); igs.push_back(ig); }
template <class R> static void after(R& r, bool due, size_t before, const std::vector<std::pair<std::set<std::string>, std::vector<Term>>>& want, size_t vars, Ns from, Ns to, size_t poses) {
  HX("batches", r.given.size() == before + due, r.in << ": " << r.given.size() - before << " batches handed to the estimator, expected " << due);
  if (r.given.size() != before + 1 || !due) return;
  const Given& g = r.given.back(); size_t n = 0;
  for (auto& w : want) { n += w.second.size(); const std::string d = differ(of(g.terms, w.first), w.second); HX("batch-" + *w.first.begin(), d == "", r.in << ": " << d); }
  HX("batch-terms", g.terms.size() == n, r.in << ": " << g.terms.size() << " error terms in the batch, expected " << n);
  HX("batch-order", g.order == (std::vector<size_t>{0, 1}), r.in << ": groups ordered " << hx::str(g.order));
  HX("batch-variables", g.vars == vars, r.in << ": " << g.vars << " calibration variables in group 1, expected " << vars);
  HX("batch-fit", g.fitted == poses && g.fitFrom == from && g.fitTo == to, r.in << ": splines fitted to " << g.fitted << " poses " << g.fitFrom << ".." << g.fitTo << ", expected " << poses << " poses " << from << ".." << to);
  HX("batch-fit", g.fit == "", r.in << ": splines fitted to the poses of the window: " << g.fit);
  HX("history", r.k->getInformationGainHistory() == r.igs && r.k->getOdometryVariablesHistory() == r.hist, r.in << ": histories of " << r.k->getInformationGainHistory().size() << " and " << r.k->getOdometryVariablesHistory().size() << ", expected " << r.igs.size() << " and " << r.hist.size());
}
template <class M, class F> static std::vector<Term> all(const List<M>& l, const Vals& o, const Window& w, F f) { std::vector<Term> r; for (auto& x : l) r = r + f(o, w, x.first, x.second); return r; }
static Ns advance(Ns t, double window) { auto& C = c(); switch (C.i(0, 5)) { case 0: return t; case 1: return t + (Ns)(window * 1e9); default: return t + C.i(1, 300) * 1000000LL; } }
static void car() {
  Run<Car, int> r; carConfig(r.t, r.o, c().i(1, 8) * 0.25); newTraj(); r.begin("car"); Ns t = c().i(0, 900) * 1000000LL;
  List<PoseMeasurement> P; List<VelocitiesMeasurement> V; List<DMIMeasurement> D; List<WheelSpeedsMeasurement> F, R; List<SteeringMeasurement> S;
  for (int n = c().i(5, 60); n > 0; --n) {
    const int op = c().i(0, 13); const size_t before = r.given.size(); Vals o = r.o; bool due = false; std::vector<std::pair<std::set<std::string>, std::vector<Term>>> want; Ns from = 0, to = 0; const size_t poses = P.size();
    auto emit = [&](bool d) { due = d; if (!d) return; const Window w{P.front().first, P.back().first}; from = w.lo; to = w.hi; r.poses = Poses(); for (auto& x : P) r.poses.put(o, x.first, x.second.m_r_mr, x.second.m_R_r);
      auto wheels = [](bool f) { return [f](const Vals& o, const Window& w, Ns t, const WheelSpeedsMeasurement& m) { return carWheels(o, w, t, m, f); }; };
      want = {{{"pose"}, o["usePose"] ? all(P, o, w, carPose) : std::vector<Term>()}, {{"velocities"}, o["useVelocities"] ? all(V, o, w, carVel) : std::vector<Term>()}, {{"wheel"}, all(D, o, w, carDmi) + all(R, o, w, wheels(false))}, {{"front wheel"}, all(F, o, w, wheels(true))}, {{"steering"}, all(S, o, w, carSteer)}};
      P.clear(); V.clear(); D.clear(); F.clear(); R.clear(); S.clear(); };
    std::ostringstream w; w << r.in;
    if (op == 0) { w << " batch!"; r.in = w.str(); hx::at(r.in); r.step(0, P.size(), emit, true); r.k->addMeasurements(); after(r, due, before, want, 15, from, to, poses); continue; }
    if (op == 1 && !c().i(0, 3)) { w << " clear"; r.in = w.str(); hx::at(r.in); r.k->clearMeasurements(); P.clear(); V.clear(); D.clear(); F.clear(); R.clear(); S.clear(); HX("cleared", !r.k->unprocessedMeasurements(), r.in << ": measurements left"); continue; }
    const int kind = op >= 9 ? 0 : c().i(0, 5); t = advance(t, r.o["window"]); if (kind == 0 && P.size() && P.back().first == t) t += 1000000;
    const char* nm[] = {"pose", "velocities", "dmi", "front", "rear", "steering"}; w << " " << nm[kind] << "@" << t; r.in = w.str(); hx::at(r.in); r.step(t, P.size(), emit, false);
    if (kind == 0) { P.push_back({t, carPoseM()}); r.k->addPoseMeasurement(P.back().second, t); }
    if (kind == 1) { V.push_back({t, carVelM()}); r.k->addVelocitiesMeasurement(V.back().second, t); }
    if (kind == 2) { DMIMeasurement m; m.wheelSpeed = c().u(-99, 99); D.push_back({t, m}); r.k->addDMIMeasurement(m, t); }
    if (kind == 3) { F.push_back({t, carWheelM()}); r.k->addFrontWheelsMeasurement(F.back().second, t); }
    if (kind == 4) { R.push_back({t, carWheelM()}); r.k->addRearWheelsMeasurement(R.back().second, t); }
    if (kind == 5) { SteeringMeasurement m; m.value = c().u(-1, 1); S.push_back({t, m}); r.k->addSteeringMeasurement(m, t); }
    after(r, due, before, want, 15, from, to, poses); const Car& k = *r.k;
    auto sizes = std::vector<size_t>{k.getPoseMeasurements().size(), k.getVelocitiesMeasurements().size(), k.getDMIMeasurements().size(), k.getFrontWheelsMeasurements().size(), k.getRearWheelsMeasurements().size(), k.getSteeringMeasurements().size()};
    HX("waiting", sizes == (std::vector<size_t>{P.size(), V.size(), D.size(), F.size(), R.size(), S.size()}) && k.unprocessedMeasurements(), r.in << ": measurements waiting " << hx::str(sizes) << " expected " << hx::str(std::vector<size_t>{P.size(), V.size(), D.size(), F.size(), R.size(), S.size()}));
  }
}
static void td() {
  Run<Td, int> r; tdConfig(r.t, r.o, c().i(1, 8) * 0.25); newTraj(); r.begin("time delay"); Ns t = c().i(0, 900) * 1000000LL;
  List<PoseMeasurement_td> P; List<WheelSpeedMeasurement> L, R;
  for (int n = c().i(5, 60); n > 0; --n) {
    const int op = c().i(0, 13); const size_t before = r.given.size(); Vals o = r.o; bool due = false; std::vector<std::pair<std::set<std::string>, std::vector<Term>>> want; Ns from = 0, to = 0; const size_t poses = P.size();
    auto emit = [&](bool d) { due = d; if (!d) return; const Window w{P.front().first, P.back().first}; from = w.lo; to = w.hi; r.poses = Poses(); for (auto& x : P) r.poses.put(o, x.first, x.second.w_r_wp, x.second.w_R_p);
      auto wheel = [](bool l) { return [l](const Vals& o, const Window& w, Ns t, const WheelSpeedMeasurement& m) { return tdWheel(o, w, t, m, l); }; };
      want = {{{"pose"}, all(P, o, w, tdPose)}, {{"wheel"}, all(L, o, w, wheel(true)) + all(R, o, w, wheel(false))}}; P.clear(); L.clear(); R.clear(); };
    std::ostringstream w; w << r.in;
    if (op == 0) { w << " batch!"; r.in = w.str(); hx::at(r.in); r.step(0, P.size(), emit, true); r.k->addMeasurements(); after(r, due, before, want, 7, from, to, poses); continue; }
    const int kind = op >= 7 ? 0 : c().i(0, 2); t = advance(t, r.o["window"]); if (kind == 0 && P.size() && P.back().first == t) t += 1000000;
    const char* nm[] = {"pose", "left", "right"}; w << " " << nm[kind] << "@" << t; r.in = w.str(); hx::at(r.in); r.step(t, P.size(), emit, false);
    WheelSpeedMeasurement m; m.value = c().u(-99, 99);
    if (kind == 0) { P.push_back({t, tdPoseM()}); r.k->addPoseMeasurement(P.back().second, t); }
    if (kind == 1) { L.push_back({t, m}); r.k->addLeftWheelMeasurement(m, t); }
    if (kind == 2) { R.push_back({t, m}); r.k->addRightWheelMeasurement(m, t); }
    after(r, due, before, want, 7, from, to, poses); const Td& k = *r.k;
    auto sizes = std::vector<size_t>{k.getPoseMeasurements().size(), k.getLeftWheelMeasurements().size(), k.getRightWheelMeasurements().size()};
    HX("waiting", sizes == (std::vector<size_t>{P.size(), L.size(), R.size()}) && k.unprocessedMeasurements(), r.in << ": measurements waiting " << hx::str(sizes) << " expected " << P.size() << "," << L.size() << "," << R.size());
  }
}
int main() { hx::guard(); scriptSplines(); while (c().left()) for (int i = 0; i < 20; ++i) { car(); knots.clear(); td(); knots.clear(); } return hx::done(); }
