#include "core.h"
#include "aslam/calibration/core/IncrementalEstimator.h"
#include "aslam/calibration/core/IncrementalOptimizationProblem.h"
#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/backend/GaussNewtonTrustRegionPolicy.hpp>
// scripted linear solver and optimizer
typedef truncated_svd_solver::VsState VS;
static VS scaled, unscaled; static std::vector<ab::DesignVariable*> sdv; static std::vector<ab::ErrorTerm*> sets; static int inits, builds, analyses, optimizations;
namespace aslam { namespace backend {
AslamTruncatedSvdSolver::AslamTruncatedSvdSolver(const Options& o) : truncated_svd_solver::TruncatedSvdSolver(o) {}
AslamTruncatedSvdSolver::AslamTruncatedSvdSolver(const sm::PropertyTree& c) { tsvd_options_.columnScaling = c.getBool("columnScaling", true); }
AslamTruncatedSvdSolver::~AslamTruncatedSvdSolver() {}
void AslamTruncatedSvdSolver::buildSystem(size_t, bool) { ++builds; }
bool AslamTruncatedSvdSolver::solveSystem(Eigen::VectorXd&) { return true; }
double AslamTruncatedSvdSolver::rhsJtJrhs() { return 0; }
void AslamTruncatedSvdSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& d, const std::vector<ErrorTerm*>& e, bool) { sdv = d; sets = e; ++inits; }
bool AslamTruncatedSvdSolver::analyzeMarginal() { ++analyses; vs = unscaled; return true; }
const CompressedColumnMatrix<std::ptrdiff_t>& AslamTruncatedSvdSolver::getJacobianTranspose() const { return jacobian_builder_.J; }
} }
using Eigen::MatrixXd; using Eigen::VectorXd;
static MatrixXd rm() { auto& c = hx::C(); return MatrixXd::Random(c.i(0, 3), c.i(0, 3)) * 5; }
static VS rs() { auto& c = hx::C(); VS s; s.singularValues = VectorXd::Random(c.i(0, 4)); s.nullSpace = rm(); s.rowSpace = rm(); s.covariance = rm(); s.rowSpaceCovariance = rm(); s.log2Sum = c.i(-8, 8) * 0.25; s.svdTol = c.u(0, 1); s.qrTol = c.u(0, 1); s.numFlops = c.u(0, 1e3); s.svdRank = c.i(0, 4); s.svdDef = c.i(0, 4); s.qrRank = c.i(0, 9); s.qrDef = c.i(0, 9); s.peak = c.i(1, 999); s.mem = c.i(1, 999); return s; }
struct Est : ac::IncrementalEstimator { using ac::IncrementalEstimator::IncrementalEstimator; };
struct OP : ac::OptimizationProblem {};
typedef boost::shared_ptr<ac::OptimizationProblem> BP;
static bool eq(const MatrixXd& a, const MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && a == b; }
struct Rep { double ig, svdtol, qrtol, flops, j0, j1; long rt, rtd, rp, rpd; size_t peak, mem; MatrixXd m[10]; };
static Rep report(const Est& e) {
  Rep r; r.ig = e.getInformationGain(); r.svdtol = e.getSVDTolerance(); r.qrtol = e.getQRTolerance(); r.flops = e.getNumFlops(); r.j0 = e.getInitialCost(); r.j1 = e.getFinalCost();
  r.rt = e.getRankTheta(); r.rtd = e.getRankThetaDeficiency(); r.rp = e.getRankPsi(); r.rpd = e.getRankPsiDeficiency(); r.peak = e.getPeakMemoryUsage(); r.mem = e.getMemoryUsage();
  for (int s = 0; s < 2; ++s) { r.m[5 * s] = e.getSingularValues(s); r.m[5 * s + 1] = e.getNobsBasis(s); r.m[5 * s + 2] = e.getObsBasis(s); r.m[5 * s + 3] = e.getSigma2Theta(s); r.m[5 * s + 4] = e.getSigma2ThetaObs(s); }
  return r;
}
static std::string differ(const Rep& a, const Rep& b, bool ret) {
  const char* n[] = {"singular values", "nobs basis", "obs basis", "sigma2 theta", "sigma2 theta obs", "scaled singular values", "scaled nobs basis", "scaled obs basis", "scaled sigma2 theta", "scaled sigma2 theta obs"};
  if (a.ig != b.ig) return "information gain"; if (a.svdtol != b.svdtol || a.qrtol != b.qrtol) return "tolerances"; if (!ret && a.flops != b.flops) return "flops"; if (a.j0 != b.j0 || a.j1 != b.j1) return "costs";
  if (a.rt != b.rt || a.rtd != b.rtd) return "rank theta"; if (a.rp != b.rp || a.rpd != b.rpd) return "rank psi"; if (!ret && (a.peak != b.peak || a.mem != b.mem)) return "memory";
  for (int i = 0; i < 10; ++i) if (!eq(a.m[i], b.m[i])) return n[i];
  return "";
}
static Rep solution(double ig, double j0, double j1, bool cs) {
  Rep r; r.ig = ig; r.svdtol = unscaled.svdTol; r.qrtol = unscaled.qrTol; r.flops = unscaled.numFlops; r.j0 = j0; r.j1 = j1; r.rt = unscaled.svdRank; r.rtd = unscaled.svdDef; r.rp = unscaled.qrRank; r.rpd = unscaled.qrDef; r.peak = unscaled.peak; r.mem = unscaled.mem;
  for (int s = 0; s < 2; ++s) { VS v = s ? scaled : unscaled; if (s && !cs) { v = VS(); } r.m[5 * s] = v.singularValues; r.m[5 * s + 1] = v.nullSpace; r.m[5 * s + 2] = v.rowSpace; r.m[5 * s + 3] = v.covariance; r.m[5 * s + 4] = v.rowSpaceCovariance; }
  return r;
}
static Rep returned(const Est::ReturnValue& v) {
  Rep r; r.ig = v.informationGain; r.svdtol = v.svdTolerance; r.qrtol = v.qrTolerance; r.flops = 0; r.j0 = v.JStart; r.j1 = v.JFinal; r.rt = v.rankTheta; r.rtd = v.rankThetaDeficiency; r.rp = v.rankPsi; r.rpd = v.rankPsiDeficiency; r.peak = r.mem = 0;
  const MatrixXd m[] = {v.singularValues, v.nobsBasis, v.obsBasis, v.sigma2Theta, v.sigma2ThetaObs, v.singularValuesScaled, v.nobsBasisScaled, v.obsBasisScaled, v.sigma2ThetaScaled, v.sigma2ThetaObsScaled};
  for (int i = 0; i < 10; ++i) r.m[i] = m[i];
  return r;
}
static void history() {
  auto& c = hx::C(); std::string L;
  const size_t G = c.i(0, 2); int nd = c.i(1, 6), nb = c.i(1, 5);
  std::vector<DVP> dvs; std::vector<size_t> home; std::vector<ETP> ets; std::vector<BP> bs; std::vector<bool> hasG;
  for (int i = 0; i < nd; ++i) { dvs.push_back(mkdv(i)); home.push_back(i == 0 ? G : c.i(0, 3)); }
  for (int b = 0; b < nb; ++b) {
    BP p(new OP); std::vector<ab::DesignVariable*> v; bool g = false;
    for (int i = 0; i < nd; ++i) if ((i == 0 && c.i(0, 9)) || c.i(0, 1)) { p->addDesignVariable(dvs[i], home[i]); v.push_back(dvs[i].get()); g = g || home[i] == G; }
    for (int k = c.i(1, 2); k > 0; --k) { ets.push_back(ETP(new TET(ets.size(), v))); p->addErrorTerm(ets.back()); }
    bs.push_back(p); hasG.push_back(g);
  }
  Est::Options o; o.infoGainDelta = c.i(0, 4) * 0.25; o.checkValidity = c.coin();
  truncated_svd_solver::TruncatedSvdSolverOptions so; so.columnScaling = c.coin();
  ab::Optimizer2Options oo; oo.maxIterations = c.i(1, 3);
  Est E(G, o, so, oo);
  HX("options", E.getMargGroupId() == G && E.getOptions().infoGainDelta == o.infoGainDelta && E.getOptions().checkValidity == o.checkValidity && E.getOptimizerOptions().maxIterations == oo.maxIterations && E.getLinearSolverOptions().columnScaling == so.columnScaling && E.getNumBatches() == 0, "new estimator");
  std::vector<int> in; double log2 = 0; double J0 = 0, J1 = 0; int it = 0; size_t marg = 0, last = 99; std::vector<int> seen; std::vector<MatrixXd> after;
  auto values = [&] { std::vector<MatrixXd> v; for (auto& d : dvs) v.push_back(d->v); return v; };
  auto held = [&] { std::vector<int> v; const ac::IncrementalOptimizationProblem* P = E.getProblem(); for (auto& p : P->getOptimizationProblems()) v.push_back(std::find(bs.begin(), bs.end(), p) - bs.begin()); return v; };
  ab::Optimizer2::hook() = [&](ab::Optimizer2& op) {
    ab::OptimizationProblemBase& P = *op.problem(); ab::SolutionReturnValue r;
    for (size_t i = 0; i < P.numDesignVariables(); ++i) if (P.designVariable(i)->isActive()) static_cast<TDV*>(P.designVariable(i))->v.array() += 1 + c.u(0, 1);
    scaled = rs(); unscaled = rs(); ab::AslamTruncatedSvdSolver* s = op.getSolver<ab::AslamTruncatedSvdSolver>(); s->vs = scaled; marg = s->getMargStartIndex();
    auto ord = E.getProblem()->getGroupsOrdering(); last = ord.empty() ? 99 : ord.back(); seen = held(); ++optimizations;
    J0 = c.i(0, 3); J1 = c.i(0, 3); it = c.i(0, oo.maxIterations); r.JStart = J0; r.JFinal = J1; r.iterations = it; after = values(); return r; };
  auto start = [&](const std::vector<int>& b) { std::set<const ab::DesignVariable*> s; size_t n = 0; for (int x : b) for (auto& g : bs[x]->getDesignVariablesGroups()) if (g.first != G) for (auto& d : g.second) if (d->isActive() && s.insert(d.get()).second) n += d->minimalDimensions(); return n; };
  auto solved = [&](const std::string& w, const std::vector<int>& b) {
    HX("optimised", optimizations == 1 && seen == b, w << ": optimiser ran " << optimizations << " times on batches " << hx::str(seen) << " expected " << hx::str(b));
    HX("marginal", last == G && marg == start(b), w << ": last group " << last << ", marginalisation starts at " << marg << " expected group " << G << ", " << start(b)); };
  for (int steps = c.i(3, 14); steps > 0; --steps) {
    std::ostringstream w; w << L; optimizations = 0; inits = builds = 0; Rep old = report(E); auto v0 = values(); int op = c.i(0, 9);
    if (op <= 5) {
      int b = c.i(0, nb - 1); bool force = c.i(0, 4) == 0; w << " add(b" << b << (force ? ",force)" : ")"); hx::at(w.str());
      bool known = std::count(in.begin(), in.end(), b) > 0; bool g = hasG[b]; for (int x : in) g = g || hasG[x];
      Est::ReturnValue r; bool t = thrown([&] { r = E.addBatch(bs[b], force); });
      HX("add-throws", t == (known || !g), w.str() << ": exception " << t << ", batch already held " << known << ", calibration group present " << g);
      if (t) { HX("throw-batches", held() == in, w.str() << ": an exception left batches " << hx::str(held()) << " instead of " << hx::str(in)); HX("throw-values", values() == v0 && differ(report(E), old, false) == "", w.str() << ": an exception changed the estimate"); if (held() != in) return; }
      else {
        double ig = 0.5 * (unscaled.log2Sum - log2); bool valid = !(o.checkValidity && (it == oo.maxIterations || J1 >= J0)), acc = ((ig > o.infoGainDelta || unscaled.svdRank > old.rt) && valid) || force;
        auto n = in; n.push_back(b); solved(w.str(), n);
        HX("decision", r.batchAccepted == acc, w.str() << ": accepted " << r.batchAccepted << " expected " << acc << " (gain " << ig << ", threshold " << o.infoGainDelta << ", rank " << unscaled.svdRank << " was " << old.rt << ", valid " << valid << ", force " << force << ")");
        Rep s = solution(ig, J0, J1, so.columnScaling); std::string d = differ(returned(r), s, true);
        HX("returned", d == "" && r.numIterations == (size_t)it, w.str() << ": returned value differs in " << d);
        if (acc) { in = n; log2 = unscaled.log2Sum; d = differ(report(E), s, false); HX("accepted-statistics", d == "", w.str() << ": reported statistics differ in " << d); HX("accepted-values", values() == after, w.str()); }
        else { d = differ(report(E), old, false); HX("rejected-statistics", d == "", w.str() << ": rejected batch changed " << d); HX("rejected-values", values() == v0, w.str() << ": rejected batch changed the design variables");
          std::vector<ab::DesignVariable*> xv; std::vector<ab::ErrorTerm*> xe; auto* P = const_cast<ac::IncrementalOptimizationProblem*>(E.getProblem());
          for (size_t i = 0; i < P->numDesignVariables(); ++i) if (P->designVariable(i)->isActive()) xv.push_back(P->designVariable(i));
          for (size_t i = 0; i < P->numErrorTerms(); ++i) xe.push_back(P->errorTerm(i));
          if (in.size()) { HX("rejected-system", inits > 0 && builds > 0 && sdv == xv && sets == xe, w.str() << ": linear system not restored");
            int col = 0, row = 0; bool ok = true; for (size_t i = 0; i < xv.size(); ++i) { ok = ok && xv[i]->blockIndex() == (int)i && xv[i]->columnBase() == col; col += xv[i]->minimalDimensions(); } for (auto e : xe) { ok = ok && (int)e->rowBase() == row; row += e->dimension(); }
            HX("rejected-layout", ok, w.str() << ": blocks, columns or rows not restored"); } }
        HX("batches", held() == in && E.getNumBatches() == in.size(), w.str() << ": batches " << hx::str(held()) << " expected " << hx::str(in)); if (held() != in) return;
      }
    } else if (in.empty()) continue;
    else if (op <= 7) {
      int k = c.i(0, in.size() - 1), b = in[k]; bool byp = c.coin(); w << (byp ? " remove(b" : " remove(index ") << (byp ? b : k) << ")"; hx::at(w.str());
      in.erase(in.begin() + k); bool g = false; for (int x : in) g = g || hasG[x];
      bool t = thrown([&] { if (byp) E.removeBatch(bs[b]); else E.removeBatch((size_t)k); });
      HX("removed", held() == in && t == !g, w.str() << ": batches " << hx::str(held()) << " expected " << hx::str(in) << ", exception " << t);
      if (held() != in) return;
      if (t) { HX("remove-throw-statistics", differ(report(E), old, false) == "", w.str()); } else { solved(w.str(), in); std::string d = differ(report(E), solution(0, J0, J1, so.columnScaling), false); HX("removed-statistics", d == "" && values() == after, w.str() << ": " << d); log2 = unscaled.log2Sum; }
    } else if (op == 8) {
      int b = c.i(0, nb - 1); if (std::count(in.begin(), in.end(), b)) continue; w << " remove(absent b" << b << ")"; hx::at(w.str());
      E.removeBatch(bs[b]); HX("remove-absent", held() == in && differ(report(E), old, false) == "" && values() == v0 && thrown([&] { E.removeBatch(in.size()); }) && held() == in, w.str());
    } else {
      w << " reoptimize"; hx::at(w.str()); bool g = false; for (int x : in) g = g || hasG[x]; Est::ReturnValue r;
      if (!g) continue;
      r = E.reoptimize(); solved(w.str(), in); Rep s = solution(0, J0, J1, so.columnScaling); std::string d = differ(report(E), s, false), d2 = differ(returned(r), s, true);
      HX("reoptimized", d == "" && d2 == "" && values() == after && held() == in && r.batchAccepted && r.numIterations == (size_t)it, w.str() << ": " << d << d2); log2 = unscaled.log2Sum;
    }
    L = w.str();
  }
}
static void configured() {
  auto& c = hx::C(); sm::PropertyTree t; std::ostringstream o; o.precision(17); o << "estimator from";
  const bool g = c.i(0, 5), a = c.coin(), b = c.coin(), d = c.coin(); const double gid = c.i(0, 7), ig = c.u(0, 3); const bool cv = c.coin(), vb = c.coin();
  if (g) t.values["groupId"] = gid;
  if (a) t.values["infoGainDelta"] = ig;
  if (b) t.values["checkValidity"] = cv;
  if (d) t.values["verbose"] = vb;
  const bool sc = c.coin(), cs = c.coin(); if (sc) t.values["optimizer/linearSolver/columnScaling"] = cs;
  for (auto& kv : t.values) o << " " << kv.first << "=" << kv.second;
  hx::at(o.str());
  try {
    ac::IncrementalEstimator e(t); const ac::IncrementalEstimator& k = e;
    HX("configured-group-required", g, o.str() << ": accepted without a calibration group");
    if (g) HX("configured-group", e.getMargGroupId() == (size_t)gid, o.str() << ": group " << e.getMargGroupId());
    HX("configured-options", k.getOptions().infoGainDelta == (a ? ig : 0.2) && k.getOptions().checkValidity == (b && cv) && k.getOptions().verbose == (d && vb), o.str() << ": infoGainDelta " << k.getOptions().infoGainDelta << " checkValidity " << k.getOptions().checkValidity << " verbose " << k.getOptions().verbose);
    HX("configured-solver", k.getLinearSolverOptions().columnScaling == (!sc || cs), o.str() << ": the linear solver is not the configured one");
    HX("configured-statistics", e.getInformationGain() == 0 && e.getRankPsi() == -1 && e.getRankTheta() == -1 && e.getRankPsiDeficiency() == -1 && e.getRankThetaDeficiency() == -1 && e.getInitialCost() == 0 && e.getFinalCost() == 0 && e.getNumBatches() == 0, o.str() << ": statistics of a new estimator");
  } catch (const std::exception& x) { HX("configured-refused", !g, o.str() << ": " << x.what()); }
}
int main() { hx::guard(); auto& c = hx::C(); do { configured(); for (int k = 0; k < 50; ++k) history(); } while (c.left()); return hx::done(); }
