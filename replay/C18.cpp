#include "common.h"
#include <set>
#include <Eigen/Dense>
#include <cholmod.h>
// CHOLMOD stand-ins: a real (dense-checked) transposition, with every matrix handed out tracked
static std::set<cholmod_sparse*> live; static int handed, freedTwice; static bool refuse;
struct Own { std::vector<SuiteSparse_long> p, i; std::vector<double> x; };
extern "C" cholmod_sparse* cholmod_l_transpose(cholmod_sparse* A, int mode, cholmod_common*) {
  if (refuse || !A) return nullptr;
  const SuiteSparse_long* Ap = (SuiteSparse_long*)A->p; const SuiteSparse_long* Ai = (SuiteSparse_long*)A->i; const double* Ax = (double*)A->x;
  Own* o = new Own; o->p.assign(A->nrow + 1, 0); o->x.reserve(64);
  for (size_t r = 0; r < A->nrow; ++r) { for (size_t c = 0; c < A->ncol; ++c) for (SuiteSparse_long k = Ap[c]; k < Ap[c + 1]; ++k) if (size_t(Ai[k]) == r) { o->i.push_back(c); o->x.push_back(mode ? Ax[k] : 1.0); } o->p[r + 1] = o->i.size(); }
  cholmod_sparse* B = new cholmod_sparse; *B = *A; B->nrow = A->ncol; B->ncol = A->nrow; B->p = o->p.data(); B->i = o->i.data(); B->x = mode ? o->x.data() : nullptr; B->xtype = mode ? CHOLMOD_REAL : CHOLMOD_PATTERN; B->z = o; B->nzmax = o->x.size();
  live.insert(B); ++handed; return B; }
extern "C" int cholmod_l_free_sparse(cholmod_sparse** A, cholmod_common*) {
  if (!A || !*A) return 1;
  if (!live.erase(*A)) { ++freedTwice; *A = nullptr; return 1; }
  delete (Own*)(*A)->z; delete *A; *A = nullptr; return 1; }
#include "aslam_tsvd_solver/src/aslam-tsvd-solver.cc"
using namespace aslam::backend; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static hx::Ctx& c() { return hx::C(); }
struct S : AslamTruncatedSvdSolver {
  using AslamTruncatedSvdSolver::AslamTruncatedSvdSolver;
  V& e() { return _e; } CompressedColumnMatrix<std::ptrdiff_t>& Jt() { return const_cast<CompressedColumnMatrix<std::ptrdiff_t>&>(getJacobianTranspose()); }
  void init(const std::vector<DesignVariable*>& d, const std::vector<ErrorTerm*>& t, bool b) { initMatrixStructureImplementation(d, t, b); } };
static M dense(cholmod_sparse* A) { M D = M::Zero(A->nrow, A->ncol); if (!A->x) return M(); for (size_t k = 0; k < A->ncol; ++k) for (SuiteSparse_long j = ((SuiteSparse_long*)A->p)[k]; j < ((SuiteSparse_long*)A->p)[k + 1]; ++j) D(((SuiteSparse_long*)A->i)[j], k) += ((double*)A->x)[j]; return D; }
struct Rec : truncated_svd_solver::TruncatedSvdSolver::Hook {
  int solves = 0, analyses = 0, clears = 0; bool dead = false; M A; V b, x; std::ptrdiff_t j = -7;
  void solve(cholmod_sparse_struct* a, cholmod_dense_struct* e, std::ptrdiff_t k, V& dx) override { ++solves; j = k; if (!live.count(a)) { dead = true; return; } A = dense(a); b = Eigen::Map<V>((double*)e->x, e->nrow); dx = x; }
  void analyze(cholmod_sparse_struct* a, std::ptrdiff_t k) override { ++analyses; j = k; if (!live.count(a)) { dead = true; return; } A = dense(a); }
  void cleared() override { ++clears; } };
static V vec(int n) { V v(n); for (int i = 0; i < n; ++i) v(i) = c().u(-5, 5); return v; }
int main() {
  hx::guard();
  std::ostringstream sink; std::streambuf* keep = std::cout.rdbuf(sink.rdbuf());
  do for (int rep = 0; rep < 200; ++rep) {
    truncated_svd_solver::TruncatedSvdSolverOptions o, d; sm::PropertyTree t;
    const char* names[] = {"columnScaling", "epsNorm", "epsSVD", "epsQR", "svdTol", "qrTol", "verbose"}; double v[7]; bool has[7]; const double df[7] = {double(d.columnScaling), d.epsNorm, d.epsSVD, d.epsQR, d.svdTol, d.qrTol, double(d.verbose)};
    for (int k = 0; k < 7; ++k) { v[k] = k == 0 || k == 6 ? c().i(0, 1) : c().u(0, 1); has[k] = c().coin(); if (has[k]) t.values[names[k]] = v[k]; }
    o.columnScaling = v[0]; o.epsNorm = v[1]; o.epsSVD = v[2]; o.epsQR = v[3]; o.svdTol = v[4]; o.qrTol = v[5]; o.verbose = v[6];
    S s(o); const auto& g = s.getOptions(); double a[7] = {double(g.columnScaling), g.epsNorm, g.epsSVD, g.epsQR, g.svdTol, g.qrTol, double(g.verbose)};
    for (int k = 0; k < 7; ++k) HX("options", a[k] == v[k], names[k] << " given " << v[k] << " kept " << a[k]);
    { S p(t); const auto& h = p.getOptions(); double b[7] = {double(h.columnScaling), h.epsNorm, h.epsSVD, h.epsQR, h.svdTol, h.qrTol, double(h.verbose)};
      for (int k = 0; k < 7; ++k) HX("properties", b[k] == (has[k] ? v[k] : df[k]), names[k] << (has[k] ? " present " : " absent ") << "value " << b[k]); }
    Rec r; s.hook = &r; handed = freedTwice = 0; live.clear();
    const int n = c().i(1, 5), m = c().i(1, 6); M J = M::Zero(m, n);
    auto& Jt = s.Jt(); Jt.nrow = n; Jt.ncol = m; Jt.p.assign(1, 0); Jt.i.clear(); Jt.x.clear();
    for (int k = 0; k < m; ++k) { for (int q = 0; q < n; ++q) if (c().coin()) { double w = c().u(-3, 3); J(k, q) = w; Jt.i.push_back(q); Jt.x.push_back(w); } Jt.p.push_back(Jt.i.size()); }
    s.e() = vec(m); const V e0 = s.e(); const std::ptrdiff_t mj = c().i(0, n); s.setMargStartIndex(mj);
    for (int step = c().i(1, 4); step > 0; --step) {
      const int what = c().i(0, 4);  r.dead = false; refuse = c().i(0, 3) == 0; hx::at("step " + std::to_string(what) + " on a " + std::to_string(m) + "x" + std::to_string(n) + " system, marginal start " + std::to_string(mj) + (refuse ? ", transposition refused" : "") + (o.verbose ? ", verbose" : "") + " #" + std::to_string(hx::C().cases)); const int s0 = r.solves, a0 = r.analyses, c0 = r.clears;
      if (what == 0) { V dx = vec(n), old = dx; r.x = vec(n); bool ok = s.solveSystem(dx);
        HX("solve-result", ok == !refuse, "returned " << ok << " transposition " << (refuse ? "refused" : "done"));
        HX("solve-once", r.solves == s0 + !refuse && r.analyses == a0 && r.clears == c0, "decomposition called " << r.solves - s0 << " times");
        if (ok) { HX("solve-system", !r.dead && r.A.rows() == m && r.A.cols() == n && r.A == J && r.b == e0, "solved with " << r.A << " | " << r.b.transpose()); HX("solve-columns", r.j == mj, "marginal columns from " << r.j << " not " << mj); HX("solve-solution", dx == r.x, "solution changed"); }
        else HX("solve-failed", dx == old, "solution changed by a failure"); }
      else if (what == 1) { bool ok = s.analyzeMarginal();
        HX("analyze-result", ok == !refuse, "returned " << ok << " transposition " << (refuse ? "refused" : "done"));
        HX("analyze-once", r.analyses == a0 + !refuse && r.solves == s0 && r.clears == c0, "analysis called " << r.analyses - a0 << " times");
        if (ok) { HX("analyze-system", !r.dead && r.A.rows() == m && r.A.cols() == n && r.A == J, "analysed " << r.A); HX("analyze-columns", r.j == mj, "marginal columns from " << r.j << " not " << mj); } }
      else if (what == 2) { const size_t th = c().i(1, 8); const bool me = c().coin(); s.buildSystem(th, me); const auto& l = s.jacobian_builder_.log; HX("build", l.threads == th && l.mest == me && r.solves == s0 && r.analyses == a0, "built with " << l.threads << " threads, robust " << l.mest); }
      else if (what == 3) { std::vector<DesignVariable*> dv; std::vector<ErrorTerm*> et; for (int k = c().i(0, 3); k > 0; --k) { dv.push_back((DesignVariable*)(size_t)(16 * k)); et.push_back((ErrorTerm*)(size_t)(32 * k + 16)); }
        const bool diag = c().coin(); bool refused = false; const int i0 = s.jacobian_builder_.log.inits; try { s.init(dv, et, diag); } catch (const google::CheckFailed&) { refused = true; }
        HX("structure", refused == diag, (diag ? "diagonal conditioning accepted" : "plain structure refused"));
        if (!refused) HX("structure", r.clears == c0 + 1 && s.jacobian_builder_.log.inits == i0 + 1 && s.jacobian_builder_.log.dvs == dv && s.jacobian_builder_.log.errors == et, "structure set " << s.jacobian_builder_.log.inits - i0 << " times for " << s.jacobian_builder_.log.dvs.size() << " variables, dropped " << r.clears - c0);
        else HX("structure", s.jacobian_builder_.log.inits == i0, "structure set although refused"); }
      else HX("steepest-descent", s.rhsJtJrhs() == 0, "value " << s.rhsJtJrhs());
      HX("released", live.empty() && !freedTwice, live.size() << " matrices leaked, " << freedTwice << " freed twice");
      HX("system-kept", s.e() == e0 && s.getMargStartIndex() == mj && &s.getJacobianTranspose() == &Jt, "the system changed");
    }
    sink.str(""); 
  } while (c().left());
  std::cout.rdbuf(keep);
  return hx::done();
}
