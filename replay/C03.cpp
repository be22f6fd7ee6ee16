#include "core.h"
#include "aslam/calibration/core/IncrementalOptimizationProblem.h"
struct OP : ac::OptimizationProblem {};
struct IP : ac::IncrementalOptimizationProblem {};
typedef ac::IncrementalOptimizationProblem::OptimizationProblemSP BP;
static std::string L;
static std::map<int, Eigen::MatrixXd> saved; static std::set<int> held0;       // expected values, by variable
static void change(std::vector<DVP>& dvs) { auto& c = hx::C(); for (auto& d : dvs) if (c.i(0, 2)) { for (int i = 0; i < d->v.rows(); ++i) d->v(i) = c.i(0, 3) ? c.u(-1e3, 1e3) : c.i(-2, 2); } }
template <class P> std::set<int> held(const P& p, const std::vector<DVP>& dvs) { std::set<int> h; for (auto& d : dvs) if (p.isDesignVariableInProblem(d.get())) h.insert(d->id); return h; }
template <class P> void prune(const P& p, const std::vector<DVP>& dvs) { auto h = held(p, dvs); for (auto it = saved.begin(); it != saved.end();) if (h.count(it->first)) ++it; else it = saved.erase(it); }
template <class P> void step(P& p, std::vector<DVP>& dvs) {
  auto& c = hx::C(); int op = c.i(0, 2);
  if (op == 0) { L += " save"; hx::at(L); std::vector<Eigen::MatrixXd> b; for (auto& d : dvs) b.push_back(d->v); p.saveDesignVariables(); auto h = held(p, dvs);
    for (auto& d : dvs) { HX("save-touches", d->v == b[d->id], L << " variable v" << d->id); if (h.count(d->id)) saved[d->id] = d->v; }
  } else if (op == 1) { L += " change"; hx::at(L); change(dvs); }
  else { L += " restore"; hx::at(L); std::vector<Eigen::MatrixXd> b; for (auto& d : dvs) b.push_back(d->v); p.restoreDesignVariables();
    for (auto& d : dvs) { bool s = saved.count(d->id); HX(s ? "restored" : "restore-touches", d->v == (s ? saved[d->id] : b[d->id]), L << " variable v" << d->id << " is " << d->v.transpose() << " expected " << (s ? saved[d->id] : b[d->id]).transpose()); } }
}
static void plain() {
  auto& c = hx::C(); std::vector<DVP> dvs; int nd = c.i(1, 6); for (int i = 0; i < nd; ++i) dvs.push_back(mkdv(i));
  OP P; saved.clear(); L = "OptimizationProblem:"; change(dvs);
  for (int s = c.i(3, 20); s > 0; --s) {
    if (c.i(0, 2) == 0) { std::ostringstream o; int k = c.i(0, 5);
      if (k <= 2) { int i = c.i(0, nd - 1); o << " add(v" << i << ")"; L += o.str(); hx::at(L); thrown([&] { P.addDesignVariable(dvs[i], c.i(0, 2)); }); }
      else if (k == 3) { VZ n = P.getGroupsOrdering(); std::shuffle(n.begin(), n.end(), c.rng); L += " reorder"; hx::at(L); P.setGroupsOrdering(n); }
      else if (k == 4 && P.getGroupsOrdering().size()) { size_t g = P.getGroupsOrdering()[0]; L += " permute"; hx::at(L); P.permuteDesignVariables(randperm(P.getDesignVariablesGroup(g).size()), g); }
      else if (c.i(0, 5) == 0) { L += " clear"; hx::at(L); P.clear(); saved.clear(); }
    } else step(P, dvs);
  }
}
static void incremental() {
  auto& c = hx::C(); std::vector<DVP> dvs; int nd = c.i(1, 6), nb = c.i(1, 5); std::vector<size_t> home; for (int i = 0; i < nd; ++i) { dvs.push_back(mkdv(i)); home.push_back(c.i(0, 2)); }
  std::vector<BP> bs; std::ostringstream o; o << "IncrementalOptimizationProblem:";
  for (int b = 0; b < nb; ++b) { BP p(new OP); o << " b" << b << "{"; for (int i = 0; i < nd; ++i) if (c.i(0, 1)) { p->addDesignVariable(dvs[i], home[i]); o << " v" << i; } o << " }"; bs.push_back(p); }
  L = o.str() + " |"; IP P; saved.clear(); change(dvs);
  for (int s = c.i(3, 25); s > 0; --s) {
    int n = P.getNumOptimizationProblems();
    if (c.i(0, 1) == 0) { std::ostringstream o; int k = c.i(0, 7);
      if (k <= 2) { int i = c.i(0, nb - 1); o << " add(b" << i << ")"; L += o.str(); hx::at(L); P.add(bs[i]); }
      else if (k <= 4 && n) { int i = c.i(0, n - 1); o << " remove(" << i << ")"; L += o.str(); hx::at(L); P.remove((size_t)i); prune(P, dvs); }
      else if (k == 5) { VZ n = P.getGroupsOrdering(); std::shuffle(n.begin(), n.end(), c.rng); L += " reorder"; hx::at(L); P.setGroupsOrdering(n); }
      else if (k == 6) { L += " permute"; hx::at(L); P.permuteOptimizationProblems(randperm(n)); }
      else if (c.i(0, 5) == 0) { L += " clear"; hx::at(L); P.clear(); saved.clear(); }
    } else step(P, dvs);
  }
}
int main() { hx::guard(); auto& c = hx::C(); do for (int k = 0; k < 20; ++k) { plain(); incremental(); } while (c.left()); return hx::done(); }
