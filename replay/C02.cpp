#include "core.h"
#include "aslam/calibration/core/IncrementalOptimizationProblem.h"
struct OP : ac::OptimizationProblem {};
struct IP : ac::IncrementalOptimizationProblem {};
typedef ac::IncrementalOptimizationProblem::OptimizationProblemSP BP;
typedef const ab::DesignVariable* DVp;
static std::string L;
struct World { std::vector<DVP> dvs; std::vector<ETP> ets; std::vector<BP> bs; };
static std::string show(const World& w, int b) {
  std::ostringstream o; o << "b" << b << "{";
  for (auto& g : w.bs[b]->getDesignVariablesGroups()) { o << " g" << g.first << ":"; for (auto& d : g.second) o << "v" << static_cast<TDV*>(d.get())->id; }
  for (auto& e : w.bs[b]->getErrorTerms()) o << " e" << static_cast<TET*>(e.get())->id;
  o << " }"; return o.str();
}
static void compare(IP& P, const std::vector<int>& in, const World& w) {
  const bool rej = hx::C().i(0, 5) == 0;      // exceptions are slow
  const IP& Q = P; std::string s = "content after " + L;
  std::map<DVp, size_t> grp; std::map<size_t, std::set<DVp>> groups; std::vector<const ab::ErrorTerm*> ets; std::set<const ab::ErrorTerm*> es;
  for (int b : in) { for (auto& g : w.bs[b]->getDesignVariablesGroups()) for (auto& d : g.second) { grp[d.get()] = g.first; groups[g.first].insert(d.get()); }
    for (auto& e : w.bs[b]->getErrorTerms()) { ets.push_back(e.get()); es.insert(e.get()); } }
  HX("batches", P.getNumOptimizationProblems() == in.size() && Q.getOptimizationProblems().size() == in.size(), s);
  for (size_t i = 0; i < in.size() && i < P.getNumOptimizationProblems(); ++i) {
    HX("batch-at", P.getOptimizationProblem(i) == w.bs[in[i]].get() && Q.getOptimizationProblem(i) == w.bs[in[i]].get() && Q.getOptimizationProblems()[i] == w.bs[in[i]]
       && P.getOptimizationProblem(P.getOptimizationProblemBegin() + i) == w.bs[in[i]].get() && Q.getOptimizationProblem(Q.getOptimizationProblems().begin() + i) == w.bs[in[i]].get(), s << " batch " << i);
    HX("batch-errors", Q.getErrorTerms(i) == w.bs[in[i]]->getErrorTerms(), s << " batch " << i);
    HX("batch-find", P.getOptimizationProblem(w.bs[in[i]]) == P.getOptimizationProblemBegin() + (std::find(in.begin(), in.end(), in[i]) - in.begin()), s << " batch " << i);
  }
  HX("batch-end", P.getOptimizationProblemEnd() - P.getOptimizationProblemBegin() == (long)in.size(), s);
  if (rej) HX("batch-reject", thrown([&] { P.getOptimizationProblem(P.getOptimizationProblemEnd()); }) && thrown([&] { Q.getErrorTerms(in.size()); }) && thrown([&] { P.getOptimizationProblem(in.size()); }), s);
  for (size_t b = 0; b < w.bs.size(); ++b) if (!std::count(in.begin(), in.end(), (int)b)) HX("batch-absent", P.getOptimizationProblem(w.bs[b]) == P.getOptimizationProblemEnd(), s << " batch b" << b);
  HX("counts", P.numDesignVariables() == grp.size() && P.numErrorTerms() == ets.size() && Q.getNumGroups() == groups.size(), s << " variables " << P.numDesignVariables() << " expected " << grp.size() << ", error terms " << P.numErrorTerms() << " expected " << ets.size() << ", groups " << Q.getNumGroups() << " expected " << groups.size());
  VZ order = Q.getGroupsOrdering(); std::set<size_t> og(order.begin(), order.end());
  bool ok = order.size() == groups.size() && og.size() == order.size() && Q.getDesignVariablesGroups().size() == groups.size();
  for (auto& g : groups) ok = ok && og.count(g.first);
  HX("order", ok, s << " order " << hx::str(order));
  if (!ok) return;
  size_t idx = 0;
  for (size_t g : order) {
    if (!P.isGroupInProblem(g)) { HX("group-member", false, s << " group " << g); return; }
    const auto& v = Q.getDesignVariablesGroup(g); std::set<DVp> sv(v.begin(), v.end()); int dim = 0;
    for (auto d : groups[g]) if (d->isActive()) dim += d->minimalDimensions();
    HX("group-content", v.size() == sv.size() && sv == groups[g] && Q.getDesignVariablesGroups().at(g) == v, s << " group " << g);
    HX("group-dim", (int)Q.getGroupDim(g) == dim, s << " group " << g << " dimension " << Q.getGroupDim(g) << " expected " << dim);
    for (size_t i = 0; i < v.size(); ++i, ++idx) { if (idx >= P.numDesignVariables()) break; HX("dv-index", P.designVariable(idx) == v[i] && Q.designVariable(idx) == v[i], s << " index " << idx); }
  }
  if (rej) HX("dv-index-end", thrown([&] { P.designVariable(grp.size()); }) && thrown([&] { Q.designVariable(grp.size() + 2); }), s);
  for (size_t i = 0; i < ets.size() && i < P.numErrorTerms(); ++i) HX("et-index", P.errorTerm(i) == ets[i] && Q.errorTerm(i) == ets[i], s << " index " << i);
  if (rej) HX("et-index-end", thrown([&] { P.errorTerm(ets.size()); }) && thrown([&] { Q.errorTerm(ets.size() + 1); }), s);
  for (auto& d : w.dvs) { bool in_ = grp.count(d.get()), r = Q.isDesignVariableInProblem(d.get());
    HX("dv-member", r == in_, s << " variable v" << d->id);
    if (in_ && r) HX("dv-group", Q.getGroupId(d.get()) == grp[d.get()], s << " variable v" << d->id);
    if (!in_ && rej) HX("dv-group-unknown", thrown([&] { Q.getGroupId(d.get()); }), s); }
  for (auto& e : w.ets) HX("et-member", Q.isErrorTermInProblem(e.get()) == (es.count(e.get()) > 0), s << " error term e" << e->id);
  for (size_t g = 0; g < 6; ++g) { HX("group-known", Q.isGroupInProblem(g) == (groups.count(g) > 0), s << " group " << g);
    if (!groups.count(g) && rej) HX("group-unknown", thrown([&] { Q.getDesignVariablesGroup(g); }) && thrown([&] { Q.getGroupDim(g); }) && thrown([&] { P.permuteDesignVariables(VZ(), g); }), s << " group " << g); }
  std::set<ab::ErrorTerm*> S; if (rej && w.dvs.size()) HX("get-errors", thrown([&] { P.getErrors(w.dvs[0].get(), S); }), s);
}
static void history() {
  auto& c = hx::C(); World w; L = "";
  int nd = c.i(1, 7), ne = c.i(1, 8), nb = c.i(1, 6), ng = c.i(1, 4); bool odd = c.i(0, 2) == 0;
  std::vector<size_t> home;
  for (int i = 0; i < nd; ++i) { w.dvs.push_back(mkdv(i)); home.push_back(c.i(0, ng - 1)); }
  for (int b = 0, e = 0; b < nb; ++b) {
    BP p(new OP); std::vector<int> has;
    for (int i = 0; i < nd; ++i) if (c.i(0, 1)) has.push_back(i);
    std::shuffle(has.begin(), has.end(), c.rng);
    for (int i : has) p->addDesignVariable(w.dvs[i], odd && c.i(0, 9) == 0 ? c.i(0, ng) : home[i]);
    for (int k = c.i(0, 3); k > 0 && (int)w.ets.size() < ne; --k) { std::vector<ab::DesignVariable*> v; if (has.size()) for (int j = c.i(0, 2); j > 0; --j) v.push_back(w.dvs[has[c.i(0, has.size() - 1)]].get()); w.ets.push_back(ETP(new TET(e++, v))); p->addErrorTerm(w.ets.back()); }
    if (odd && w.ets.size() && c.i(0, 2) == 0) { ETP e2 = w.ets[c.i(0, w.ets.size() - 1)]; thrown([&] { p->addErrorTerm(e2); }); }
    w.bs.push_back(p);
  }
  IP P; std::vector<int> in; for (int b = 0; b < nb; ++b) L += show(w, b) + " ";
  L += "|";
  for (int steps = c.i(4, 25); steps > 0; --steps) {
    std::ostringstream o; int op = c.i(0, 11);
    if (op <= 4) {
      int b = c.i(0, nb - 1); o << " add(b" << b << ")"; hx::at(L + o.str());
      bool bad = false; std::map<DVp, size_t> grp; std::set<const ab::ErrorTerm*> es;
      for (int x : in) { for (auto& g : w.bs[x]->getDesignVariablesGroups()) for (auto& d : g.second) grp[d.get()] = g.first; for (auto& e : w.bs[x]->getErrorTerms()) es.insert(e.get()); }
      for (auto& g : w.bs[b]->getDesignVariablesGroups()) for (auto& d : g.second) if (grp.count(d.get()) && grp[d.get()] != g.first) bad = true;
      for (auto& e : w.bs[b]->getErrorTerms()) if (es.count(e.get())) bad = true;
      bool t = thrown([&] { P.add(w.bs[b]); });
      HX("add-accept", t == bad, L << o.str() << " thrown " << t);
      if (!t) in.push_back(b);
    } else if (op <= 7 && in.size()) {
      int k = c.i(0, in.size() - 1), how = c.i(0, 2);
      if (how == 2) k = std::find(in.begin(), in.end(), in[k]) - in.begin();
      o << " remove" << (how == 0 ? "(it " : how == 1 ? "(index " : "(batch at ") << k << ")"; hx::at(L + o.str());
      bool t = thrown([&] { if (how == 0) P.remove(P.getOptimizationProblemBegin() + k); else if (how == 1) P.remove((size_t)k); else P.remove(w.bs[in[k]]); });
      HX("remove-accept", !t, L << o.str());
      in.erase(in.begin() + k);
    } else if (op == 8) {
      o << " rejected"; hx::at(L + o.str());
      HX("add-null", thrown([&] { P.add(BP()); }), L);
      HX("remove-end", thrown([&] { P.remove(P.getOptimizationProblemEnd()); }), L); HX("remove-index", thrown([&] { P.remove(in.size()); }), L);
      for (int b = 0; b < nb; ++b) if (!std::count(in.begin(), in.end(), b)) HX("remove-absent", thrown([&] { P.remove(w.bs[b]); }), L << " batch b" << b);
    } else if (op == 9) {
      VZ cur = P.getGroupsOrdering(), n = cur; std::shuffle(n.begin(), n.end(), c.rng); int k = c.i(0, 5);
      if (k == 1 && n.size()) n[c.i(0, n.size() - 1)] = 7;
      if (k == 2 && n.size()) n[c.i(0, n.size() - 1)] = n[c.i(0, n.size() - 1)];
      if (k == 3) n.push_back(n.empty() ? 0 : n[0]);
      if (k == 4 && n.size()) n.pop_back();
      o << " order" << hx::str(n); hx::at(L + o.str());
      VZ a = n, b = cur; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      bool t = thrown([&] { P.setGroupsOrdering(n); });
      HX("order-accept", t == (a != b), L << o.str() << " thrown " << t); HX("order-set", P.getGroupsOrdering() == (t ? cur : n), L << o.str());
    } else if (op == 10) {
      VZ p = randperm(in.size()); o << " permuteBatches" << hx::str(p); hx::at(L + o.str());
      if (c.i(0, 3) == 0) { VZ q = p; q.push_back(q.size()); HX("permute-reject", thrown([&] { P.permuteOptimizationProblems(q); }), L << o.str()); }
      P.permuteOptimizationProblems(p); auto e = in; for (size_t i = 0; i < p.size(); ++i) in[i] = e[p[i]];
    } else if (P.getGroupsOrdering().size()) {
      VZ ord = P.getGroupsOrdering(); size_t g = ord[c.i(0, ord.size() - 1)]; auto v = P.getDesignVariablesGroup(g); VZ p = randperm(v.size());
      o << " permuteVariables(g" << g << ":" << hx::str(p) << ")"; hx::at(L + o.str());
      P.permuteDesignVariables(p, g); auto n = P.getDesignVariablesGroup(g); bool ok = n.size() == v.size(); for (size_t i = 0; ok && i < p.size(); ++i) ok = n[i] == v[p[i]];
      HX("permute-variables", ok, L << o.str());
    }
    if (c.i(0, 40) == 0) { o << " clear"; hx::at(L + o.str()); P.clear(); in.clear(); }
    L += o.str();
    compare(P, in, w);
  }
}
int main() { hx::guard(); auto& c = hx::C(); do for (int k = 0; k < 20; ++k) history(); while (c.left()); return hx::done(); }
