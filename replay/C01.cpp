#include "core.h"
struct OP : ac::OptimizationProblem {};
struct Model {            // reference content
  std::map<size_t, std::vector<const ab::DesignVariable*>> groups; VZ order; std::vector<const ab::ErrorTerm*> ets; std::map<const ab::DesignVariable*, size_t> grp;
};
static std::string L;
static void compare(ac::OptimizationProblem& P, const Model& m, const std::vector<DVP>& dvs, const std::vector<ETP>& ets, const char* when) {
  const ac::OptimizationProblem& Q = P;
  std::string w = std::string(when) + " after " + L;
  HX("counts", P.numDesignVariables() == m.grp.size() && P.numErrorTerms() == m.ets.size() && P.getNumGroups() == m.groups.size(), w);
  HX("order", Q.getGroupsOrdering() == m.order, w);
  HX("groups", Q.getDesignVariablesGroups().size() == m.groups.size(), w);
  size_t idx = 0;
  for (size_t k = 0; k < m.order.size(); ++k) {
    size_t g = m.order[k]; const auto& v = m.groups.at(g);
    if (!P.isGroupInProblem(g)) { HX("group-member", false, w); return; }
    const auto& r = Q.getDesignVariablesGroup(g);
    bool ok = r.size() == v.size(); int dim = 0;
    for (size_t i = 0; i < v.size(); ++i) { ok = ok && r[i].get() == v[i]; if (v[i]->isActive()) dim += v[i]->minimalDimensions(); }
    HX("group-content", ok, w << " group " << g);
    HX("group-dim", (int)Q.getGroupDim(g) == dim, w << " group " << g << " dimension " << Q.getGroupDim(g) << " expected " << dim);
    for (size_t i = 0; i < v.size(); ++i, ++idx) {
      if (idx >= P.numDesignVariables()) break;
      HX("dv-index", P.designVariable(idx) == v[i] && Q.designVariable(idx) == v[i], w << " index " << idx);
    }
  }
  HX("dv-index-end", thrown([&] { P.designVariable(m.grp.size()); }) && thrown([&] { Q.designVariable(m.grp.size() + 3); }), w);
  for (size_t i = 0; i < m.ets.size() && i < P.numErrorTerms(); ++i) HX("et-index", P.errorTerm(i) == m.ets[i] && Q.errorTerm(i) == m.ets[i] && Q.getErrorTerms()[i].get() == m.ets[i], w << " index " << i);
  HX("et-index-end", thrown([&] { P.errorTerm(m.ets.size()); }) && thrown([&] { Q.errorTerm(m.ets.size() + 2); }), w);
  for (auto& d : dvs) {
    bool in = m.grp.count(d.get());
    HX("dv-member", Q.isDesignVariableInProblem(d.get()) == in, w << " variable " << d->id);
    if (in) { if (Q.isDesignVariableInProblem(d.get())) HX("dv-group", Q.getGroupId(d.get()) == m.grp.at(d.get()), w << " variable " << d->id); }
    else HX("dv-group-unknown", thrown([&] { Q.getGroupId(d.get()); }), w);
    std::set<ab::ErrorTerm*> S, E; ab::ErrorTerm* mark = ets[0].get(); S.insert(mark); E.insert(mark);
    P.getErrors(d.get(), S);
    for (auto e : m.ets) { const TET* t = static_cast<const TET*>(e); if (std::count(t->d.begin(), t->d.end(), d.get())) E.insert(const_cast<ab::ErrorTerm*>(e)); }
    HX("get-errors", S == E, w << " variable " << d->id);
  }
  for (auto& e : ets) HX("et-member", Q.isErrorTermInProblem(e.get()) == (std::count(m.ets.begin(), m.ets.end(), (const ab::ErrorTerm*)e.get()) > 0), w << " error term " << e->id);
  for (size_t g = 0; g < 6; ++g) { HX("group-known", Q.isGroupInProblem(g) == (m.groups.count(g) > 0), w << " group " << g);
    if (!m.groups.count(g)) HX("group-unknown", thrown([&] { Q.getDesignVariablesGroup(g); }) && thrown([&] { Q.getGroupDim(g); }) && thrown([&] { P.permuteDesignVariables(VZ(), g); }), w << " group " << g); }
}
static void history() {
  auto& c = hx::C();
  std::vector<DVP> dvs; std::vector<ETP> ets;
  int nd = c.i(1, 8), ne = c.i(1, 6);
  for (int i = 0; i < nd; ++i) dvs.push_back(mkdv(i));
  for (int i = 0; i < ne; ++i) { std::vector<ab::DesignVariable*> v; int k = c.i(0, 3); for (int j = 0; j < k; ++j) v.push_back(dvs[c.i(0, nd - 1)].get()); ets.push_back(ETP(new TET(i, v))); }
  OP P; Model m; L = "";
  int steps = c.i(5, 30);
  for (int s = 0; s < steps; ++s) {
    std::ostringstream o; int op = c.i(0, 15);
    if (op <= 5) {
      int i = c.i(0, nd - 1); size_t g = c.i(0, 4); o << " add(v" << i << ",g" << g << ")"; hx::at(L + o.str());
      bool bad = m.grp.count(dvs[i].get());
      bool t = thrown([&] { P.addDesignVariable(dvs[i], g); });
      HX("add-accept", t == bad, L << o.str() << " thrown " << t);
      if (!bad) { if (!m.groups.count(g)) m.order.push_back(g); m.groups[g].push_back(dvs[i].get()); m.grp[dvs[i].get()] = g; }
    } else if (op <= 9) {
      int i = c.i(0, ne - 1); o << " addError(e" << i << ":"; for (auto d : ets[i]->d) o << " v" << static_cast<TDV*>(d)->id; o << ")"; hx::at(L + o.str());
      bool bad = std::count(m.ets.begin(), m.ets.end(), (const ab::ErrorTerm*)ets[i].get());
      for (auto d : ets[i]->d) bad = bad || !m.grp.count(d);
      bool t = thrown([&] { P.addErrorTerm(ets[i]); });
      HX("add-error-accept", t == bad, L << o.str() << " thrown " << t);
      if (!bad) m.ets.push_back(ets[i].get());
    } else if (op == 10) {
      o << " add(null)"; hx::at(L + o.str());
      HX("null", thrown([&] { P.addDesignVariable(DVP(), c.i(0, 4)); }) && thrown([&] { P.addErrorTerm(ETP()); }), L);
    } else if (op <= 12) {
      VZ n = m.order; std::shuffle(n.begin(), n.end(), c.rng); int k = c.i(0, 4);
      if (k == 1 && n.size()) n[c.i(0, n.size() - 1)] = 7;
      if (k == 2 && n.size()) n[c.i(0, n.size() - 1)] = n[c.i(0, n.size() - 1)];
      if (k == 3) n.push_back(n.empty() ? 0 : n[0]);
      if (k == 4 && n.size()) n.pop_back();
      o << " order("; for (size_t x : n) o << x << " "; o << ")"; hx::at(L + o.str());
      VZ a = n, b = m.order; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      bool bad = a != b, t = thrown([&] { P.setGroupsOrdering(n); });
      HX("order-accept", t == bad, L << o.str() << " thrown " << t);
      if (!bad) m.order = n;
    } else if (op == 13) {
      VZ p = randperm(m.ets.size()); o << " permuteErrors("; for (size_t x : p) o << x << " "; o << ")"; hx::at(L + o.str());
      if (c.i(0, 3) == 0) { VZ q = p; q.push_back(q.size()); HX("permute-reject", thrown([&] { P.permuteErrorTerms(q); }), L << o.str()); }
      P.permuteErrorTerms(p); auto e = m.ets; for (size_t i = 0; i < p.size(); ++i) m.ets[i] = e[p[i]];
    } else if (op == 14 && m.order.size()) {
      size_t g = m.order[c.i(0, m.order.size() - 1)]; auto& v = m.groups[g]; VZ p = randperm(v.size());
      o << " permuteVariables(g" << g << ":"; for (size_t x : p) o << x << " "; o << ")"; hx::at(L + o.str());
      P.permuteDesignVariables(p, g); auto e = v; for (size_t i = 0; i < p.size(); ++i) v[i] = e[p[i]];
    } else if (op == 15 && c.i(0, 3) == 0) { o << " clear"; hx::at(L + o.str()); P.clear(); m = Model(); }
    L += o.str();
    compare(P, m, dvs, ets, "content");
  }
}
int main() { hx::guard(); auto& c = hx::C(); do for (int k = 0; k < 20; ++k) history(); while (c.left()); return hx::done(); }
