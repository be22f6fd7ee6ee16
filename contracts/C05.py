from vc.util import *

CODE = '''
#include <vector>
#include <cstddef>
#include "aslam/calibration/algorithms/permute.h"
namespace aslam { namespace calibration {
template void permute<double, std::size_t>(std::vector<double>&, const std::vector<std::size_t>&);
template void permute<int, int>(std::vector<int>&, const std::vector<int>&);
template void permute<long, std::ptrdiff_t>(std::vector<long>&, const std::vector<std::ptrdiff_t>&);
} }
'''


class PermLoop(Loop):
    """in-place cycle chasing: ghost map g sends an index to the current location its element has been moved to
    (chasing the permutation below i), d is the remaining chase length."""
    def __init__(self, con):
        self.con = con

    def ctx(self, s):
        c = s.store[('obj', 'arg0')]
        p = s.store[('obj', 'arg1')]
        return c, p

    def used(self, s, i):
        q = self.con.q
        p = self.con.p0
        return And(0 <= q[s], q[s] < i, p.a[q[s]] == s)

    def ghost_init(self, lc):
        if lc.depth == 0:
            k = z3.Int('k')
            lc.add_ghost('g', z3.Lambda([k], k))
            g = z3.Const(fname('g0'), z3.ArraySort(I, I))
            d = z3.Const(fname('d0'), z3.ArraySort(I, I))
            lc.entry.assume(fa(lambda x: And(g[x] == x, d[x] == 0), lambda x: [g[x], d[x]]))
            lc.add_ghost('g', g)
            lc.add_ghost('d', d)

    def ghost_step(self, lc, t):
        if lc.depth != 0:
            return
        cur = self.cursor(lc)
        if cur is None:
            return
        i = cur(t) - 1
        p = self.con.p0
        g, d = t.store[('ghost', 'g')], t.store[('ghost', 'd')]
        g2 = z3.Const(fname('g'), g.sort())
        d2 = z3.Const(fname('d'), d.sort())
        t.assume(fa(lambda x: g2[x] == If(g[x] == i, g[p.a[i]], g[x]), lambda x: g2[x]))
        t.assume(fa(lambda x: d2[x] == If(And(g[x] == i, g[p.a[i]] != i), d[x] + d[p.a[i]] + 1, d[x]), lambda x: d2[x]))
        t.store[('ghost', 'g')], t.store[('ghost', 'd')] = g2, d2

    def cursor(self, lc):
        cs = lc.cursors()
        return cs[0][1] if cs else None

    def cands(self, lc):
        out = []
        c0, p0, q = self.con.c0, self.con.p0, self.con.q
        N = p0.n
        vecs = lc.vars(lambda v: isinstance(v, VecV) and v.a.sort() == c0.a.sort())
        if lc.depth == 0:
            for (nm, cur) in lc.cursors():
                for rp in vecs:
                    def i1(s, rp=rp, cur=cur):
                        v = lc.get(s, rp)
                        return fa(lambda j: Imp(And(0 <= j, j < cur(s)), v.a[j] == c0.a[p0.a[j]]), lambda j: v.a[j])
                    out.append(('permuted-prefix', i1))
                    out.append(('same-length', lambda s, rp=rp: lc.get(s, rp).n == c0.n))
                out.append(('range-prefix', lambda s, cur=cur: fa(lambda j: Imp(And(0 <= j, j < cur(s)), And(0 <= p0.a[j], p0.a[j] < N)), lambda j: p0.a[j])))
                G = lambda s: s.store[('ghost', 'g')]
                D = lambda s: s.store[('ghost', 'd')]
                for rp in vecs:
                    def i2(s, rp=rp, cur=cur):
                        v, g = lc.get(s, rp), G(s)
                        return fa(lambda x: Imp(And(0 <= x, x < N, Not(self.used(x, cur(s)))), And(cur(s) <= g[x], g[x] < N, v.a[g[x]] == c0.a[x])), lambda x: [g[x]])
                    out.append(('element-at-g', i2))
                out.append(('g-fix', lambda s, cur=cur: fa(lambda x: Imp(And(cur(s) <= x, x < N), G(s)[x] == x), lambda x: G(s)[x])))
                out.append(('g-chase', lambda s, cur=cur: fa(lambda x: Imp(And(0 <= x, x < cur(s)), G(s)[x] == G(s)[p0.a[x]]), lambda x: G(s)[x])))
                out.append(('g-inj', lambda s, cur=cur: fa(lambda x, y: Imp(And(0 <= x, x < N, 0 <= y, y < N, Not(self.used(x, cur(s))), Not(self.used(y, cur(s))), G(s)[x] == G(s)[y]), x == y),
                                                       lambda x, y: z3.MultiPattern(G(s)[x], G(s)[y]), n=2)))
                out.append(('d-pos', lambda s: fa(lambda x: D(s)[x] >= 0, lambda x: D(s)[x])))
                out.append(('d-dec', lambda s, cur=cur: fa(lambda x: Imp(And(0 <= x, x < cur(s), G(s)[x] >= cur(s)), D(s)[x] > D(s)[p0.a[x]]), lambda x: D(s)[x])))
        else:
            for (nm, cur) in lc.cursors():
                e0 = cur(lc.entry)
                g = lc.entry.store.get(('ghost', 'g'))
                if g is None:
                    continue
                out.append(('chase-same-target', lambda s, cur=cur: g[cur(s)] == g[e0]))
                out.append(('chase-in-range', lambda s, cur=cur: And(0 <= cur(s), cur(s) < N)))
        return out

    def variant(self, lc):
        if lc.depth == 0:
            return None
        d = lc.entry.store.get(('ghost', 'd'))
        if d is None:
            return None
        out = [('chase length ' + nm, lambda s, cur=cur: d[cur(s)]) for (nm, cur) in lc.cursors()]
        return (out + self.generic(lc)) if out else None

    def generic(self, lc):
        return lc.eng.generic_variants(lc.entry, lc.mods, lc.cond)


def permute_contract(tag, sig):
    con = Contract('permute<%s>' % tag, ('permute', 2, sig), exc=('OutOfBoundException',))
    def setup(env):
        con.c0 = env.st.store[('obj', 'arg0')]
        con.p0 = env.st.store[('obj', 'arg1')]
        con.q = z3.Const(fname('q'), z3.ArraySort(I, I))
    con.setup = setup
    con._pre = lambda cc: [
        # the entries are pairwise distinct (q is a left inverse of the permutation vector)
        ('distinct entries', fa(lambda x: Imp(And(0 <= x, x < con.p0.n), con.q[con.p0.a[x]] == x), lambda x: con.p0.a[x]))]
    def post(cx, exc):
        c, c0, p = cx.new_args[0], con.c0, con.p0
        inr = lambda x: And(0 <= p.a[x], p.a[x] < c0.n)
        valid = And(c0.n == p.n, fa(lambda x: Imp(And(0 <= x, x < p.n), inr(x)), lambda x: p.a[x]))
        if exc is None:
            return [('length preserved', c.n == c0.n),
                    ('element j is the former element permutation[j]', fa(lambda j: Imp(And(0 <= j, j < c0.n), c.a[j] == c0.a[p.a[j]]), lambda j: c.a[j])),
                    ('only valid permutation vectors are accepted', valid)]
        return [('only invalid permutation vectors are rejected', Not(valid))]
    con._post = post
    con._mod = [('arg', 0)]
    con.loop = PermLoop(con)
    return con


class P(Property):
    id = 'C05'
    units = {'u': dict(code=CODE)}
    harness = Harness('C05.cpp', ['$REPO/incremental_calibration/src/exceptions/Exception.cpp'], quick=6, thorough=60, san=True)
    assumptions = ['the permutation vector has pairwise distinct entries (precondition of permute); std::swap exchanges its arguments']
    def tasks(self, U):
        return [Task('u', permute_contract('double,size_t', 'vector<double'), tag='size_t'),
                Task('u', permute_contract('int,int', 'vector<int'), tag='int'),
                Task('u', permute_contract('long,ptrdiff_t', 'vector<long'), tag='ptrdiff_t')]


PROPERTY = P()
