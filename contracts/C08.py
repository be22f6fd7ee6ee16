from vc.util import *
from vc.models import INF
from vc.spec import RSUM
from contracts.C07 import G, fld

CODE = '''
#include <cmath>
#include <iostream>
#include "aslam/calibration/statistics/Histogram.h"
namespace aslam { namespace calibration {
template class Histogram<double, 1>;
template class Histogram<double, 2>;
template class Histogram<int, 1>;
} }
'''
AR = z3.ArraySort(I, R)


class H(G):
    """contracts of Histogram<T, M>; bins are enumerated by the iteration rank of their index"""
    def __init__(self, T, M):
        G.__init__(self, T, M)
        self.cls = 'Histogram<%s, %d>' % (T, M)
        self.grid = 'Grid<%s, double, %d>' % (T, M)

    def ghosts(self, o):
        """bins by iteration rank; the centre of a bin is opaque here (its value is the contract of getCoordinates)"""
        S = type('S', (), {})()
        M = self.M
        c = self.cells(o)
        S.c = c
        S.w = {}
        if M == 1:
            S.rk = lambda a: a[0]
            S.tot = self.n(o, 0)
            S.lin = lambda a: a[0]
        else:
            F, L = z3.Function(fname('rk'), I, I, I), z3.Function(fname('lin'), I, I, I)
            S.F = F
            S.rk = lambda a: F(a[0], a[1])
            S.lin = lambda a: L(a[0], a[1])
            S.tot = z3.Int(fname('tot'))
            n0, n1 = self.n(o, 0), self.n(o, 1)
            S.ax = [F(0, 0) == 0, S.tot == F(n0 - 1, n1 - 1) + 1,
                    fa(lambda a, b: Imp(And(0 <= a, a + 1 < n0, 0 <= b, b < n1), F(a + 1, b) == F(a, b) + 1), lambda a, b: F(a, b), n=2),
                    fa(lambda a, b: Imp(And(a == n0 - 1, 0 <= b, b + 1 < n1), F(0, b + 1) == F(a, b) + 1), lambda a, b: F(a, b), n=2),
                    fa(lambda a, b: Imp(And(0 <= a, a < n0, 0 <= b, b < n1), And(0 <= F(a, b), F(a, b) < S.tot)), lambda a, b: F(a, b), n=2),
                    fa(lambda a, b: Imp(And(0 <= a, a < n0, 0 <= b, b < n1), And(0 <= L(a, b), L(a, b) < c.n)), lambda a, b: L(a, b), n=2)]
        cen = [z3.Function(fname('centre%d' % k), *([I] * M + [R if self.T == 'double' else I])) for k in range(M)]
        S.cen = lambda a, k: cen[k](*a[:M])
        S.centre = lambda a, k: tosort(S.cen(a, k), T_REAL)
        S.count = lambda a: c.a[S.lin(a)]
        S.n = lambda k: self.n(o, k)
        return S

    def callees(self, con):
        """contracts of the inherited accessors (verified on their own below and under C07)"""
        M, D = self.M, range(self.M)
        g = lambda m: '%s::%s' % (self.grid, m)
        ok = lambda cc: [('index of the grid', self.valid(cc.old, cc.args[0]))]
        ix = lambda cx: [lift(cx.old_args[0].at(k)) for k in D]
        def coord(cx, t):
            S = con.S
            return Mat(M, 1, [S.cen(ix(cx), k) for k in D], T_REAL if self.T == 'double' else T_INT)
        out = [Contract(g('getCoordinates'), (g('getCoordinates'), 1), pre=ok, retf=coord),
               Contract(g('getCell const'), (g('getCell'), 1, 'CONST'), pre=ok, retf=lambda cx, t: con.S.count(ix(cx)))]
        step = [c for c in G(self.T, self.M).contracts() if c.name.endswith('::incrementIndex')][0] if not hasattr(self, '_step') else self._step
        self._step = step
        gs = Contract(g('incrementIndex'), (g('incrementIndex'), 1), pre=ok, modifies=[('arg', 0)], post=step._post, retf=lambda cx, t: cx.argl[0])
        out.append(gs)
        h = self.cls + '::'
        out.append(Contract(h + 'getSum', (h + 'getSum', 0), retf=lambda cx, t: con.S.total))
        if 'mean' in con.uses:
            out.append(Contract(h + 'getMean', (h + 'getMean', 0), pre=lambda cc: [('not empty', con.S.total != 0)], retf=lambda cx, t: con.S.mean[0] if M == 1 else Mat(M, 1, list(con.S.mean), T_REAL)))
        if con.name.endswith('getSum'):
            out = out[:-1]
        for c in out:
            c.modular = True
        return {c.key(): c for c in out}

    def define(self, st, S, o, key, f):
        """ghost array w with w[rank(a)] = f(a)"""
        w = z3.Const(fname('w_' + key), AR)
        S.w[key] = w
        if self.M == 1:
            st.assume(fa(lambda a: Imp(And(0 <= a, a < S.tot), w[a] == f([a])), lambda a: w[a]))
        else:
            st.assume(fa(lambda a, b: Imp(And(0 <= a, a < self.n(o, 0), 0 <= b, b < self.n(o, 1)), w[S.F(a, b)] == f([a, b])), lambda a, b: S.F(a, b), n=2))
        return w

    def setup_for(self, con, keys):
        """keys: the ghost arrays (count / m: centre times count / c: deviation product times count) the contract needs"""
        def setup(env):
            o = env.eng.read(env.st, env.this_lv)
            st = env.st
            S = con.S = self.ghosts(o)
            for f in getattr(S, 'ax', []):
                st.assume(f)
            D = range(self.M)
            S.total = RSUM(S.c.a, 0, S.c.n)
            if 'count' in keys:
                if self.M == 1:
                    S.w['count'] = S.c.a
                else:
                    self.define(st, S, o, 'count', S.count)
            if 'm' in keys:
                for k in D:
                    self.define(st, S, o, 'm%d' % k, lambda a, k=k: S.centre(a, k) * S.count(a))
                S.mean = [RSUM(S.w['m%d' % k], 0, S.tot) / S.total for k in D]
            if 'c' in keys:
                S.mean = [z3.Real(fname('mean%d' % k)) for k in D]          # what getMean returns by its contract
                for i in D:
                    for j in range(self.M):
                        self.define(st, S, o, 'c%d%d' % (i, j), lambda a, i=i, j=j: (S.centre(a, i) - S.mean[i]) * (S.centre(a, j) - S.mean[j]) * S.count(a))
            st.assume(INF > 0)
        return setup

    def contracts(self):
        C, M, D = self.cls, self.M, range(self.M)
        n = lambda m: '%s::%s' % (C, m)
        out, K = [], Contract
        h = self
        pre = lambda cc: self.inv(cc.old) + [('counts are not negative', fa(lambda j: Imp(And(0 <= j, j < self.cells(cc.old).n), And(self.cells(cc.old).a[j] >= 0, self.cells(cc.old).a[j] < INF)), lambda j: self.cells(cc.old).a[j]))]

        class IdxLoop(Loop):
            """loops over the multi-dimensional index and loops over the linear container"""
            def __init__(s, con, extra=None):
                s.con, s.extra = con, extra
            def idx(s, lc):
                out = []
                for r in {rp[0] for rp in lc.mods}:
                    v = lc.entry.store.get(r)
                    if isinstance(v, Mat) and (v.r, v.c) == (M, 1) and v.T.k == 'int':
                        out.append(r)
                return out
            def cands(s, lc):
                S = s.con.S
                o = []
                # linear iteration
                for rp in lc.reals():
                    for (nm, cur) in lc.cursors():
                        e0 = cur(lc.entry)
                        for rv in lc.iters():
                            v = lc.eng.read(lc.entry, lc.get(lc.entry, rv).lv)
                            if isinstance(v, VecV):
                                o.append(('partial sum of the bins', lambda t, rp=rp, cur=cur, e0=e0, v=v: lc.get(t, rp) == RSUM(v.a, e0, cur(t))))
                for r in s.idx(lc):
                    g = lambda t, r=r: [lift(x) for x in t.store[r].e]
                    ns = [S.n(k) for k in D]
                    valid = lambda t, g=g: And([And(0 <= g(t)[k], g(t)[k] < ns[k]) for k in D])
                    end = lambda t, g=g: And([g(t)[k] == ns[k] for k in D])
                    rk = lambda t, g=g, valid=valid: If(valid(t), S.rk(g(t)), S.tot)
                    o.append(('index is valid or at the end', lambda t, valid=valid, end=end: Or(valid(t), end(t))))
                    s.rkf = rk
                    accs = [((lambda t, rp=rp: lc.get(t, rp)), None) for rp in lc.reals()]
                    for q in {rp[0] for rp in lc.mods}:
                        v = lc.entry.store.get(q)
                        if isinstance(v, Mat) and v.T.k == 'real':
                            accs += [((lambda t, q=q, i=i: lift(t.store[q].e[i])), (i // v.c, i % v.c) if M > 1 and v.r == M else None) for i in range(v.r * v.c)]
                    for a, ij in accs:
                        for key, w in S.w.items():
                            if ij is not None and key[0] in 'mc' and key not in ('m%d' % ij[0], 'c%d%d' % ij, 'count'):
                                continue
                            o.append(('partial sum ' + key, lambda t, a=a, w=w, rk=rk: tosort(a(t), T_REAL) == RSUM(w, 0, rk(t))))
                    if s.extra == 'mode':
                        for rp in lc.reals():
                            for q in {rp[0] for rp in lc.mods}:
                                v = lc.entry.store.get(q)
                                if q != r and (isinstance(v, Mat) or isinstance(v, Uninit)) :
                                    def md(t, rp=rp, q=q, rk=rk):
                                        mv = t.store[q]
                                        first = rk(t) == 0
                                        if isinstance(mv, Uninit):
                                            return And(first, lc.get(t, rp) == -INF)
                                        b = [lift(x) for x in mv.e]
                                        w = S.w['count']
                                        return If(first, lc.get(t, rp) == -INF,
                                                  And([And(0 <= b[k], b[k] < ns[k]) for k in D] + [S.rk(b) < rk(t), lc.get(t, rp) == w[S.rk(b)],
                                                      fa(lambda j: Imp(And(0 <= j, j < rk(t)), w[j] <= lc.get(t, rp)), lambda j: w[j])]))
                                    o.append(('mode so far', md))
                    if s.extra == 'median':
                        o.append(('half not reached', lambda t, rk=rk: Or(rk(t) == 0, RSUM(S.w['count'], 0, rk(t)) < S.total / 2)))
                return o
            def variant(s, lc):
                if not s.idx(lc):
                    return None
                return [('bins left', lambda t: s.con.S.tot - s.rkf(t))]

        def mk(name, nm, np, keys=(), extra=None, **kw):
            con = K(n(name), (n(nm), np) + kw.pop('sig', ()), **kw)
            con.uses = ('mean',) if 'c' in keys else ()
            con.setup = self.setup_for(con, keys)
            con.callees = self.callees(con)
            con.loop = IdxLoop(con, extra)
            out.append(con)
            return con
        c = mk('getSum', 'getSum', 0, pre=pre)
        c._post = lambda cx, exc, c=c: [('sum of all bins', cx.ret == c.S.total)]
        c = mk('getMean', 'getMean', 0, keys=('m',), pre=lambda cc: pre(cc) + [('not empty', RSUM(self.cells(cc.old).a, 0, self.cells(cc.old).n) != 0)])
        c._post = lambda cx, exc, c=c: [('mean of the bin centres weighted by the counts %d' % k, lift(cx.ret if M == 1 else cx.ret.at(k)) == c.S.mean[k]) for k in D]
        nv = lambda cc: RSUM(self.cells(cc.old).a, 0, self.cells(cc.old).n)
        c = mk('getVariance' if M == 1 else 'getCovariance', 'getVariance' if M == 1 else 'getCovariance', 0, keys=('c',),
               pre=lambda cc: pre(cc) + [('at least two samples', And(nv(cc) != 0, nv(cc) != 1))])
        c._post = lambda cx, exc, c=c: [('unbiased covariance of the bin centres weighted by the counts %d%d' % (i, j), lift(cx.ret if M == 1 else cx.ret.at(i, j)) == RSUM(c.S.w['c%d%d' % (i, j)], 0, c.S.tot) / (c.S.total - 1)) for i in D for j in D]
        c = mk('getMode', 'getMode', 0, keys=('count',), extra='mode', pre=pre)
        def modepost(cx, exc, c=c):
            S = c.S
            # witness: an index among the locals at the exit of the function
            ws = []
            for r, v in cx.st.store.items():
                if isinstance(v, Mat) and (v.r, v.c) == (M, 1) and v.T.k == 'int':
                    ws.append([lift(x) for x in v.e])
            w = S.w['count']
            def ismode(a):
                return And([And(0 <= a[k], a[k] < S.n(k)) for k in D] + [tosort(lift(cx.ret if M == 1 else cx.ret.at(k)), T_REAL) == S.centre(a, k) for k in D] +
                           [fa(lambda j: Imp(And(0 <= j, j < S.tot), w[j] <= w[S.rk(a)]), lambda j: w[j])])
            if not ws:
                raise Unsupported('no index to witness the mode')
            return [('centre of a bin with the largest count', Or([ismode(a) for a in ws]))]
        c._post = modepost
        if M == 1:
            c = mk('getMedian', 'getMedian', 0, keys=('count',), extra='median', pre=pre)
            def medpost(cx, exc, c=c):
                S, w = c.S, c.S.w['count']
                ws = [[lift(x) for x in v.e] for r, v in cx.st.store.items() if isinstance(v, Mat) and (v.r, v.c) == (1, 1) and v.T.k == 'int']
                ismed = lambda a: And(0 <= a[0], a[0] < S.tot, cx.ret == S.centre(a, 0), RSUM(w, 0, a[0] + 1) >= S.total / 2, Or(a[0] == 0, RSUM(w, 0, a[0]) < S.total / 2))
                return [('centre of the first bin at which half of the samples are reached', Or([ismed(a) for a in ws] + [And(cx.ret == self.rl(self.lo(cx.old, 0)), RSUM(w, 0, S.tot) < S.total / 2)]))]
            c._post = medpost
        # ---- normalisation
        class NormLoop(Loop):
            def __init__(s, con):
                s.con = con
            def cands(s, lc):
                o = []
                S = s.con.S
                for rp in lc.reals():
                    for (nm, cur) in lc.cursors():
                        o.append(('partial sum', lambda t, rp=rp, cur=cur: lc.get(t, rp) == RSUM(S.c.a, 0, cur(t))))
                for rp in lc.vars(lambda v: isinstance(v, VecV)):
                    for (nm, cur) in lc.cursors():
                        o.append(('scaled prefix', lambda t, rp=rp, cur=cur: And(lc.get(t, rp).n == S.c.n,
                            fa(lambda j: Imp(And(0 <= j, j < S.c.n), lc.get(t, rp).a[j] == If(j < cur(t), S.c.a[j] / S.total, S.c.a[j])), lambda j: lc.get(t, rp).a[j]))))
                return o
        c = mk('getNormalized', 'getNormalized', 0, pre=lambda cc: pre(cc) + [('not empty', nv(cc) != 0)])
        c.loop = NormLoop(c)
        def normpost(cx, exc, c=c):
            v = self.cells(cx.ret)
            return [('same grid', And([eqv(fld(cx.ret, f), fld(cx.old, f)) for f in cx.old.f if f != 'mCells'] + [v.n == c.S.c.n])),
                    ('every bin divided by the total', fa(lambda j: Imp(And(0 <= j, j < v.n), v.a[j] == c.S.c.a[j] / c.S.total))),
                    ('the histogram itself is unchanged', eqv(self.cells(cx.new), self.cells(cx.old)))]
        c._post = normpost
        # ---- samples
        def addpost(cx, exc):
            o, x = cx.old, cx.old_args[0]
            P = Mat(1, 1, [x], T_REAL) if M == 1 else x
            a, b = self.cells(cx.old), self.cells(cx.new)
            js = [z3.Int(fname('k%d' % k)) for k in D]
            inr = self.inrange(o, P)
            def cell(k):
                lo, res, y, j = self.rl(self.lo(o, k)), self.rl(self.res(o, k)), self.rl(lift(P.at(k))), self.rl(js[k])
                return And(0 <= js[k], js[k] < self.n(o, k), lo + j * res <= y, Or(y < lo + (j + 1) * res, And(js[k] == self.n(o, k) - 1, y == self.rl(self.hi(o, k)))))
            lin = z3.Sum([self.lp(o, k) * js[k] for k in D])
            fs = [('number of bins unchanged', b.n == a.n),
                  ('a sample outside the range changes nothing', Imp(Not(inr), eqv(a, b))),
                  ('the bin of the sample gains one', z3.ForAll(js, Imp(And([inr] + [cell(k) for k in D]), b.a[lin] == a.a[lin] + 1))),
                  ('the total gains one exactly for a sample in range', RSUM(b.a, 0, b.n) == RSUM(a.a, 0, a.n) + If(inr, z3.RealVal(1), z3.RealVal(0)))]
            if M == 1:
                fs.append(('the other bins keep their counts', z3.ForAll(js, Imp(And(inr, cell(0)), fa(lambda j: Imp(And(0 <= j, j < a.n, j != lin), b.a[j] == a.a[j]))))))
            return fs
        add = K(n('addSample'), (n('addSample'), 1), pre=lambda cc: self.inv(cc.old), modifies=[('this', 'mCells')], post=addpost)
        add.opts = dict(solve={})
        out.append(add)
        madd = K(n('addSample'), (n('addSample'), 1), pre=lambda cc: self.inv(cc.old), modifies=[('this', 'mCells')], post=addpost)
        madd.modular = True
        alls = K(n('addSamples'), (n('addSamples'), 1), pre=lambda cc: self.inv(cc.old), modifies=[('this', 'mCells')])
        def setup(env):
            v = env.st.store[('obj', 'arg0')]
            o = env.eng.read(env.st, env.this_lv)
            alls.w = z3.Const(fname('inr'), AR)
            def P(i):
                x = v[i]
                return Mat(1, 1, [x], T_REAL) if M == 1 else x
            env.st.assume(fa(lambda i: alls.w[i] == If(self.inrange(o, P(i)), z3.RealVal(1), z3.RealVal(0)), lambda i: v.a[i]))
        alls.setup = setup
        class AddLoop(Loop):
            def cands(s, lc):
                o = []
                for rp in lc.vars(lambda v: isinstance(v, VecV)):
                    e = lc.get(lc.entry, rp)
                    for (nm, cur) in lc.cursors():
                        o.append(('samples so far', lambda t, rp=rp, cur=cur, e=e: And(lc.get(t, rp).n == e.n, RSUM(lc.get(t, rp).a, 0, e.n) == RSUM(e.a, 0, e.n) + RSUM(alls.w, 0, cur(t)))))
                return o
        alls.loop = AddLoop()
        alls._post = lambda cx, exc: [('the total grows by the number of samples in range', RSUM(self.cells(cx.new).a, 0, self.cells(cx.new).n) == RSUM(self.cells(cx.old).a, 0, self.cells(cx.old).n) + RSUM(alls.w, 0, cx.old_args[0].n))]
        alls.madd = madd
        out.append(alls)
        # ---- construction and copying
        if M == 1:
            def cpost(cx, exc):
                a, b, r = [lift(x) for x in cx.old_args]
                ok = And(r > 0, a < b, r <= b - a)
                if exc:
                    return [('only invalid parameters are rejected', Not(ok))]
                o = cx.new
                return [('valid parameters', ok), ('parameters are kept', And(self.lo(o, 0) == a, self.hi(o, 0) == b, self.res(o, 0) == r))] + self.inv(o)
        else:
            def cpost(cx, exc):
                a, b, r = cx.old_args
                ok = And([And(lift(r.at(i)) > 0, lift(a.at(i)) < lift(b.at(i)), lift(r.at(i)) <= lift(b.at(i)) - lift(a.at(i))) for i in D])
                if exc:
                    return [('only invalid parameters are rejected', Not(ok))]
                o = cx.new
                return [('valid parameters', ok), ('parameters are kept', And([And(self.lo(o, i) == lift(a.at(i)), self.hi(o, i) == lift(b.at(i)), self.res(o, i) == lift(r.at(i))) for i in D]))] + self.inv(o)
        out.append(K(n('ctor'), (n('Histogram'), 3), exc=('BadArgumentException',), post=cpost))
        out.append(K(n('copy'), (n('Histogram'), 1), post=lambda cx, exc: [('equal to the original', self.same_all(cx.new, cx.old_args[0]))]))
        out.append(K(n('operator='), (n('operator='), 1), modifies=[('this', None)], post=lambda cx, exc: [('equal to the original', self.same_all(cx.new, cx.old_args[0]))]))
        return out

    def lemmas(self):
        a, b = z3.Consts('a b', AR)
        s, h = z3.Real('s'), z3.Int('h')
        unf = lambda x, i: And(Imp(i <= 0, RSUM(x, 0, i) == 0), Imp(i > 0, RSUM(x, 0, i) == RSUM(x, 0, i - 1) + x[i - 1]))
        return [Lemma('scaling every bin scales the total: base', [unf(a, z3.IntVal(0)), unf(b, z3.IntVal(0)), s != 0], RSUM(b, 0, 0) == RSUM(a, 0, 0) / s),
                Lemma('scaling every bin scales the total: step', [unf(a, h + 1), unf(b, h + 1), h >= 0, s != 0, RSUM(b, 0, h) == RSUM(a, 0, h) / s, b[h] == a[h] / s], RSUM(b, 0, h + 1) == RSUM(a, 0, h + 1) / s),
                Lemma('the normalised bins sum to one', [s == RSUM(a, 0, h), s != 0, RSUM(b, 0, h) == RSUM(a, 0, h) / s], RSUM(b, 0, h) == 1)]


class P(Property):
    id = 'C08'
    units = {'u': dict(code=CODE)}
    harness = Harness('C08.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], quick=5, thorough=60, san=True)
    assumptions = ['verified at Histogram<double, 1>, Histogram<int, 1> and Histogram<double, 2>; statistics of a histogram with no (mean) or one (variance) sample are outside the contract', 'bin counts are finite and, initially, not negative']
    def lemmas(self):
        return H('double', 1).lemmas()
    def tasks(self, U):
        out = []
        for (T, M) in (('double', 1), ('double', 2), ('int', 1)):
            h = H(T, M)
            out += [Task('u', c) for c in G(T, M).contracts() if c.name.split('::')[-1] in ('getCoordinates', 'incrementIndex', 'getCell const', 'getCell', 'getIndex')]
            for c in h.contracts():
                cs = {c.madd.key(): c.madd} if hasattr(c, 'madd') else getattr(c, 'callees', {})
                out.append(Task('u', c, contracts=cs))
        return out


PROPERTY = P()
