import os
from vc.util import *
from vc.eig import pd, is_sym, MX_R, MX_C, MX_EL, MATX
from vc.spec import RSUM
from contracts.C09 import N1, NM, fld, same_all, copying, INC
K = Contract

CODE = '''
#include <cmath>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
namespace aslam { namespace calibration {      // same text, placed where the dump filter sees it
#include "aslam/calibration/utils/OuterProduct.h"
} }
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/EstimatorML.h"
#include "$REPO/incremental_calibration/src/statistics/NormalDistribution1v.cpp"
#include "$REPO/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp"
namespace aslam { namespace calibration {
template class EstimatorML<NormalDistribution<2> >;
template class EstimatorML<NormalDistribution<3> >;
} }
'''
AR = z3.ArraySort(I, R)


# the mean and the (co)variance of points as functions of their number and sums: s1 / n and s2 / n - (s1 / n) * (s1' / n)
DEF_MEAN = z3.Function('ml_mean', R, R, R)
DEF_COV = z3.Function('ml_cov', R, R, R, R, R)


def atoms(v):
    """the scalars a value consists of"""
    if isinstance(v, Rec):
        return [a for f in sorted(v.f) for a in atoms(v.f[f])]
    if isinstance(v, Mat):
        return [tosort(lift(x), T_REAL) if v.T.k == 'real' else lift(x) for x in v.e]
    if isinstance(v, Obj):
        if v.tag == 'ldlt':
            return atoms(v.m) + [z3.BoolVal(v.kind == 'LLT')]
        raise Unsupported('atoms of ' + v.tag)
    if isinstance(v, Uninit):
        raise Unsupported('uninitialised')
    return [lift(v)]


def pred(name, vs):
    xs = [a for v in vs for a in atoms(v)]
    return z3.Function(name, *([x.sort() for x in xs] + [z3.BoolSort()]))(*xs)


class NMO(NM):
    """the contracts of C09 for the multivariate normal distribution with its invariant and the test of the covariance
    kept opaque (they are proved for the real definitions in C09): what the estimator needs of its distribution"""
    def inv(self, o):
        return [('distribution invariant', pred('normal%d_inv' % self.M, [o]))]
    def okcov(self, c):
        return pred('spd%d' % self.M, [Mat(self.M, self.M, list(c.e), T_REAL)])
    def callees(self):
        out = {}
        for c in self.contracts():
            m = c.name.split('::')[-1]
            if m in ('setMean', 'setCovariance'):
                c.modular = True
                if m == 'setCovariance':
                    post = c._post
                    def rec(cx, exc, post=post):
                        cx.st.store[('ghost', 'passed')] = cx.old_args[0]
                        return post(cx, exc)
                    c._post = rec
                out[c.key()] = c
        return out


class Est:
    """M is None: the one-dimensional estimator"""
    def __init__(self, M=None):
        self.M = M
        self.cls = 'EstimatorML<NormalDistribution<%d>>' % (M or 1)
        self.D = range(M or 1)
        self.nd = NMO(M) if M else N1()
    num, valid, dist = (lambda s, o: fld(o, 'mNumPoints')), (lambda s, o: fld(o, 'mValid')), (lambda s, o: fld(o, 'mDistribution'))
    c = lambda s, v, i: lift(v) if s.M is None else lift(v.at(i))
    cc = lambda s, v, i, j: lift(v) if s.M is None else lift(v.at(i, j))
    sum1 = lambda s, o, i: s.c(fld(o, 'mValuesSum'), i)
    sum2 = lambda s, o, i, j: s.cc(fld(o, 'mSquaredValuesSum'), i, j)
    mean = lambda s, o, i: s.c(fld(s.dist(o), 'mMean'), i)
    cov = lambda s, o, i, j: s.cc(fld(s.dist(o), 'mVariance' if s.M is None else 'mCovariance'), i, j)

    def base(self, o, i):
        """sums before the next point: those of the points so far, none if there are none"""
        return If(self.num(o) == 0, z3.RealVal(0), self.sum1(o, i))

    def base2(self, o, i, j):
        return If(self.num(o) == 0, z3.RealVal(0), self.sum2(o, i, j))

    def inv(self, o):
        r = [('count not negative', self.num(o) >= 0)] + self.nd.inv(self.dist(o))
        if self.M is None:
            r.append(('no points: nothing summed', Imp(self.num(o) == 0, And(self.sum1(o, 0) == 0, self.sum2(o, 0, 0) == 0))))
        return r

    def determined(self, S):
        """S[i][j]: the covariance of the points determines a normal distribution"""
        if self.M is None:
            return S[0][0] > 0
        return self.nd.okcov(Mat(self.M, self.M, [S[i][j] for i in self.D for j in self.D], T_REAL))

    def result(self, o, m, S, old=None):
        """estimate of the distribution: mean m, covariance S if it is one"""
        D = self.D
        ok = self.determined(S)
        return [('mean of the points %d' % i, self.mean(o, i) == m[i]) for i in D] + \
               [('valid exactly if the points determine a distribution', self.valid(o) == ok)] + \
               [('covariance of the points %d%d' % (i, j), Imp(ok, self.cov(o, i, j) == S[i][j])) for i in D for j in D]

    def mlmean(self, n, s1, real):
        n = tosort(n, T_REAL)
        return [s1(i) / n if real else DEF_MEAN(n, s1(i)) for i in self.D]

    def mlcov(self, n, s1, s2, real):
        """real: the formula; otherwise the symbol defined by it (all a caller needs)"""
        D = self.D
        n = tosort(n, T_REAL)
        if not real:
            return [[DEF_COV(n, s2(i, j), s1(i), s1(j)) for j in D] for i in D]
        return [[s2(i, j) / n - (s1(i) / n) * (s1(j) / n) for j in D] for i in D]

    def contracts(self):
        C, D, M = self.cls, self.D, self.M
        n = lambda m: '%s::%s' % (C, m)
        pre = lambda cx: self.inv(cx.old)
        out = [K(n('ctor'), (n('EstimatorML'), 0), post=lambda cx, exc: [('no points', self.num(cx.new) == 0), ('not valid', Not(self.valid(cx.new)))] +
                 ([('nothing summed', And(self.sum1(cx.new, 0) == 0, self.sum2(cx.new, 0, 0) == 0))] if M is None else []))] + copying(n, 'EstimatorML')
        out += [K(n('getNumPoints'), (n('getNumPoints'), 0), post=lambda cx, exc: [('number of points', cx.ret == self.num(cx.old))]),
                K(n('getValid'), (n('getValid'), 0), post=lambda cx, exc: [('validity', cx.ret == self.valid(cx.old))]),
                K(n('getDistribution'), (n('getDistribution'), 0), post=lambda cx, exc: [('the estimate', same_all(cx.ret, self.dist(cx.old)))]),
                K(n('reset'), (n('reset'), 0), pre=pre, modifies=[('this', f) for f in ('mNumPoints', 'mValid', 'mValuesSum', 'mSquaredValuesSum')],
                  post=lambda cx, exc: [('no points', self.num(cx.new) == 0), ('not valid', Not(self.valid(cx.new)))] + self.inv(cx.new))]
        def addp(cx, exc):
            o, w, p = cx.old, cx.new, cx.old_args[0]
            s1 = lambda i: self.sum1(w, i)
            s2 = lambda i, j: self.sum2(w, i, j)
            r = [('one more point', self.num(w) == self.num(o) + 1)]
            r += [('the sum gains the point %d' % i, s1(i) == self.base(o, i) + self.c(p, i)) for i in D]
            r += [('the sum of squares gains the square of the point %d%d' % (i, j), s2(i, j) == self.base2(o, i, j) + self.c(p, i) * self.c(p, j)) for i in D for j in D]
            N = tosort(self.num(w), T_REAL)
            S = self.mlcov(N, s1, s2, not cx.con.modular)
            eqs = []
            if M is not None and not cx.con.modular:
                C = cx.st.store.get(('ghost', 'passed'))
                if C is None:
                    raise Unsupported('no covariance given to the distribution')
                eqs = [('the covariance of the points is given to the distribution %d%d' % (i, j), lift(C.at(i, j)) == S[i][j]) for i in D for j in D]
            return r + eqs + [(nm, Imp(And([e for _, e in eqs]), f)) for nm, f in self.result(w, self.mlmean(N, s1, not cx.con.modular), S) + self.inv(w)]
        add = K(n('addPoint'), (n('addPoint'), 1), pre=lambda cx: self.inv(cx.old) + self.symm(cx.old), modifies=[('this', None)], post=lambda cx, exc: addp(cx, exc) + self.symm(cx.new))
        out.append(add)
        if M is not None:
            add.cs = self.nd.callees()
        madd = K(n('addPoint'), (n('addPoint'), 1), pre=lambda cx: self.inv(cx.old) + self.symm(cx.old), modifies=[('this', None)], post=lambda cx, exc: addp(cx, exc) + self.symm(cx.new))
        madd.modular = True

        # ---- ranges of points: partial sums over ghost arrays of the coordinates and their products
        def ghosts(con, v, st):
            if M is None:
                con.x = [v.a]
            else:
                con.x = [z3.Const(fname('x%d' % i), AR) for i in D]
            con.xx = [[None] * len(D) for _ in D]
            for i in D:
                if M is not None:
                    st.assume(fa(lambda k, i=i: con.x[i][k] == lift(v[k].at(i)), lambda k, i=i: con.x[i][k]))
                for j in D:
                    con.xx[i][j] = w = z3.Const(fname('xx%d%d' % (i, j)), AR)
                    if M is None:
                        st.assume(fa(lambda k, w=w: w[k] == v.a[k] * v.a[k], lambda k, w=w: w[k]))
                    else:
                        st.assume(fa(lambda k, w=w, i=i, j=j: w[k] == lift(v[k].at(i)) * lift(v[k].at(j)), lambda k, w=w: w[k]))

        def allposts(con, o, w, lo, hi):
            N = tosort(self.num(w), T_REAL)
            s1 = lambda i: self.sum1(w, i)
            s2 = lambda i, j: self.sum2(w, i, j)
            r = [('count grows by the number of points', self.num(w) == self.num(o) + hi - lo)]
            r += [('the sum gains all points %d' % i, Imp(hi > lo, s1(i) == self.base(o, i) + RSUM(con.x[i], lo, hi))) for i in D]
            r += [('the sum of squares gains the squares of all points %d%d' % (i, j), Imp(hi > lo, s2(i, j) == self.base2(o, i, j) + RSUM(con.xx[i][j], lo, hi))) for i in D for j in D]
            r += [(nm, Imp(hi > lo, f)) for nm, f in self.result(w, self.mlmean(N, s1, False), self.mlcov(N, s1, s2, False))]
            return r + self.inv(w) + self.symm(w)

        class PtsLoop(Loop):
            def __init__(s, con):
                s.con = con
            def cands(s, lc):
                o = []
                e = s.con.entry
                for (nm, cur) in lc.cursors():
                    lo = cur(lc.entry)
                    get = lambda t: t.store[('obj', 'this')]
                    names = [nm2 for nm2, _ in allposts(s.con, e, get(lc.entry), lo, lo)]
                    for k, nm2 in enumerate(names):
                        o.append((nm2, lambda t, k=k, cur=cur, lo=lo: allposts(s.con, e, get(t), lo, cur(t))[k][1]))
                    for f in lc.entry.store[('obj', 'this')].f:
                        if f not in ('mDistribution',):
                            o.append(('nothing changes before the first point: ' + f, lambda t, f=f, cur=cur, lo=lo: Imp(cur(t) == lo, eqv(get(t).f[f], e.f[f]))))
                return o
        def mk(name, np, sig, post, pre_, vec, lo=None):
            con = K(n(name), (n('addPoints'), np) + sig, pre=pre_, modifies=[('this', None)])
            def setup(env):
                con.entry = env.eng.read(env.st, env.this_lv)
                con.v = vec(env)
                ghosts(con, con.v, env.st)
            con.setup = setup
            con._post = lambda cx, exc: post(con, cx)
            con.loop = PtsLoop(con)
            con.madd = madd
            out.append(con)
            return con
        ppre = lambda cx: self.inv(cx.old) + self.symm(cx.old)
        mk('addPoints(container)', 1, (), lambda con, cx: allposts(con, cx.old, cx.new, z3.IntVal(0), cx.old_args[0].n), ppre, lambda env: env.st.store[('obj', 'arg0')])
        out[-1].fn = (n('addPoints'), 1)
        def rng(env):
            v = env.eng.fresh(parse_type('std::vector<%s>' % ('double' if M is None else 'Eigen::Matrix<double, %d, 1>' % M)), 'pts', env.st)
            env.st.store[('obj', 'pts')] = v
            c = rc
            c.lo, c.hi = z3.Ints(fname('lo') + ' ' + fname('hi'))
            for a, i in ((0, c.lo), (1, c.hi)):
                env.st.store[env.vs[a].root] = It(LV(('obj', 'pts')), i, 'vec')
            return v
        rc = mk('addPoints(range)', 2, (), lambda con, cx: allposts(con, cx.old, cx.new, con.lo, con.hi),
                lambda cx: ppre(cx) + [('a range of points', And(0 <= rc.lo, rc.lo <= rc.hi, rc.hi <= rc.v.n))], rng)
        out.append(self.weighted(n))
        return out

    def weighted(self, n):
        """addPoints with responsibilities: the weighted mean and covariance of the points"""
        M, D = self.M, self.D
        con = K(n('addPoints(weighted)'), (n('addPoints'), 3), modifies=[('this', 'mValid'), ('this', 'mDistribution')])
        con.cs = self.nd.callees() if M is not None else {}
        def setup(env):
            st = env.st
            T = env.vs[0]
            v = con.v = env.eng.fresh(parse_type('std::vector<%s>' % ('double' if M is None else 'Eigen::Matrix<double, %d, 1>' % M)), 'pts', st)
            st.store[('obj', 'pts')] = v
            lo, hi = con.lo, con.hi = z3.Ints(fname('lo') + ' ' + fname('hi'))
            for a, i in ((0, lo), (1, hi)):
                st.store[env.vs[a].root] = It(LV(('obj', 'pts')), i, 'vec')
            r = con.r = st.store[env.vs[2].root]
            con.len = hi - lo
            if not (z3.is_expr(r) and r.sort() == MATX):
                raise Unsupported('weights')
            con.w = z3.Const(fname('w'), AR)
            st.assume(fa(lambda k: con.w[k] == MX_EL(r, k, 0), lambda k: con.w[k]))
            st.assume(fa(lambda k: con.w[k] == MX_EL(r, k, 0), lambda k: MX_EL(r, k, 0)))
            con.W = RSUM(con.w, 0, con.len)
            con.wx, con.m, con.wc = [], [], {}
            x = lambda k, i: self.c(v[k], i)
            for i in D:
                con.wx.append(z3.Const(fname('wx%d' % i), AR))
                st.assume(fa(lambda k, i=i: Imp(And(0 <= k, k < con.len), con.wx[i][k] == con.w[k] * x(lo + k, i)), lambda k, i=i: con.wx[i][k]))
                con.m.append(RSUM(con.wx[i], 0, con.len) / con.W)
            con.mv = [z3.Real(fname('wmean%d' % i)) for i in D]
            for i in D:
                st.assume(con.mv[i] * con.W == RSUM(con.wx[i], 0, con.len))
                for j in D:
                    con.wc[i, j] = z3.Const(fname('wc%d%d' % (i, j)), AR)
                    st.assume(fa(lambda k, i=i, j=j: Imp(And(0 <= k, k < con.len), con.wc[i, j][k] == con.w[k] * (x(lo + k, i) - con.mv[i]) * (x(lo + k, j) - con.mv[j])), lambda k, i=i, j=j: con.wc[i, j][k]))
        con.setup = setup
        con._pre = lambda cx: self.inv(cx.old) + [('a range of points', And(0 <= con.lo, con.lo < con.hi, con.hi <= con.v.n)),                                                   ('weights are a vector', And(MX_C(con.r) == 1, MX_R(con.r) >= 0)), ('the weights do not cancel', Imp(MX_R(con.r) == con.len, con.W != 0))]
        class WLoop(Loop):
            def ghost_init(s, lc):
                """cut: the values that are the weighted mean by an obligation of their own are named by it"""
                from vc import solve
                t = lc.entry
                mods = {rp[0] for rp in lc.mods}
                def cut(v, i):
                    v = lift(v)
                    if not z3.is_expr(v) or v.sort() != R or z3.is_rational_value(v) or 'rsum' not in v.sexpr():
                        return v
                    f = v == con.mv[i]
                    if solve.check_many(lc.eng, [(t.pc, f)])[0]:
                        lc.eng.oblige(t, f, 'cut:weighted mean', 'assert')
                        return con.mv[i]
                    return v
                for r in list(t.store):
                    v = t.store[r]
                    if r in mods or r[0] not in ('v', 'tmp'):
                        continue
                    if M is None and z3.is_expr(v):
                        t.store[r] = cut(v, 0)
                    elif isinstance(v, Mat) and (v.r, v.c) == (M, 1) and v.T.k == 'real':
                        t.store[r] = Mat(M, 1, [cut(v.e[i], i) for i in D], v.T)
            def cands(s, lc):
                o = []
                for (nm, cur) in lc.cursors():
                    k = lambda t, cur=cur: cur(t) - con.lo
                    accs = [((lambda t, rp=rp: lc.get(t, rp)), None) for rp in lc.reals()]
                    for q in {rp[0] for rp in lc.mods}:
                        v = lc.entry.store.get(q)
                        if isinstance(v, Mat) and v.T.k == 'real':
                            accs += [((lambda t, q=q, i=i: lift(t.store[q].e[i])), (i // v.c, i % v.c) if v.c > 1 else (i,)) for i in range(v.r * v.c)]
                    for a, ij in accs:
                        ws = ([con.wx[ij[0]]] if len(ij) == 1 else [con.wc[ij]]) if ij is not None else [con.wx[0], con.wc[0, 0]]
                        for w in ws:
                            o.append(('weighted partial sum', lambda t, a=a, w=w, k=k: a(t) == RSUM(w, 0, k(t))))
                return o
        con.loop = WLoop()
        def post(cx, exc):
            o, w = cx.old, cx.new
            fits = MX_R(con.r) == con.len
            S = [[RSUM(con.wc[i, j], 0, con.len) / con.W for j in D] for i in D]
            eqs = []
            if M is not None:
                C = cx.st.store.get(('ghost', 'passed'))
                if C is not None:
                    eqs = [('the weighted covariance is given to the distribution %d%d' % (i, j), Imp(fits, lift(C.at(i, j)) == S[i][j])) for i in D for j in D]
            r = [('weights of another number change nothing', Imp(Not(fits), same_all(w, o)))] + eqs
            if M is not None and not eqs:
                return r + [('weights of the right number are used', Not(fits))]
            return r + [(nm, Imp(And([fits] + [e for _, e in eqs]), f)) for nm, f in self.result(w, con.m, S) + self.inv(w)]
        con._post = post
        return con

    def symm(self, o):
        """the sum of squares stays symmetric"""
        if self.M is None:
            return []
        return [('sums of products symmetric', Imp(self.num(o) != 0, And([self.sum2(o, i, j) == self.sum2(o, j, i) for i in self.D for j in self.D if i < j])))]


class P(Property):
    id = 'C10'
    units = {'u': dict(code=CODE)}
    harness = Harness('C10.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/base/Timestamp.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp', '$REPO/incremental_calibration/src/statistics/NormalDistribution1v.cpp', '$REPO/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp'], quick=4, thorough=60, san=True)
    assumptions = ['verified at EstimatorML<NormalDistribution<1>>, <2> and <3> (addPoints of a range, a container or with responsibilities at <3> only in the thorough check)', 'the responsibilities are given for at least one point and do not sum to zero', 'OuterProduct.h is included inside the library namespace for the extraction (same text)', 'for a point set whose covariance is not definite up to rounding the validity is decided by the rounded covariance (reals in the proof)']
    def lemmas(self):
        """the variance computed from the sums is the mean of the products of deviations from the means"""
        x, y, p, d = z3.Consts('x y p d', AR)
        m, q = z3.Reals('m q')
        h = z3.Int('h')
        unf = lambda a, i: And(Imp(i <= 0, RSUM(a, 0, i) == 0), Imp(i > 0, RSUM(a, 0, i) == RSUM(a, 0, i - 1) + a[i - 1]))
        r = lambda i: z3.ToReal(i)
        claim = lambda i: RSUM(d, 0, i) == RSUM(p, 0, i) - q * RSUM(x, 0, i) - m * RSUM(y, 0, i) + r(i) * m * q
        z = z3.IntVal(0)
        return [Lemma('sum of deviations: base', [unf(a, z) for a in (x, y, p, d)], claim(z)),
                Lemma('sum of deviations: step', [unf(a, h + 1) for a in (x, y, p, d)] + [h >= 0, claim(h), d[h] == (x[h] - m) * (y[h] - q), p[h] == x[h] * y[h]], claim(h + 1)),
                Lemma('covariance from the sums is the mean of the products of deviations', [h > 0, claim(h), m * r(h) == RSUM(x, 0, h), q * r(h) == RSUM(y, 0, h), z3.Real('v') * r(h) == RSUM(p, 0, h)],
                      RSUM(d, 0, h) == r(h) * (z3.Real('v') - m * q))]

    def tasks(self, U_):
        out = []
        for e in (Est(), Est(2), Est(3)):
            for c in e.contracts():
                if e.M == 3 and 'addPoints' in c.name and os.environ.get('VERIF_TIER') != 'thorough':
                    continue            # same source as for two dimensions, larger obligations
                cs = {c.madd.key(): c.madd} if hasattr(c, 'madd') else getattr(c, 'cs', {})
                out.append(Task('u', c, contracts=cs))
        return out


PROPERTY = P()
