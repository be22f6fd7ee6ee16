from vc.util import *
from vc.models import UF1, UF2, absv, forall, Hook
from vc.eig import chol, MX_R, MX_C, MX_EL, MATX, MX_COL
from vc.spec import RSUM
from contracts.C09 import Boost, Gam, N1, NM, fld, same_all, copying
K = Contract

CODE = '''
#include <cmath>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
#include "aslam/calibration/statistics/Randomizer.h"
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/UniformDistribution.h"
#include "aslam/calibration/statistics/SampleDistribution.h"
#include "aslam/calibration/statistics/GammaDistribution.h"
#include "$REPO/incremental_calibration/src/statistics/NormalDistribution1v.cpp"
namespace aslam { namespace calibration {
template class Randomizer<double>;
template class Randomizer<int>;
template class Randomizer<double, Eigen::Dynamic>;
template class Randomizer<double, 3>;
template class NormalDistribution<2>;
template class NormalDistribution<3>;
template class UniformDistribution<double>;
template class UniformDistribution<int>;
template class UniformDistribution<double, 2>;
template class UniformDistribution<double, 3>;
template class UniformDistribution<int, 2>;
template class GammaDistribution<double>;
template class SampleDistribution<double>;
} }
'''
AR = z3.ArraySort(I, R)
log, exp, sqrt = UF1['log'], UF1['exp'], UF1['sqrt']
pow_ = UF2['pow']
RND = z3.Array('raw_draws', I, I)            # the raw stream of random(), from the current state on
RMAX = 2147483647
POS = ('ghost', 'pos')
half = z3.RealVal('1/2')
Uv = lambda i: z3.ToReal(RND[i]) / RMAX      # unit-interval value of the i-th draw


class Rng(Hook):
    """assumed: random() yields the next number of a stream of integers in [0, RAND_MAX], srandom selects the stream;
    sign laws of log, exp and pow, instantiated where the code calls them"""
    def function(self, eng, e, ref, name, args, st):
        if name == 'random' and not args:
            p = st.store[POS]
            st.store[POS] = p + 1
            st.assume(And(0 <= RND[p], RND[p] <= RMAX))
            eng.trusted.add('random()')
            return [(st, RND[p])]
        if name == 'srandom' and len(args) == 1:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                t.store[('ghost', 'seed')] = eng.read(t, vs[0])
                out.append((t, None))
            eng.trusted.add('srandom()')
            return out
        if name in ('log', 'exp') and len(args) == 1 or name == 'pow' and len(args) == 2:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                xs = [tosort(lift(eng.read(t, v)), T_REAL) for v in vs]
                x = xs[0]
                if name == 'pow':
                    v = pow_(*xs)
                    t.assume(Imp(x >= 0, v >= 0))
                elif name == 'exp':
                    v = exp(x)
                    t.assume(v > 0)
                else:
                    v = log(x)
                    t.assume(And(Imp(And(0 <= x, x <= 1), v <= 0), Imp(And(0 < x, x < 1), v < 0)))
                eng.trusted.add('sign laws of log, exp, pow')
                out.append((t, v))
            return out
        return None


def pos0(env):
    return z3.Int('pos0')


def stream(env):
    env.st.assume(z3.Int('pos0') >= 0)


GH = {'pos': pos0, 'seed': lambda env: z3.Real('seed0') if 'double' in env.eng.d['type']['qualType'] else z3.Int('seed0')}
gpos = lambda cx: cx.ghost('pos')
opos = lambda cx: cx.old_ghost('pos')


class Draws(Loop):
    """values computed from the last draws; how many draws were consumed; partial sums / products of a ghost sequence"""
    def __init__(self, con):
        self.con = con
    def cands(self, lc):
        o = []
        P = lambda t: t.store[POS]
        u = lambda t, k: Uv(P(t) + k)
        o.append(('draws are consumed in order', lambda t: P(t) >= z3.Int('pos0')))
        for rp in lc.reals():
            if rp[0][0] == 'ghost':
                continue
            for k in (-1, -2):
                o.append(('unit draw', lambda t, rp=rp, k=k: lc.get(t, rp) == u(t, k)))
                o.append(('symmetric draw', lambda t, rp=rp, k=k: lc.get(t, rp) == 2 * u(t, k) - 1))
            o.append(('squared radius', lambda t, rp=rp: lc.get(t, rp) == (2 * u(t, -1) - 1) * (2 * u(t, -1) - 1) + (2 * u(t, -2) - 1) * (2 * u(t, -2) - 1)))
            o.append(('not negative', lambda t, rp=rp: lc.get(t, rp) >= 0))
            o.append(('at most one', lambda t, rp=rp: lc.get(t, rp) <= 1))
            o.append(('sum of exponential draws', lambda t, rp=rp: lc.get(t, rp) == t.store[('ghost', 'esum')] if ('ghost', 'esum') in t.store else None))
            for (nm, cur) in lc.cursors():
                for s in (-1, 0):
                    if hasattr(self.con, 'seq'):
                        o.append(('ghost sequence', lambda t, rp=rp, cur=cur, s=s: lc.get(t, rp) == self.con.seq[cur(t) + s]))
        for (nm, cur) in lc.cursors():
            for s in (-1, 0, 1):
                o.append(('one draw each', lambda t, cur=cur, s=s: P(t) == z3.Int('pos0') + cur(t) + s))
                o.append(('one exponential each', lambda t, cur=cur, s=s: t.store[('ghost', 'ecount')] == cur(t) + s if ('ghost', 'ecount') in t.store else None))
                if hasattr(self.con, 'upto'):
                    o.append(('no earlier stop', lambda t, cur=cur, s=s: self.con.upto(t, cur(t) + s)))
        return o
    def ghost_step(self, lc, t):
        if hasattr(self.con, 'seqlaw'):
            for (nm, cur) in lc.cursors():
                for s in (-1, 0, 1):
                    t.assume(self.con.seqlaw(t, cur(t) + s))


def sampler(name, fn, post, **kw):
    ex = kw.pop('setup', None)
    con = K(name, fn, post=post, **kw)
    def setup(env):
        stream(env)
        if ex:
            ex(env, con)
    con.setup = setup
    con.ghosts = dict(GH)
    con.loop = Draws(con)
    con.opts = {'hooks': [Rng()], 'partial': True}
    return con


def round_(x):
    return If(x >= 0, z3.ToInt(x + half), -z3.ToInt(-x + half))


def shape(T, x):
    """the value of type T a real draw becomes"""
    return x if T == 'double' else round_(x)


def rd(x):
    return tosort(lift(x), T_REAL)


BAD = ('BadArgumentException',)


def gen(T, M=1):
    """contracts of Randomizer<T, M>; T is 'double' or 'int'"""
    C = 'Randomizer<%s, %s>' % (T, M) if M != 1 else 'Randomizer<%s>' % T
    C = 'Randomizer<%s, %s>' % (T, M)
    n = lambda m: C + '::' + m
    out = []
    def uni(cx, exc):
        lo, hi = cx.old_args
        if exc:
            return [('only empty supports are rejected', lo >= hi), ('no draw', gpos(cx) == opos(cx))]
        r = [('only non-empty supports are accepted', lo < hi), ('one draw', gpos(cx) == opos(cx) + 1), ('not below the lower bound', cx.ret >= lo), ('not above the upper bound', cx.ret <= hi)]
        if not cx.con.modular:
            r.append(('linear in the raw draw', cx.ret == lo + shape(T, Uv(opos(cx)) * (rd(hi) - rd(lo)))))
        return r
    out.append(sampler(n('sampleUniform'), (n('sampleUniform'), 2), uni, exc=BAD))
    def nor(cx, exc):
        mu, var = cx.old_args
        if exc:
            return [('only non-positive variances are rejected', var <= 0), ('no draw', gpos(cx) == opos(cx))]
        p = gpos(cx)
        a, b = 2 * Uv(p - 2) - 1, 2 * Uv(p - 1) - 1
        s = a * a + b * b
        return [('only positive variances are accepted', var > 0), ('draws consumed', p >= opos(cx) + 2), ('radius strictly inside the unit circle', And(s > 0, s < 1)),
                ('polar transformation', cx.ret == shape(T, rd(mu) + sqrt(rd(var)) * a * sqrt(-2 * log(s) / s)))]
    out.append(sampler(n('sampleNormal'), (n('sampleNormal'), 2), nor, exc=BAD))
    # categorical
    def catsetup(env, con):
        v = env.eng.read(env.st, env.vs[0])
        con.seq = z3.Const(fname('cumul'), AR)
        w = z3.Const(fname('prob'), AR) if isinstance(v, Mat) else MX_COL(v)
        con.w = w
        if isinstance(v, Mat):
            con.n, con.fixed = z3.IntVal(v.r), v.r
            env.st.assume(And([w[i] == rd(v.e[i]) for i in range(v.r)]))
            env.st.assume(con.seq[0] == w[0])
            for i in range(1, v.r):
                env.st.assume(con.seq[i] == con.seq[i - 1] + w[i])
            con.total = z3.Sum([w[i] for i in range(v.r)])
        else:
            con.n, con.fixed = MX_R(v), 0
            env.st.assume(And(MX_C(v) == 1, MX_R(v) >= 1))
            env.st.assume(fa(lambda k: w[k] == MX_EL(v, k, 0), lambda k: [MX_EL(v, k, 0)]))
            env.st.assume(fa(lambda k: w[k] == MX_EL(v, k, 0), lambda k: [w[k]]))
            env.st.assume(con.seq[0] == w[0])
            con.total = RSUM(w, 0, con.n)
        con.upto = lambda t, c: fa(lambda j: Imp(And(0 <= j, j < c), Uv(z3.Int('pos0')) > con.seq[j]), lambda j: con.seq[j])
        con.seqlaw = lambda t, c: Imp(c >= 1, con.seq[c] == con.seq[c - 1] + w[c])
    def cat(cx, exc):
        con = cx.con
        neg = Or([con.w[k] < 0 for k in range(con.fixed)]) if con.fixed else ex(lambda k: And(0 <= k, k < con.n, con.w[k] < 0))
        bad = Or(absv(con.total - 1) > z3.RealVal('1E-12'), neg)
        if exc:
            return [('only improper probabilities are rejected', bad), ('no draw', gpos(cx) == opos(cx))]
        u, r = Uv(opos(cx)), cx.ret
        return [('only proper probabilities are accepted', Not(bad)), ('one draw', gpos(cx) == opos(cx) + 1), ('valid index', And(0 <= r, r < con.n)),
                ('the draw lies within the cumulative probability of the index', Or(u <= con.seq[r], r == con.n - 1)),
                ('and beyond that of every smaller index', fa(lambda j: Imp(And(0 <= j, j < r), u > con.seq[j]), lambda j: con.seq[j]))]
    if M != 1:
        out.append(sampler(n('sampleCategorical'), (n('sampleCategorical'), 1), cat, exc=BAD, setup=catsetup))
        return out
    def poissetup(env, con):
        con.seq = z3.Const(fname('products'), AR)
        p0, mean = z3.Int('pos0'), env.eng.read(env.st, env.vs[0])
        con.l = exp(-mean)
        law = lambda j: Imp(j >= 1, con.seq[j] == con.seq[j - 1] * Uv(p0 + j - 1))
        env.st.assume(And(con.seq[0] == 1, law(z3.IntVal(1))))
        con.upto = lambda t, c: fa(lambda j: Imp(And(1 <= j, j < c), con.seq[j] > con.l), lambda j: con.seq[j])
        con.seqlaw = lambda t, c: law(c)
    def poi(cx, exc):
        con, mean = cx.con, cx.old_args[0]
        if exc:
            return [('only non-positive means are rejected', mean <= 0), ('no draw', gpos(cx) == opos(cx))]
        r = cx.ret
        for j in (r, r + 1):
            cx.st.assume(con.seqlaw(cx.st, j))          # definition of the products
        return [('only positive means are accepted', mean > 0), ('not negative', r >= 0), ('one more draw than the result', gpos(cx) == opos(cx) + r + 1),
                ('product of one more draw not above exp(-mean)', con.seq[r + 1] <= con.l),
                ('products of fewer draws above', fa(lambda j: Imp(And(1 <= j, j <= r), con.seq[j] > con.l), lambda j: con.seq[j]))]
    out.append(sampler(n('samplePoisson'), (n('samplePoisson'), 1), poi, exc=BAD, setup=poissetup))
    def expo(cx, exc):
        rate = cx.old_args[0]
        if exc:
            return [('only non-positive rates are rejected', rate <= 0), ('no draw', gpos(cx) == opos(cx))]
        if cx.con.modular:
            cx.st.store[('ghost', 'esum')] = cx.old_store[('ghost', 'esum')] + cx.ret
            cx.st.store[('ghost', 'ecount')] = cx.old_store[('ghost', 'ecount')] + 1
            return [('only positive rates are accepted', rate > 0), ('not negative', cx.ret >= 0), ('draws consumed', gpos(cx) >= opos(cx) + 1), ('unit rate here', rate == 1)]
        u = Uv(gpos(cx) - 1)
        return [('only positive rates are accepted', rate > 0), ('draws consumed', gpos(cx) >= opos(cx) + 1), ('positive draw', u > 0), ('inverse distribution function', cx.ret == -log(u) / rate), ('not negative', cx.ret >= 0)]
    out.append(sampler(n('sampleExponential'), (n('sampleExponential'), 1), expo, exc=BAD))
    def geo(cx, exc):
        p = cx.old_args[0]
        if exc:
            return [('only improper probabilities are rejected', Or(p <= 0, p > 1)), ('no draw', gpos(cx) == opos(cx))]
        u = Uv(gpos(cx) - 1)
        return [('only proper probabilities are accepted', And(p > 0, p <= 1)), ('positive draw', u > 0), ('not negative', cx.ret >= 0),
                ('inverse distribution function', cx.ret == z3.ToInt(log(u) / log(1 - p)))]
    out.append(sampler(n('sampleGeometric'), (n('sampleGeometric'), 1), geo, exc=BAD, pre=lambda cx: [('probability one left to the bounded check', cx.args[0] != 1)]))
    def gam(cx, exc):
        k, b = cx.old_args
        if exc:
            return [('only non-positive parameters are rejected', Or(k <= 0, b <= 0)), ('no draw', gpos(cx) == opos(cx))]
        es, ec = cx.new_store[('ghost', 'esum')], cx.new_store[('ghost', 'ecount')]
        fl = z3.ToReal(z3.ToInt(k))
        fr = k - fl
        E = z3.RealVal('2.718281828459045')
        p = Uv(gpos(cx) - 2) * (E + fr) / E
        acc = Uv(gpos(cx) - 1)
        big = -log(((E + fr) / E - p) / fr)
        small = pow_(p, 1 / fr)
        return [('integral shape: the sum of the exponential draws', Imp(fr <= z3.Q(1, 2 ** 52), cx.ret == es / b)),
                ('fractional part, large proposal', Imp(And(fr > z3.Q(1, 2 ** 52), p > 1), And(cx.ret == (es + big) / b, acc <= pow_(big, fr - 1)))),
                ('fractional part, small proposal', Imp(And(fr > z3.Q(1, 2 ** 52), p <= 1), And(cx.ret == (es + small) / b, acc <= exp(-small)))),
                ('only positive parameters are accepted', And(k > 0, b > 0)), ('not negative', cx.ret >= 0), ('as many exponential draws as the integral part of the shape', ec == z3.ToInt(k))]
    def gamsetup(env, con):
        env.st.store[('ghost', 'esum')] = z3.RealVal(0)
        env.st.store[('ghost', 'ecount')] = z3.IntVal(0)
    out.append(sampler(n('sampleGamma'), (n('sampleGamma'), 2), gam, exc=BAD, setup=gamsetup))
    out[-1].needs = ['sampleExponential']
    # seed
    S = 'mSeed'
    out.append(sampler(n('setSeed'), (n('setSeed'), 1), lambda cx, exc: [('the stream is the one of the seed', rd(cx.ghost('seed')) == z3.ToReal(z3.ToInt(rd(cx.old_args[0])))), ('seed stored', fld(cx.new, S) == cx.old_args[0]), ('no draw', gpos(cx) == opos(cx))], modifies=[('this', S)], pre=lambda cx: [('seed not negative', cx.args[0] >= 0)]))
    for c in copying(n, 'Randomizer'):
        out.append(c)
    return out


def samples():
    """getSample of the distributions, over the contracts of the generator's samplers"""
    out = []
    Z = z3.Array('standard_normals', I, R)
    hooks = [Rng(), Boost()]
    def stub(cls, m, np, post):
        c = K(cls + '::' + m, (cls + '::' + m, np), post=post)
        c.modular = True
        return c
    def rec(nm):
        def post(cx, exc):
            calls = cx.old_store.get(('ghost', 'calls'), ())
            cx.st.store[('ghost', 'calls')] = calls + ((nm, tuple(cx.old_args), cx.ret),)
            return []
        return post
    def callees(T):
        C = 'Randomizer<%s, 1>' % T
        cs = [stub(C, 'sampleUniform', 2, rec('uniform')), stub(C, 'sampleNormal', 2, rec('normal')), stub(C, 'sampleGamma', 2, rec('gamma')), stub(C, 'sampleExponential', 1, rec('exponential')),
              stub(C, 'getSeed', 0, None), stub(C, 'setSeed', 1, None)]
        return {c.key(): c for c in cs}
    def one(cx):
        calls = cx.st.store.get(('ghost', 'calls'), ())
        return calls
    def add(cls, T, post, pre=None):
        c = K(cls + '::getSample', (cls + '::getSample', 0), post=post, pre=pre)
        c.opts = {'hooks': hooks}
        c.ghosts = {'calls': lambda env: ()}
        out.append((c, callees(T)))
    def single(kind, args):
        def post(cx, exc):
            calls = [c for c in one(cx) if c[0] != 'seed']
            if len(calls) != 1:
                raise Unsupported('sample not taken in one call')
            k, a, r = calls[0]
            want = args(cx.old)
            return [('a sample of the law of the distribution', z3.BoolVal(k == kind)), ('returned unchanged', cx.ret == r)] + \
                   [('parameter %d' % i, rd(x) == rd(y)) for i, (x, y) in enumerate(zip(a, want))]
        return post
    add('NormalDistribution<1>', 'double', single('normal', lambda o: [fld(o, 'mMean'), fld(o, 'mVariance')]))
    add('GammaDistribution<double>', 'double', single('gamma', lambda o: [fld(o, 'mShape'), fld(o, 'mInvScale')]))
    for T in ('double', 'int'):
        add('UniformDistribution<%s, 1>' % T, T, single('uniform', lambda o: [fld(o, 'mMinSupport'), fld(o, 'mMaxSupport')]))
    for (T, M) in (('double', 2), ('double', 3), ('int', 2)):
        def post(cx, exc, M=M):
            calls = one(cx)
            lo, hi = fld(cx.old, 'mMinSupport'), fld(cx.old, 'mMaxSupport')
            if len(calls) != M or any(c[0] != 'uniform' for c in calls):
                raise Unsupported('other sampling scheme')
            r = []
            for i in range(M):
                r.append(('component %d is a uniform sample of its support' % i, Or([And(lift(cx.ret.at(i)) == lift(c[2]), lift(c[1][0]) == lift(lo.at(i)), lift(c[1][1]) == lift(hi.at(i))) for c in calls])))
            for a in range(M):
                for b in range(a):
                    pass
            return r
        add('UniformDistribution<%s, %d>' % (T, M), T, post)
    for M in (2, 3):
        nm = NM(M)
        def post(cx, exc, M=M, nm=nm):
            calls = [c for c in one(cx) if c[0] == 'normal']
            if len(calls) != M:
                raise Unsupported('other sampling scheme')
            mu, L = nm.mu(cx.old), chol(nm.S(cx.old))
            z = [c[2] for c in calls]
            law = lambda zz: And([lift(cx.ret.at(i)) == lift(mu.at(i)) + z3.Sum([lift(L.at(i, k)) * lift(zz[k]) for k in range(M)]) for i in range(M)])
            return [('standard normal draws', And([And(rd(c[1][0]) == 0, rd(c[1][1]) == 1) for c in calls])),
                    ('mean plus the factor of the covariance times the draws', Or(law(z), law(z[::-1])))]
        add('NormalDistribution<%d>' % M, 'double', post, pre=lambda cc, nm=nm: nm.inv(cc.old))
    return out


class GetSamples(Loop):
    def cands(self, lc):
        o = []
        for rp in lc.vars(lambda v: isinstance(v, VecV)):
            o.append(('as many as drawn', lambda t, rp=rp: lc.get(t, rp).n == t.store[('ghost', 'drawn')]))
            o.append(('the samples drawn', lambda t, rp=rp: fa(lambda k: Imp(And(0 <= k, k < lc.get(t, rp).n), lc.get(t, rp).a[k] == DR[k]), lambda k: lc.get(t, rp).a[k])))
            for (nm, cur) in lc.cursors():
                o.append(('one each', lambda t, rp=rp, cur=cur: lc.get(t, rp).n == cur(t)))
                o.append(('one each, counting down', lambda t, rp=rp, cur=cur: lc.get(t, rp).n + cur(t) == self.n))
        for (nm, cur) in lc.cursors():
            o.append(('one draw each', lambda t, cur=cur: t.store[('ghost', 'drawn')] == cur(t)))
            o.append(('one draw each, counting down', lambda t, cur=cur: t.store[('ghost', 'drawn')] + cur(t) == self.n))
        return o


DR = z3.Array('samples_drawn', I, R)


def getsamples():
    C = 'SampleDistribution<double>'
    stub = K(C + '::getSample', (C + '::getSample', 0))
    stub.modular = True
    def drawn(cx, exc):
        k = cx.old_store[('ghost', 'drawn')]
        cx.st.store[('ghost', 'drawn')] = k + 1
        return [('next sample', cx.ret == DR[k])]
    stub._post = drawn
    con = K(C + '::getSamples', (C + '::getSamples', 2), modifies=[('arg', 0)])
    con.loop = GetSamples()
    con.ghosts = {'drawn': lambda env: z3.IntVal(0)}
    def setup(env):
        con.loop.n = env.eng.read(env.st, env.vs[1])
    con.setup = setup
    def post(cx, exc):
        v, n = cx.new_args[0], cx.old_args[1]
        return [('as many samples as asked for', v.n == n), ('as many draws as asked for', cx.ghost('drawn') == n), ('the samples drawn, in order', fa(lambda k: Imp(And(0 <= k, k < n), v.a[k] == DR[k]), lambda k: v.a[k]))]
    con._post = post
    return con, {stub.key(): stub}


class P(Property):
    id = 'C11'
    units = {'u': dict(code=CODE)}
    harness = Harness('C11.cpp', ['$REPO/incremental_calibration/src/base/*.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp', '$REPO/incremental_calibration/src/functions/*.cpp', '$REPO/incremental_calibration/src/statistics/NormalDistribution1v.cpp'], quick=4, thorough=60, san=True)
    assumptions = ['random() returns the next number of a stream of integers in [0, RAND_MAX] and srandom selects the stream; that the stream itself is random and that the rejection loops end (with probability one) is assumed',
                   'log, exp, pow, sqrt are uninterpreted up to sign laws; doubles are reals', 'the support of an integer generator is representable (upper minus lower bound does not overflow)', 'geometric law with success probability one only in the bounded check',
                   'getSeed (time of day) is not under contract; it returns any seed', 'verified at double and int, categorical dimension dynamic and 3']
    def tasks(self, U):
        ts = []
        for (T, M) in (('double', 1), ('int', 1), ('double', -1), ('double', 3)):
            cs = gen(T, M)
            d = {c.name.split('::')[-1]: c for c in gen(T, M)}
            for c in cs:
                m = {}
                for nm in getattr(c, 'needs', []):
                    x = d[nm]
                    x.modular = True
                    m[x.key()] = x
                ts.append(Task('u', c, contracts=m))
        for (c, m) in samples() + [getsamples()]:
            ts.append(Task('u', c, contracts=m))
        return ts


PROPERTY = P()
