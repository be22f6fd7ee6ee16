from vc.util import *
from vc.models import UF1, UF2, Hook, INF
from vc.eig import pd, is_sym, det
from fractions import Fraction
import math

INC = '#include "%s"\n'
CODE = '''
#include <cmath>
#include <limits>
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/UniformDistribution.h"
#include "aslam/calibration/statistics/GammaDistribution.h"
#include "aslam/calibration/statistics/ChiSquareDistribution.h"
#include "$REPO/incremental_calibration/src/statistics/NormalDistribution1v.cpp"
#include "$REPO/incremental_calibration/src/statistics/ChiSquareDistribution.cpp"
#include "$REPO/incremental_calibration/src/functions/IncompleteGammaPFunction.cpp"
namespace aslam { namespace calibration {
template class NormalDistribution<2>;
template class NormalDistribution<3>;
template class UniformDistribution<double>;
template class UniformDistribution<int>;
template class UniformDistribution<double, 2>;
template class UniformDistribution<double, 3>;
template class UniformDistribution<int, 2>;
template class GammaDistribution<double>;
} }
'''
_pi = Fraction('3.141592653589793')
PI = z3.RealVal('%d/%d' % (_pi.numerator, _pi.denominator))
half = z3.RealVal('1/2')
log, exp, sqrt, erf, lgamma, digamma = [UF1[n] for n in ('log', 'exp', 'sqrt', 'erf', 'lgamma', 'digamma')]
gamma_p = UF2['gamma_p']
K = Contract


def fld(o, n):
    if o is None or n not in o.f:
        raise Unsupported('no field ' + n)
    v = o.f[n]
    if isinstance(v, Uninit):
        raise Unsupported('uninitialised ' + n)
    return v


def same_all(a, b):
    return And([eqv(fld(a, f), fld(b, f)) for f in b.f])


def copying(n, cls):
    return [K(n('copy'), (n(cls), 1, 'const ' + cls), post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]),
            K(n('operator='), (n('operator='), 1), modifies=[('this', None)], post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))])]


def getter(n, m, f):
    return K(n(m), (n(m), 0), post=lambda cx, exc: [('the stored quantity', eqv(cx.ret, fld(cx.old, f)))])


def unchanged(cx):
    return ('a rejected parameter changes nothing', same_all(cx.new, cx.old))


# ------------------------------------------------------------------ normal, one dimension
class N1:
    cls = 'NormalDistribution<1>'
    mu, var = (lambda s, o: fld(o, 'mMean')), (lambda s, o: fld(o, 'mVariance'))

    def inv(self, o):
        v = self.var(o)
        return [('variance positive', v > 0), ('cached precision', fld(o, 'mPrecision') == 1 / v), ('cached standard deviation', fld(o, 'mStandardDeviation') == sqrt(v)),
                ('cached normaliser', fld(o, 'mNormalizer') == half * log(2 * PI * v))]

    def contracts(self):
        n = lambda m: self.cls + '::' + m
        pre = lambda cc: self.inv(cc.old)
        mu, var = self.mu, self.var
        def ctor(cx, exc):
            a, v = cx.old_args
            if exc:
                return [('only non-positive variances are rejected', v <= 0)]
            return [('only positive variances are accepted', v > 0), ('mean', mu(cx.new) == a), ('variance', var(cx.new) == v)] + self.inv(cx.new)
        def setv(cx, exc):
            v = cx.old_args[0]
            if exc:
                return [('only non-positive variances are rejected', v <= 0), unchanged(cx)]
            return [('only positive variances are accepted', v > 0), ('mean unchanged', mu(cx.new) == mu(cx.old)), ('variance', var(cx.new) == v)] + self.inv(cx.new)
        E = ('BadArgumentException',)
        sq = lambda x: x * x
        out = [K(n('ctor'), (n('NormalDistribution'), 2), exc=E, post=ctor)] + copying(n, 'NormalDistribution')
        out += [K(n('setVariance'), (n('setVariance'), 1), exc=E, pre=pre, modifies=[('this', None)], post=setv),
                K(n('setMean'), (n('setMean'), 1), pre=pre, modifies=[('this', None)], post=lambda cx, exc: [('mean', mu(cx.new) == cx.old_args[0]), ('variance unchanged', var(cx.new) == var(cx.old))] + self.inv(cx.new))]
        ret = lambda m, np, f, nm: K(n(m), (n(m), np), pre=pre, post=lambda cx, exc: [(nm, cx.ret == f(cx.old, *cx.old_args))])
        lp = lambda o, x: -half * sq(x - mu(o)) / var(o) - half * log(2 * PI * var(o))
        out += [ret('getMean', 0, mu, 'mean'), ret('getMedian', 0, mu, 'mean'), ret('getMode', 0, mu, 'mean'), ret('getVariance', 0, var, 'variance'),
                ret('getPrecision', 0, lambda o: 1 / var(o), 'inverse variance'), ret('getStandardDeviation', 0, lambda o: sqrt(var(o)), 'root of the variance'),
                ret('getNormalizer', 0, lambda o: half * log(2 * PI * var(o)), 'log normaliser'),
                ret('mahalanobisDistance', 1, lambda o, x: sq(x - mu(o)) / var(o), 'squared distance over the variance'),
                ret('logpdf', 1, lp, 'log-density'), ret('pdf', 1, lambda o, x: exp(lp(o, x)), 'density'),
                ret('cdf', 1, lambda o, x: half * (1 + erf((x - mu(o)) / sqrt(2 * var(o)))), 'distribution function'),
                K(n('KLDivergence'), (n('KLDivergence'), 1), pre=lambda cc: self.inv(cc.old) + self.inv(cc.args[0]),
                  post=lambda cx, exc: [('closed form', cx.ret == half * (log(var(cx.old_args[0]) / var(cx.old)) + var(cx.old) / var(cx.old_args[0]) - 1 + sq(mu(cx.old) - mu(cx.old_args[0])) / var(cx.old_args[0])))])]
        return out


# ------------------------------------------------------------------ normal, several dimensions
class NM:
    def __init__(self, M):
        self.M = M
        self.cls = 'NormalDistribution<%d>' % M
    mu, S, P = (lambda s, o: fld(o, 'mMean')), (lambda s, o: fld(o, 'mCovariance')), (lambda s, o: fld(o, 'mPrecision'))

    def isinv(self, X, Y):
        D = range(self.M)
        return And([z3.Sum([lift(X.at(i, k)) * lift(Y.at(k, j)) for k in D]) == (1 if i == j else 0) for i in D for j in D])

    def inv(self, o):
        S, P = self.S(o), self.P(o)
        tr = fld(o, 'mTransformation')
        if not (isinstance(tr, Obj) and tr.tag == 'ldlt'):
            raise Unsupported('transformation')
        return [('covariance symmetric', is_sym(S)), ('covariance positive definite', pd(S)), ('precision times covariance is the identity', And(self.isinv(P, S), self.isinv(S, P))),
                ('cached determinant', fld(o, 'mDeterminant') == det(None, None, S)),
                ('cached normaliser', fld(o, 'mNormalizer') == half * self.M * log(2 * PI) + half * log(det(None, None, S))),
                ('cached factor is that of the covariance', And(eqv(tr.m, S), z3.BoolVal(tr.kind == 'LLT')))]

    def okcov(self, c):
        return And(is_sym(c), pd(c))

    def posdiag(self, cx, c):
        cx.st.assume(Imp(self.okcov(c), And([lift(c.at(i, i)) > 0 for i in range(self.M)])))          # lemma 'positive diagonal'

    def quad(self, o, x):
        D, P = range(self.M), self.P(o)
        d = [lift(x.at(i)) - lift(self.mu(o).at(i)) for i in D]
        return z3.Sum([d[i] * lift(P.at(i, j)) * d[j] for i in D for j in D])

    def contracts(self):
        n = lambda m: self.cls + '::' + m
        pre = lambda cc: self.inv(cc.old)
        mu, S, P, D = self.mu, self.S, self.P, range(self.M)
        E = ('BadArgumentException',)
        ok = self.okcov
        def ctor(cx, exc):
            a, c = cx.old_args
            if exc:
                self.posdiag(cx, c)
                return [('only invalid covariances are rejected', Not(ok(c)))]
            return [('only symmetric positive definite covariances are accepted', ok(c)), ('mean', eqv(mu(cx.new), a)), ('covariance', eqv(S(cx.new), c))] + self.inv(cx.new)
        def setc(cx, exc):
            c = cx.old_args[0]
            if exc:
                self.posdiag(cx, c)
                return [('only invalid covariances are rejected', Not(ok(c))), unchanged(cx)]
            return [('only symmetric positive definite covariances are accepted', ok(c)), ('mean unchanged', eqv(mu(cx.new), mu(cx.old))), ('covariance', eqv(S(cx.new), c))] + self.inv(cx.new)
        out = [K(n('ctor'), (n('NormalDistribution'), 2), exc=E, post=ctor)] + copying(n, 'NormalDistribution')
        out += [K(n('setCovariance'), (n('setCovariance'), 1), exc=E, pre=pre, modifies=[('this', None)], post=setc),
                K(n('setMean'), (n('setMean'), 1), pre=pre, modifies=[('this', None)], post=lambda cx, exc: [('mean', eqv(mu(cx.new), cx.old_args[0])), ('covariance unchanged', eqv(S(cx.new), S(cx.old)))] + self.inv(cx.new))]
        out += [getter(n, m, f) for m, f in (('getMean', 'mMean'), ('getMode', 'mMean'), ('getCovariance', 'mCovariance'), ('getPrecision', 'mPrecision'), ('getDeterminant', 'mDeterminant'), ('getNormalizer', 'mNormalizer'), ('getTransformation', 'mTransformation'))]
        ret = lambda m, np, f, nm: K(n(m), (n(m), np), pre=pre, post=lambda cx, exc: [(nm, cx.ret == f(cx.old, *cx.old_args))])
        lp = lambda o, x: -half * self.quad(o, x) - (half * self.M * log(2 * PI) + half * log(det(None, None, S(o))))
        out += [ret('mahalanobisDistance', 1, self.quad, 'quadratic form of the precision'), ret('logpdf', 1, lp, 'log-density'), ret('pdf', 1, lambda o, x: exp(lp(o, x)), 'density')]
        def kl(cx, exc):
            p, q = cx.old, cx.old_args[0]
            tr = z3.Sum([lift(P(q).at(i, j)) * lift(S(p).at(j, i)) for i in D for j in D])
            return [('closed form', cx.ret == half * (log(det(None, None, S(q)) / det(None, None, S(p))) + tr - self.M + self.quad(q, mu(p))))]
        out.append(K(n('KLDivergence'), (n('KLDivergence'), 1), pre=lambda cc: self.inv(cc.old) + self.inv(cc.args[0]), post=kl))
        return out


# ------------------------------------------------------------------ uniform
class U:
    def __init__(self, X, M=None):
        self.X, self.M = X, M
        self.cls = 'UniformDistribution<%s, %d>' % (X, M or 1)
        self.D = range(M or 1)
    g = lambda s, v, i: lift(v) if s.M is None else lift(v.at(i))
    lo, hi = (lambda s, o, i: s.g(fld(o, 'mMinSupport'), i)), (lambda s, o, i: s.g(fld(o, 'mMaxSupport'), i))

    def width(self, a, b, i):
        return b - a + (1 if self.X == 'int' else 0)

    def area(self, o):
        r = None
        for i in self.D:
            w = self.width(self.lo(o, i), self.hi(o, i), i)
            r = w if r is None else r * w
        return r

    def inv(self, o):
        return [('support not empty %d' % i, self.lo(o, i) < self.hi(o, i)) for i in self.D] + [('cached area', fld(o, 'mSupportArea') == self.area(o))]

    def contracts(self):
        n = lambda m: self.cls + '::' + m
        pre = lambda cc: self.inv(cc.old)
        D, g = self.D, self.g
        E = ('BadArgumentException',)
        ok = lambda a, b: And([g(a, i) < g(b, i) for i in D])
        lo_, hi_ = (lambda o: fld(o, 'mMinSupport')), (lambda o: fld(o, 'mMaxSupport'))
        def setter(ab, ctor=False):
            def post(cx, exc):
                a, b = ab(cx)
                if exc:
                    return [('only empty supports are rejected', Not(ok(a, b)))] + ([] if ctor else [unchanged(cx)])
                return [('only non-empty supports are accepted', ok(a, b)), ('minimum', eqv(lo_(cx.new), a)), ('maximum', eqv(hi_(cx.new), b))] + self.inv(cx.new)
            return post
        both = setter(lambda cx: (cx.old_args[0], cx.old_args[1]))
        out = [K(n('ctor'), (n('UniformDistribution'), 2), exc=E, post=setter(lambda cx: (cx.old_args[0], cx.old_args[1]), True))] + copying(n, 'UniformDistribution')
        out += [K(n('setSupport'), (n('setSupport'), 2), exc=E, pre=pre, modifies=[('this', None)], post=both),
                K(n('setMinSupport'), (n('setMinSupport'), 1), exc=E, pre=pre, modifies=[('this', None)], post=setter(lambda cx: (cx.old_args[0], hi_(cx.old)))),
                K(n('setMaxSupport'), (n('setMaxSupport'), 1), exc=E, pre=pre, modifies=[('this', None)], post=setter(lambda cx: (lo_(cx.old), cx.old_args[0])))]
        out += [getter(n, m, f) for m, f in (('getMinSupport', 'mMinSupport'), ('getMaxSupport', 'mMaxSupport'))]
        out.append(K(n('getSupportArea'), (n('getSupportArea'), 0), pre=pre, post=lambda cx, exc: [('size of the support', cx.ret == self.area(cx.old))]))
        def dens(cx, exc):
            x = cx.old_args[0]
            inside = And([And(self.lo(cx.old, i) <= g(x, i), g(x, i) <= self.hi(cx.old, i)) for i in D])
            return [('one over the size of the support inside, zero outside', cx.ret == If(inside, 1 / tosort(self.area(cx.old), T_REAL), z3.RealVal(0)))]
        out += [K(n('pdf'), (n('pdf'), 1), pre=pre, post=dens), K(n('pmf'), (n('pmf'), 1), pre=pre, post=dens)]
        r = lambda x: tosort(x, T_REAL)
        centre = lambda cx, i: (r(self.lo(cx.old, i)) + r(self.hi(cx.old, i))) / 2
        for m in ('getMean', 'getMedian'):
            out.append(K(n(m), (n(m), 0), pre=pre, post=lambda cx, exc: [('centre of the support %d' % i, r(g(cx.ret, i)) == centre(cx, i)) for i in D]))
        def var(cx, i):
            w = r(self.width(self.lo(cx.old, i), self.hi(cx.old, i), i))
            return (w * w - (1 if self.X == 'int' else 0)) / 12
        if self.M is None:
            out.append(K(n('getVariance'), (n('getVariance'), 0), pre=pre, post=lambda cx, exc: [('variance of the support', cx.ret == var(cx, 0))]))
        else:
            out.append(K(n('getCovariance'), (n('getCovariance'), 0), pre=pre, post=lambda cx, exc: [('diagonal of the variances of the sides %d%d' % (i, j), lift(cx.ret.at(i, j)) == (var(cx, i) if i == j else 0)) for i in D for j in D]))
        out.append(K(n('getMode'), (n('getMode'), 0), exc=('InvalidOperationException',), post=lambda cx, exc: [('there is no mode', z3.BoolVal(exc is not None))]))
        return out


# ------------------------------------------------------------------ gamma and chi-square
QUANT = z3.Function('gamma_quantile', R, R, R, R)


class Boost(Hook):
    """assumed: boost::math special functions are the mathematical functions of their name"""
    def function(self, eng, e, ref, name, args, st):
        if name in ('gamma_p', 'gamma_q', 'digamma', 'tgamma', 'lgamma'):
            real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if name in UF2 and len(real) != 2 or name in UF1 and len(real) != 1:
                return None
            out = []
            for (t, vs) in eng.ev_list(real, st):
                xs = [tosort(lift(eng.read(t, v)), T_REAL) for v in vs]
                out.append((t, UF2[name](*xs) if name in UF2 else UF1[name](*xs)))
            eng.trusted.add('boost::math::' + name)
            return out
        if name == 'quantile' and len(args) == 2:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                d, p = [eng.read(t, v) for v in vs]
                if not (isinstance(d, Obj) and d.tag == 'gammadist'):
                    return None
                out.append((t, QUANT(d.shape, d.scale, tosort(lift(p), T_REAL))))
            eng.trusted.add('boost::math::quantile(gamma_distribution)')
            return out
        return None
    def construct(self, eng, e, T, args, st):
        if 'gamma_distribution' in str(T) and len(args) == 2:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                a, b = [tosort(lift(eng.read(t, v)), T_REAL) for v in vs]
                out.append((t, Obj('gammadist', shape=a, scale=b)))
            return out
        return None


class Gam:
    cls = 'GammaDistribution<double>'
    a, b = (lambda s, o: fld(o, 'mShape')), (lambda s, o: fld(o, 'mInvScale'))

    def nz(self, o):
        return lgamma(self.a(o)) - self.a(o) * log(self.b(o))

    def inv(self, o):
        return [('shape positive', self.a(o) > 0), ('inverse scale positive', self.b(o) > 0), ('cached normaliser', fld(o, 'mNormalizer') == self.nz(o))]

    def contracts(self):
        n = lambda m: self.cls + '::' + m
        pre = lambda cc: self.inv(cc.old)
        a, b, nz = self.a, self.b, self.nz
        E = ('BadArgumentException',)
        def setter(ab, ctor=False):
            def post(cx, exc):
                x, y = ab(cx)
                if exc:
                    return [('only non-positive parameters are rejected', Or(x <= 0, y <= 0))] + ([] if ctor else [unchanged(cx)])
                return [('only positive parameters are accepted', And(x > 0, y > 0)), ('shape', a(cx.new) == x), ('inverse scale', b(cx.new) == y)] + self.inv(cx.new)
            return post
        out = [K(n('ctor'), (n('GammaDistribution'), 2), exc=E, post=setter(lambda cx: cx.old_args, True))] + copying(n, 'GammaDistribution')
        out += [K(n('setShape'), (n('setShape'), 1), exc=E, pre=pre, modifies=[('this', None)], post=setter(lambda cx: (cx.old_args[0], b(cx.old)))),
                K(n('setInvScale'), (n('setInvScale'), 1), exc=E, pre=pre, modifies=[('this', None)], post=setter(lambda cx: (a(cx.old), cx.old_args[0])))]
        ret = lambda m, np, f, nm, **kw: K(n(m), (n(m), np), pre=kw.pop('pre', pre), post=lambda cx, exc: [(nm, cx.ret == f(cx.old, *cx.old_args))], **kw)
        lp = lambda o, x: (a(o) - 1) * log(x) - x * b(o) - nz(o)
        inside = lambda cc: pre(cc) + [('inside the support', cc.args[0] > 0)]
        out += [ret('getShape', 0, a, 'shape'), ret('getInvScale', 0, b, 'inverse scale'), ret('getNormalizer', 0, nz, 'log normaliser'), ret('getMean', 0, lambda o: a(o) / b(o), 'shape over inverse scale'),
                ret('getVariance', 0, lambda o: a(o) / (b(o) * b(o)), 'shape over squared inverse scale'),
                ret('logpdf', 1, lp, 'log-density', pre=inside),
                K(n('logpdf at or below zero'), (n('logpdf'), 1), pre=lambda cc: pre(cc) + [('not inside', cc.args[0] <= 0)], post=lambda cx, exc: [
                    ('minus infinity below the support', Imp(cx.old_args[0] < 0, cx.ret == -INF)), ('exponential density at zero', Imp(And(cx.old_args[0] == 0, a(cx.old) == 1), cx.ret == -nz(cx.old)))]),
                K(n('pdf'), (n('pdf'), 1), pre=pre, post=lambda cx, exc: [('zero below the support', Imp(cx.old_args[0] < 0, cx.ret == 0)), ('density', Imp(cx.old_args[0] > 0, cx.ret == exp(lp(cx.old, cx.old_args[0]))))]),
                K(n('cdf'), (n('cdf'), 1), pre=pre, post=lambda cx, exc: [('regularised incomplete gamma function', cx.ret == If(cx.old_args[0] <= 0, z3.RealVal(0), gamma_p(a(cx.old), cx.old_args[0] * b(cx.old))))]),
                K(n('invcdf'), (n('invcdf'), 1), exc=E, pre=pre, post=lambda cx, exc: [('only numbers outside [0, 1] are rejected', Or(cx.old_args[0] < 0, cx.old_args[0] > 1))] if exc else [
                    ('only probabilities are accepted', And(0 <= cx.old_args[0], cx.old_args[0] <= 1)), ('quantile of the parameters', cx.ret == QUANT(a(cx.old), 1 / b(cx.old), cx.old_args[0]))]),
                K(n('getMode'), (n('getMode'), 0), exc=('InvalidOperationException',), pre=pre, post=lambda cx, exc: [('only a shape below one has no mode', a(cx.old) < 1)] if exc else [('mode exists', a(cx.old) >= 1), ('mode', cx.ret == (a(cx.old) - 1) / b(cx.old))])]
        def kl(cx, exc):
            p, q = cx.old, cx.old_args[0]
            return [('closed form', cx.ret == (a(p) - a(q)) * digamma(a(p)) - lgamma(a(p)) + lgamma(a(q)) + a(q) * (log(b(p)) - log(b(q))) + a(p) * (b(q) - b(p)) / b(p))]
        out.append(K(n('KLDivergence'), (n('KLDivergence'), 1), pre=lambda cc: self.inv(cc.old) + self.inv(cc.args[0]), post=kl))
        for c in out:
            c.opts['hooks'] = [Boost()]
        return out


class Chi(Gam):
    cls = 'ChiSquareDistribution'

    def inv(self, o):
        return Gam.inv(self, o) + [('inverse scale one half', self.b(o) == half)]

    def contracts(self):
        n = lambda m: self.cls + '::' + m
        pre = lambda cc: self.inv(cc.old)
        a, b = self.a, self.b
        E = ('BadArgumentException',)
        def setter(ctor):
            def post(cx, exc):
                k = cx.old_args[0]
                if exc:
                    return [('only non-positive degrees are rejected', k <= 0)] + ([] if ctor else [unchanged(cx)])
                return [('only positive degrees are accepted', k > 0), ('half the degrees', a(cx.new) == k / 2)] + self.inv(cx.new)
            return post
        deg = lambda o: 2 * a(o)
        def med(cx, exc):
            k = deg(cx.old)
            z = 1 - 2 / (9 * k)
            return [('Wilson-Hilferty value', cx.ret == k * (z * z * z))]
        out = [K(n('ctor'), (n('ChiSquareDistribution'), 1, '(double)'), exc=E, post=setter(True)), K(n('setDegrees'), (n('setDegrees'), 1), exc=E, pre=pre, modifies=[('this', None)], post=setter(False)),
               K(n('getDegrees'), (n('getDegrees'), 0), pre=pre, post=lambda cx, exc: [('degrees', cx.ret == deg(cx.old))]), K(n('getMedian'), (n('getMedian'), 0), pre=pre, post=med),
               K(n('copy'), (n('ChiSquareDistribution'), 1, 'const'), post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]),
               K(n('operator='), (n('operator='), 1), modifies=[('this', None)], post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))])]
        for c in out:
            c.opts['hooks'] = [Boost()]
        return out


class P(Property):
    id = 'C09'
    units = {'u': dict(code=CODE)}
    harness = Harness('C09.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp', '$REPO/incremental_calibration/src/functions/*.cpp', '$REPO/incremental_calibration/src/statistics/NormalDistribution1v.cpp', '$REPO/incremental_calibration/src/statistics/ChiSquareDistribution.cpp', '$REPO/incremental_calibration/src/base/Timestamp.cpp'], quick=4, thorough=60, san=True)
    assumptions = ['verified at NormalDistribution<1>, <2>, <3>, UniformDistribution<double|int, 1>, <double, 2>, <double, 3>, <int, 2>, GammaDistribution<double>, ChiSquareDistribution',
                   'exp, log, erf, lgamma, digamma, the incomplete gamma function and the gamma quantile are those of libm and boost (uninterpreted here; compared with independent computations by the harness)',
                   'the chi-square median is the Wilson-Hilferty approximation the code documents']
    def lemmas(self):
        a, b, c, d, e, f, p, q, r, D = z3.Reals('a b c d e f p q r D')
        minors = [p == a * b - c * c, q == a * e - d * d, r == a * f - c * d]
        full = D == a * (b * e - f * f) - c * (c * e - f * d) + d * (c * f - b * d)
        return [Lemma('positive diagonal: Sylvester identity', minors + [full], a * D == p * q - r * r),
                Lemma('positive diagonal: 3 x 3', minors + [a > 0, p > 0, D > 0, a * D == p * q - r * r], And(b > 0, e > 0)),
                Lemma('positive diagonal: 2 x 2', [a > 0, a * b - c * c > 0], b > 0)]
    def tasks(self, U_):
        out = []
        for o in (N1(), NM(2), NM(3), U('double'), U('int'), U('double', 2), U('double', 3), U('int', 2), Gam(), Chi()):
            out += [Task('u', c) for c in o.contracts()]
        return out


PROPERTY = P()
