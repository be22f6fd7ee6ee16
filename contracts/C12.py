from vc.util import *
from vc.models import UF1, UF2
from vc.spec import RSUM
from contracts.C09 import Boost, fld, same_all, copying
K = Contract

CODE = '''
#include <cmath>
#include "$REPO/incremental_calibration/src/functions/LogFactorialFunction.cpp"
#include "$REPO/incremental_calibration/src/functions/LogGammaFunction.cpp"
#include "$REPO/incremental_calibration/src/functions/IncompleteGammaPFunction.cpp"
#include "$REPO/incremental_calibration/src/functions/IncompleteGammaQFunction.cpp"
#include "aslam/calibration/functions/DigammaFunction.h"
namespace aslam { namespace calibration {
template class LogGammaFunction<double>;
template class DigammaFunction<double>;
} }
'''
AR = z3.ArraySort(I, R)
log, lgamma, digamma = UF1['log'], UF1['lgamma'], UF1['digamma']
gp, gq = UF2['gamma_p'], UF2['gamma_q']
from contracts.C09 import PI
quarter, half = z3.RealVal('1/4'), z3.RealVal('1/2')


class SumLoop(Loop):
    """accumulators are partial sums of the ghost array, from below or from above, up to a shift of the counter"""
    def __init__(self, con):
        self.con = con
    def cands(self, lc):
        o, g = [], self.con.g
        end = self.con.end
        for rp in lc.reals():
            r0 = lc.get(lc.entry, rp)
            for (nm, cur) in lc.cursors():
                o.append(('partial sum added to the initial value', lambda t, rp=rp, cur=cur, r0=r0: lc.get(t, rp) == r0 + RSUM(g, 0, cur(t))))
                for s in (0, -1, 1):
                    o.append(('partial sum', lambda t, rp=rp, cur=cur, s=s: lc.get(t, rp) == RSUM(g, 0, cur(t) + s)))
                    o.append(('partial sum from above', lambda t, rp=rp, cur=cur, s=s: lc.get(t, rp) == RSUM(g, cur(t) + s, end)))
        return o


def summing(name, fn, term, end, res, pre=None, exc=(), excpost=None):
    con = K(name, fn, pre=pre, exc=exc)
    def setup(env):
        con.g = z3.Const(fname('terms'), AR)
        o = env.eng.read(env.st, env.this_lv)
        a = [env.eng.read(env.st, v) for v in env.vs]
        env.st.assume(fa(lambda k: con.g[k] == term(o, a, k), lambda k: con.g[k]))
        con.end = end(o, a)
        env.st.assume(log(z3.RealVal(1)) == 0)          # defining axiom of the logarithm
    con.setup = setup
    con.loop = SumLoop(con)
    def post(cx, exc):
        if exc:
            return excpost(cx)
        return res(con, cx)
    con._post = post
    return con


def logfact_res(con, cx):
    return [('sum of the logarithms of the positive integers up to the argument', cx.ret == RSUM(con.g, 0, con.end))]


def contracts():
    out = []
    out.append(summing('LogFactorialFunction::getValue', ('LogFactorialFunction::getValue', 1), lambda o, a, k: log(z3.ToReal(k + 1)), lambda o, a: a[0], logfact_res))
    def lg(con, cx):
        n = cx.old_args[0]
        return [('only zero is rejected', n != 0), ('sum of the logarithms of the positive integers below the argument', cx.ret == RSUM(con.g, 0, n - 1))]
    out.append(summing('LogGammaFunction<unsigned long>::getValue', ('LogGammaFunction<unsigned long>::getValue', 1), lambda o, a, k: log(z3.ToReal(k + 1)), lambda o, a: a[0] - 1, lg,
                       exc=('BadArgumentException',), excpost=lambda cx: [('only zero is rejected', cx.old_args[0] == 0)]))
    C = 'LogGammaFunction<double>'
    def mv(con, cx):
        m = z3.ToReal(fld(cx.old, 'mDim'))
        return [('logarithm of the multivariate gamma function', cx.ret == m * (m - 1) * quarter * log(PI) + RSUM(con.g, 0, con.end))]
    out.append(summing(C + '::getValue', (C + '::getValue', 1), lambda o, a, k: lgamma(a[0] - half * z3.ToReal(k)), lambda o, a: fld(o, 'mDim'), mv,
                       pre=lambda cx: [('dimension at least one', fld(cx.old, 'mDim') >= 1)]))
    n = lambda m: C + '::' + m
    out.append(K(n('ctor'), (n('LogGammaFunction'), 1, '(size_t)'), post=lambda cx, exc: [('dimension', fld(cx.new, 'mDim') == cx.old_args[0])]))
    out.append(K(n('copy'), (n('LogGammaFunction'), 1, 'const LogGammaFunction'), post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]))
    out.append(K(n('operator='), (n('operator='), 1), modifies=[('this', None)], post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]))
    out.append(K(n('getDim'), (n('getDim'), 0), post=lambda cx, exc: [('dimension', cx.ret == fld(cx.old, 'mDim'))]))
    out.append(K(n('setDim'), (n('setDim'), 1), modifies=[('this', 'mDim')], post=lambda cx, exc: [('dimension', fld(cx.new, 'mDim') == cx.old_args[0])]))
    out.append(K('DigammaFunction<double>::getValue', ('DigammaFunction<double>::getValue', 1), post=lambda cx, exc: [('digamma function of the argument', cx.ret == digamma(cx.old_args[0]))]))
    for X, f in (('P', gp), ('Q', gq)):
        C2 = 'IncompleteGamma%sFunction' % X
        m = lambda s, C2=C2: C2 + '::' + s
        al = lambda o: fld(o, 'mAlpha')
        out.append(K(m('getValue'), (m('getValue'), 1), post=lambda cx, exc, f=f: [('regularised incomplete gamma function of parameter and argument', cx.ret == f(al(cx.old), cx.old_args[0]))]))
        out.append(K(m('ctor'), (m(C2), 1, '(double)'), post=lambda cx, exc: [('parameter', al(cx.new) == cx.old_args[0])]))
        out.append(K(m('copy'), (m(C2), 1, 'const ' + C2), post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]))
        out.append(K(m('operator='), (m('operator='), 1), modifies=[('this', None)], post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]))
        out.append(K(m('getAlpha'), (m('getAlpha'), 0), post=lambda cx, exc: [('parameter', cx.ret == al(cx.old))]))
        out.append(K(m('setAlpha'), (m('setAlpha'), 1), modifies=[('this', 'mAlpha')], post=lambda cx, exc: [('parameter', al(cx.new) == cx.old_args[0])]))
    for c in out:
        c.opts['hooks'] = [Boost()]
    return out


class P(Property):
    id = 'C12'
    units = {'u': dict(code=CODE)}
    harness = Harness('C12.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp', '$REPO/incremental_calibration/src/functions/*.cpp'], quick=3, thorough=60, san=True)
    assumptions = ['the digamma and incomplete gamma functions are those of boost and log, lgamma those of libm (uninterpreted here; compared with independent computations by the harness); boost rejects arguments outside the domain',
                   'the dimension of the multivariate log-gamma function is at least one', 'verified at LogGammaFunction<double>, LogGammaFunction<size_t>, DigammaFunction<double>']
    def lemmas(self):
        g = z3.Const('g', AR)
        n, a = z3.Int('n'), z3.Consts('a x', R)
        unf = lambda i: And(Imp(i <= 0, RSUM(g, 0, i) == 0), Imp(i > 0, RSUM(g, 0, i) == RSUM(g, 0, i - 1) + g[i - 1]))
        return [Lemma('log-gamma is zero at one', [unf(z3.IntVal(0))], RSUM(g, 0, 0) == 0),
                Lemma('log-gamma recurrence', [n >= 1, unf(n), g[n - 1] == log(z3.ToReal(n))], RSUM(g, 0, n) == RSUM(g, 0, n - 1) + log(z3.ToReal(n)))]
    def tasks(self, U):
        return [Task('u', c) for c in contracts()]


PROPERTY = P()
