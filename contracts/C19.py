from vc.util import *
from vc.eig import MX_R, MX_C, MX_EL, MATX
from vc.values import Mat

DIMS = [1, 2, 3, 6]
CODE = '''
#include <Eigen/Core>
#include "aslam/calibration/data-structures/VectorDesignVariable.h"
namespace aslam { namespace calibration {
%s
} }
''' % '\n'.join('template class VectorDesignVariable<%s>;' % d for d in DIMS + ['-1'])


def fld(o, n):
    if o is None or n not in o.f:
        raise Unsupported('no field ' + n)
    return o.f[n]


val = lambda o: fld(o, '_value')
old = lambda o: fld(o, '_oldValue')
isdyn = lambda v: z3.is_expr(v)
rows = lambda v: MX_R(v) if isdyn(v) else z3.IntVal(v.r)
colsf = lambda v: MX_C(v) if isdyn(v) else z3.IntVal(v.c)
el = lambda v, i: MX_EL(v, i, 0) if isdyn(v) else lift(v.at(i, 0))


def eqm(a, b):
    """same shape and entries (either may be dynamic)"""
    if not isdyn(a) and not isdyn(b):
        return eqv(a, b)
    if isdyn(a) and isdyn(b):
        if a.eq(b):
            return z3.BoolVal(True)
        from vc.eig import dyn_eq
        return dyn_eq(a, b)
    d, m = (a, b) if isdyn(a) else (b, a)
    return And([MX_R(d) == m.r, MX_C(d) == m.c] + [MX_EL(d, i, j) == lift(m.at(i, j)) for i in range(m.r) for j in range(m.c)])


def contracts(M):
    T = 'VectorDesignVariable<%s>' % M
    n = lambda f: '%s::%s' % (T, f)
    out = []
    shape = lambda cc: [] if M > 0 else [('value and previous value are column vectors', And(MX_C(val(cc.old)) == 1, MX_C(old(cc.old)) == 1, MX_R(val(cc.old)) >= 0))]
    out.append(Contract(n('ctor'), (n('VectorDesignVariable'), 1, 'Container'), post=lambda cx, exc: [
        ('value is the given value', eqm(val(cx.new), cx.old_args[0])), ('previous value is the given value', eqm(old(cx.new), cx.old_args[0]))]))
    def same_(cx, exc):
        a = cx.old_args[0]
        return [('same value and previous value', And(eqm(val(cx.new), val(a)), eqm(old(cx.new), old(a))))]
    out.append(Contract(n('copy'), (n('VectorDesignVariable'), 1, 'VectorDesignVariable'), post=same_))
    out.append(Contract(n('operator='), (n('operator='), 1), modifies=[('this', None)], post=same_))
    out.append(Contract(n('getValue'), (n('getValue'), 0), post=lambda cx, exc: [('the value', eqm(cx.ret, val(cx.old)))]))
    def stored(cx, v):
        return [('value is the given value', eqm(val(cx.new), v)), ('the former value is kept for reverting', eqm(old(cx.new), val(cx.old)))]
    W = [('this', None)]
    out.append(Contract(n('setValue'), (n('setValue'), 1), modifies=W, post=lambda cx, exc: stored(cx, cx.old_args[0])))
    out.append(Contract(n('minimalDimensions'), (n('minimalDimensionsImplementation'), 0), post=lambda cx, exc: [('number of components', cx.ret == rows(val(cx.old)))]))
    upd = Contract(n('update'), (n('updateImplementation'), 2), modifies=W)
    def setup(env):
        env.st.store[('obj', 'dp')] = VecV(z3.Int(fname('dp.n')), z3.Const(fname('dp.a'), z3.ArraySort(I, R)), T_REAL)
        env.vs[0] = PtrTo(LV(('obj', 'dp')).sub(('at', z3.IntVal(0))))
        upd.dp = env.st.store[('obj', 'dp')]
    upd.setup = setup
    upd._pre = lambda cc: shape(cc) + [('the increment has the right length', And(cc.args[1] == rows(val(cc.old)), upd.dp.n >= cc.args[1]))]
    def upost(cx, exc):
        v, w = val(cx.old), val(cx.new)
        if M > 0:
            fs = [('component %d is incremented' % i, el(w, i) == el(v, i) + upd.dp.a[i]) for i in range(M)]
        else:
            fs = [('length kept', And(rows(w) == rows(v), colsf(w) == 1)), ('every component is incremented', fa(lambda i: Imp(And(0 <= i, i < rows(v)), el(w, i) == el(v, i) + upd.dp.a[i]), lambda i: el(w, i)))]
        return fs + [('the former value is kept for reverting', eqm(old(cx.new), v))]
    upd._post = upost
    class Update(Loop):
        """the components visited so far are incremented, the others as they were"""
        def cands(s, lc):
            o = []
            for rp in lc.vars(lambda v: isinstance(v, Mat) if M > 0 else isdyn(v) and v.sort() == MATX):
                for (nm, cur) in lc.cursors():
                    e = lc.get(lc.entry, rp)
                    if M > 0:
                        o.append(('incremented so far', lambda t, rp=rp, cur=cur, e=e: And([el(lc.get(t, rp), i) == el(e, i) + If(cur(t) > i, upd.dp.a[i], 0) for i in range(M)])))
                    else:
                        o.append(('length kept', lambda t, rp=rp, e=e: And(rows(lc.get(t, rp)) == rows(e), colsf(lc.get(t, rp)) == colsf(e))))
                        o.append(('incremented so far', lambda t, rp=rp, cur=cur, e=e: fa(lambda i: Imp(And(0 <= i, i < rows(e)), el(lc.get(t, rp), i) == el(e, i) + If(i < cur(t), upd.dp.a[i], 0)), lambda i: el(lc.get(t, rp), i))))
            return o
    upd.loop = Update()
    out.append(upd)
    out.append(Contract(n('revertUpdate'), (n('revertUpdateImplementation'), 0), modifies=W, post=lambda cx, exc: [
        ('the value is the one before the last change', eqm(val(cx.new), old(cx.old)))]))
    out.append(Contract(n('getParameters'), (n('getParametersImplementation'), 1), modifies=[('arg', 0)], post=lambda cx, exc: [
        ('the value is returned', eqm(cx.new_args[0], val(cx.old)))]))
    def sp(cx, exc):
        a, v = cx.old_args[0], val(cx.old)
        ok = And(MX_R(a) == rows(v), MX_C(a) == colsf(v))
        if exc is None:
            return [('only values of the right shape are accepted', ok)] + stored(cx, a)
        return [('only values of a wrong shape are rejected', Not(ok)), ('nothing changed', And(eqm(val(cx.new), v), eqm(old(cx.new), old(cx.old))))]
    out.append(Contract(n('setParameters'), (n('setParametersImplementation'), 1), modifies=W, exc=('OutOfBoundException',), post=sp, pre=shape))
    return out


class P(Property):
    id = 'C19'
    units = {'u': dict(code=CODE)}
    harness = Harness('C19.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], quick=4, thorough=40, san=True)
    assumptions = ['the increment handed to update has the length of the variable (the backend guarantees it)', "aslam_backend's DesignVariable base class is replaced by the stand-in in /verif/stubs"]
    def tasks(self, U):
        return [Task('u', c) for M in DIMS + [-1] for c in contracts(M)]


PROPERTY = P()
