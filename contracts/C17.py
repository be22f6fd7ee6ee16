from vc.util import *
from vc.eig import inv_of
from vc.models import UF1, UF2, Hook
from vc.values import Mat, Rec, Obj, PtrTo, LV, It, SetV, T_REAL, tosort
import vc.ast
from contracts import sm
from contracts.C19 import fld
X = '$REPO/incremental_calibration_examples/incremental_calibration_examples_'
XR = X.replace('$REPO', vc.ast.REPO)
sin, cos, sqrt, atan2 = UF1['sin'], UF1['cos'], UF1['sqrt'], UF2['atan2']
zero, one = z3.RealVal(0), z3.RealVal(1)


# ---------------------------------------------------------------- symbolic differentiation
def diff(t, x):
    """derivative of a real term with respect to the constant x (sum, product, quotient and chain rule)"""
    if t.eq(x):
        return one
    if not z3.is_app(t):
        raise Unsupported('derivative of %r' % t)
    ch = t.children()
    if not ch:
        return zero
    d = [zero if c.sort() != R else diff(c, x) for c in ch]
    if all(is0(v) for v in d):
        return zero
    if z3.is_add(t):
        return sum_([v for v in d if not is0(v)])
    if z3.is_sub(t):
        r = d[0]
        for v in d[1:]:
            r = r - v
        return r
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        return -d[0]
    if z3.is_mul(t):
        out = []
        for i, v in enumerate(d):
            if not is0(v):
                p = v
                for j, c in enumerate(ch):
                    if j != i:
                        p = p * c
                out.append(p)
        return sum_(out)
    if t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(ch[0], diff(ch[1], x), diff(ch[2], x))
    if z3.is_div(t):
        a, b = ch
        return (d[0] * b - a * d[1]) / (b * b)
    n = t.decl().name()
    if n == 'm_sin':
        return cos(ch[0]) * d[0]
    if n == 'm_cos':
        return -sin(ch[0]) * d[0]
    if n == 'm_sqrt':
        return d[0] / (2 * t)
    if n == 'm_atan2':
        y, w = ch
        return (d[0] * w - y * d[1]) / (w * w + y * y)
    if n == 'sm_angleMod':          # whole turns are constant almost everywhere
        return d[0]
    raise Unsupported('derivative of ' + n)


def is0(v):
    return z3.is_rational_value(v) and v.as_fraction() == 0


def sum_(xs):
    r = xs[0]
    for v in xs[1:]:
        r = r + v
    return r


# ---------------------------------------------------------------- the missing backend, by contract
class Backend(Hook):
    """expressions have a value and pass a Jacobian on to their design variables by the chain rule; a Jacobian container sums up what is added for a target"""
    def member(self, eng, e, me, st, lv, obj, name, args):
        if isinstance(obj, Obj) and obj.tag == 'expr':
            if name in ('toValue', 'toScalar', 'toTransformationMatrix') and not args:
                return [(st, obj.value)]
            if name == 'evaluateJacobians' and len(args) == 2:
                out = []
                for (t, vs) in eng.ev_list(args, st):
                    self.add(eng, t, vs[0], obj.name, eng.read(t, vs[1]))
                    out.append((t, None))
                return out
            if name == 'getDesignVariables' and len(args) == 1:
                out = []
                for (t, vs) in eng.ev_list(args, st):
                    s = eng.read(t, vs[0])
                    w = SetV(z3.Const(fname('dvs'), s.dom.sort()), z3.Int(fname('ndvs')), s.K)
                    t.assume(And(w.size >= 0, z3.ForAll([kk], w.has(kk) == Or(s.has(kk), DVOF(obj.id, kk)), patterns=[w.has(kk)])))
                    eng.write(t, vs[0], w)
                    out.append((t, None))
                return out
        if isinstance(obj, Obj) and obj.tag == 'jac' and name == 'add' and len(args) == 2:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                p = eng.read(t, vs[0])
                if not (isinstance(p, PtrTo) and p.lv.root[0] == 'dv'):
                    raise Unsupported('Jacobian of an unknown design variable')
                self.add(eng, t, lv, p.lv.root[1], eng.read(t, vs[1]))
                out.append((t, None))
            return out
        return None
    def operator(self, eng, e, st, op, vs, av, bv):
        if op == '=' and isinstance(av, Obj) and av.tag == 'expr' and isinstance(bv, Obj) and bv.tag == 'expr':
            eng.write(st, vs[0], bv)
            return [(st, vs[0])]
        return None
    def add(self, eng, t, jl, name, m):
        j = eng.read(t, jl)
        if not (isinstance(j, Obj) and j.tag == 'jac' and isinstance(m, Mat)):
            raise Unsupported('Jacobian container')
        eng.write(t, jl, Obj('jac', items=j.items + ((name, m),)))


OPTS = {'hooks': [Backend(), sm.Sm()], 'inv': 'opaque'}
kk = z3.Int('dvk')
DVOF = z3.Function('designVariableOf', I, I, B)


def reported(jac, name):
    """what the container holds for a design variable or expression: the sum of what was added"""
    r = None
    for (n, m) in jac.items:
        if n == name:
            r = m if r is None else Mat(m.r, m.c, [lift(a) + lift(b) for a, b in zip(r.e, m.e)], T_REAL)
    return r


class Term:
    """one error term class: its parameters, its error as a function of the state, the fields with measurement and covariance"""
    def __init__(self, cls, dim, args, dvs=(), exprs=(), cov=None, error=None, dom=None, setters=(), getters=(), hints=None):
        self.cls, self.dim, self.args, self.dvs, self.exprs, self.cov, self._error, self.dom, self.setters, self.getters, self.hints = cls, dim, args, dvs, exprs, cov, error, dom, setters, getters, hints

    def setup(self, env):
        st, eng = env.st, env.eng
        this = st.store[('obj', 'this')]
        self.x = {}
        for (f, n) in self.dvs:
            c = env.eng.u.find_class('VectorDesignVariable<%d>' % n)
            if c is None or f not in this.f:
                raise Unsupported('no %s in %s' % (f, self.cls))
            st.store[('dv', f)] = eng.fresh_rec(c, f, st)
            this = this.with_(f, PtrTo(LV(('dv', f))))
            self.x[f] = [lift(v) for v in fld(st.store[('dv', f)], '_value').e]
        for (f, r, c) in self.exprs:
            if f not in this.f:
                raise Unsupported('no %s in %s' % (f, self.cls))
            this = this.with_(f, self.expr(f, r, c))
            self.x[f] = self.values[f]
        st.store[('obj', 'this')] = this

    values = None
    def expr(self, f, r, c):
        self.values = dict(self.values or {})
        xs = [z3.Real(fname('%s[%d]' % (f, i))) for i in range(r * c)]
        self.values[f] = xs
        return Obj('expr', name=f, id=z3.Int(fname('id' + f)), value=xs[0] if r * c == 1 else Mat(r, c, xs, T_REAL))

    def error(self, o):
        return self._error(self.x, lambda f: fld(o, f))

    # the two evaluations
    def evaluate(self):
        con = Contract(self.cls + '::evaluateError', (self.cls + '::evaluateErrorImplementation', 0), modifies=[('this', '_error')])
        con.setup = self.setup
        con._pre = lambda cc: [('defined there', f) for f in (self.dom(self.x, lambda f: fld(cc.old, f)) if self.dom else [])]
        def post(cx, exc):
            spec, e = self.error(cx.old), fld(cx.new, '_error')
            W = fld(cx.old, '_invR')
            self.hint(cx)
            out = [('component %d is measurement minus prediction' % i, lift(e.e[i]) == spec[i]) for i in range(self.dim)]
            chi = sum_([lift(e.e[i]) * lift(W.at(i, j)) * lift(e.e[j]) for i in range(self.dim) for j in range(self.dim)])
            return out + [('the squared error is weighted by the inverse covariance', cx.ret == chi)]
        con._post = post
        return con

    def hint(self, cx):
        if self.hints:
            for h in self.hints(self.x, lambda f: fld(cx.old, f)):
                cx.st.assume(h)

    # construction, setters, copies: the weight is the inverse of the covariance last set
    def weight(self, o):
        if isinstance(self.cov, tuple):      # independent blocks
            n, c = self.dim, [zero] * (self.dim * self.dim)
            k = 0
            for f in self.cov:
                m = fld(o, f)
                for i in range(m.r):
                    for j in range(m.c):
                        c[(k + i) * n + k + j] = m.at(i, j)
                k += m.r
            return Mat(n, n, c, T_REAL)
        v = fld(o, self.cov)
        return v if isinstance(v, Mat) else Mat(1, 1, [lift(v)], T_REAL)

    def weighted(self, o):
        W, V = fld(o, '_invR'), inv_of(self.weight(o))
        return And([lift(a) == lift(b) for a, b in zip(W.e, V.e)])

    def same(self, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj):
            return z3.BoolVal(a.tag == b.tag and a.name == b.name)
        return eqv(a, b)

    def construction(self):
        con = Contract(self.cls + '::construction', (self.cls + '::' + self.cls, len(self.args)))
        def setup(env):
            for i, f in enumerate(self.args):
                for (g, r, c) in self.exprs:
                    if f == g:
                        env.eng.write(env.st, env.vs[i], self.expr(f, r, c))
        con.setup = setup
        def post(cx, exc):
            o = cx.new
            out = [('%s as given' % f, self.same(fld(o, f), a)) for f, a in zip(self.args, cx.old_args)]
            dv = fld(o, '_designVariables')
            isdv = lambda k: Or([k == a for f, a in zip(self.args, cx.old_args) if f in dict(self.dvs)] + [DVOF(a.id, k) for a in cx.old_args if isinstance(a, Obj) and a.tag == 'expr'])
            out.append(('weighted by the inverse covariance', self.weighted(o)))
            out.append(('only the given design variables', fa(lambda i: Imp(And(0 <= i, i < dv.n), isdv(dv.a[i])), lambda i: dv.a[i])))
            w = z3.Int(fname('anyDv'))
            out.append(('all the given design variables', Imp(isdv(w), ex(lambda i: And(0 <= i, i < dv.n, dv.a[i] == w)))))
            return out
        con._post = post
        con._pre = lambda cc: [] if isinstance(cc.args[self.args.index(self.cov if isinstance(self.cov, str) else self.cov[0])], Mat) else [('a variance', cc.args[self.args.index(self.cov)] > 0)]
        return con

    def setter(self, name, f, sets_weight=False):
        con = Contract('%s::%s' % (self.cls, name), ('%s::%s' % (self.cls, name), 1), modifies=[('this', f)] + ([('this', '_invR')] if sets_weight else []))
        con._pre = lambda cc: [('weighted by the inverse covariance', self.weighted(cc.old))] + ([('a variance', cc.args[0] > 0)] if sets_weight and not isinstance(cc.args[0], Mat) else [])
        con._post = lambda cx, exc: [('stored', self.same(fld(cx.new, f), cx.old_args[0])), ('weighted by the inverse covariance', self.weighted(cx.new))]
        return con

    def getter(self, name, f, sig=None):
        con = Contract('%s::%s' % (self.cls, name), ('%s::%s' % (self.cls, name), 0) + ((sig,) if sig else ()))
        con._post = lambda cx, exc: [('returned', self.same(fld(cx.old, f), cx.ret))]
        return con

    def copies(self):
        con = Contract(self.cls + '::copy', (self.cls + '::' + self.cls, 1))
        ac = Contract(self.cls + '::assignment', (self.cls + '::operator=', 1), modifies=[('this', None)])
        def setup(env):
            o = env.eng.read(env.st, env.vs[0])
            for (f, r, c) in self.exprs:
                o = o.with_(f, self.expr(f, r, c))
                if ('obj', 'this') in env.st.store and env.this_lv is not None and env.d['kind'] != 'CXXConstructorDecl':
                    t = env.st.store[('obj', 'this')]
                    env.st.store[('obj', 'this')] = t.with_(f, self.expr('other' + f, r, c))
            env.eng.write(env.st, env.vs[0], o)
        for k in (con, ac):
            k.setup = setup
            k._pre = lambda cc: [('weighted by the inverse covariance', self.weighted(cc.old_args[0]))]
            def post(cx, exc):
                a, b = cx.new, cx.old_args[0]
                return [('weighted by the inverse covariance', self.weighted(a))] + [('same ' + f, self.same(fld(a, f), fld(b, f))) for f in list(self.args)]
            k._post = post
        return [con, ac]

    def jacobians(self):
        con = Contract(self.cls + '::evaluateJacobians', (self.cls + '::evaluateJacobiansImplementation', 1), modifies=[('arg', 0)])
        def setup(env):
            self.setup(env)
            env.eng.write(env.st, env.vs[0], Obj('jac', items=()))
        con.setup = setup
        con._pre = lambda cc: [('defined there', f) for f in (self.dom(self.x, lambda f: fld(cc.old, f)) if self.dom else [])]
        def post(cx, exc):
            jac, spec = cx.new_args[0], self.error(cx.old)
            self.hint(cx)
            out = [('nothing else is reported', z3.BoolVal({n for (n, m) in jac.items} == set(self.x)))]
            for f, xs in self.x.items():
                J = reported(jac, f)
                if J is None:
                    out.append(('a Jacobian for ' + f, z3.BoolVal(False)))
                    continue
                out.append(('one row per error component and one column per parameter of ' + f, z3.BoolVal(J.r == self.dim and J.c == len(xs))))
                if J.r == self.dim and J.c == len(xs):
                    for i in range(self.dim):
                        for k, v in enumerate(xs):
                            out.append(('derivative of error %d by %s[%d]' % (i, f, k), lift(J.at(i, k)) == diff(spec[i], v)))
            return out
        con._post = post
        return con


    variant = None
    def tasks(self, unit, only=None):
        cs = [self.evaluate(), self.jacobians(), self.construction()] + self.copies() + [self.setter(n, f, f == self.cov) for (n, f) in self.setters] + [self.getter(*g) for g in self.getters]
        cs = cs[:only]
        return [Task(unit, c, opts=OPTS, tag=unit + (' ' + self.variant if self.variant and i < 2 else ''), contracts={('ErrorTerm::setDesignVariablesIterator', 2, None): iterated()}) for i, c in enumerate(cs)]


def iterated():
    con = Contract('ErrorTerm::setDesignVariablesIterator', ('ErrorTerm::setDesignVariablesIterator', 2), modifies=[('this', '_designVariables')])
    con.modular = True
    def post(cx, exc):
        a, b = cx.args[0], cx.args[1]
        if not (isinstance(a, It) and isinstance(b, It) and a.lv.root == b.lv.root):
            raise Unsupported('design variable range')
        s = cx.eng.read(cx.st, a.lv)
        v = cx.eng.read(cx.tstate, cx.this_lv).f['_designVariables'] if hasattr(cx, 'tstate') else cx.new.f['_designVariables']
        pos = z3.Const(fname('dvpos'), z3.ArraySort(I, I))
        return [('whole set', And(a.idx == 0, b.idx == s.size)), ('its members', fa(lambda i: Imp(And(0 <= i, i < v.n), s.has(v.a[i])), lambda i: v.a[i])),
                ('all of them', z3.ForAll([kk], Imp(s.has(kk), And(0 <= pos[kk], pos[kk] < v.n, v.a[pos[kk]] == kk)), patterns=[s.has(kk), pos[kk]]))]
    con._post = post
    return con


def lrf():
    def motion(x, f):
        a, b, u, T = x['_xkm1'], x['_xk'], f('_uk'), f('_T')
        d = [b[i] - a[i] for i in range(3)]
        c, s = cos(a[2]), sin(a[2])
        return [lift(u.e[0]) - (c * d[0] + s * d[1]) / T, lift(u.e[1]) - (-s * d[0] + c * d[1]) / T, lift(u.e[2]) - d[2] / T]
    def rel(x):
        p, l, th = x['_xk'], x['_xl'], x['_Theta']
        c, s = cos(p[2]), sin(p[2])
        return l[0] - (p[0] + th[0] * c - th[1] * s), l[1] - (p[1] + th[0] * s + th[1] * c)
    def obs(x, f):
        a, b = rel(x)
        return [f('_r') - sqrt(a * a + b * b), sm.angleMod(f('_b') - (atan2(b, a) - x['_xk'][2] - x['_Theta'][2]))]
    return [Term('ErrorTermMotion', 3, ('_xkm1', '_xk', '_T', '_uk', '_Q'), setters=(('setTimestep', '_T'), ('setInput', '_uk'), ('setCovariance', '_Q')), getters=(('getTimestep', '_T'), ('getInput', '_uk', 'CONST'), ('getCovariance', '_Q', 'CONST')),
                  dvs=(('_xkm1', 3), ('_xk', 3)), cov='_Q', error=motion, dom=lambda x, f: [f('_T') != 0]),
            Term('ErrorTermObservation', 2, ('_xk', '_xl', '_Theta', '_r', '_b', '_R'), setters=(('setRange', '_r'), ('setBearing', '_b'), ('setCovariance', '_R')), getters=(('getRange', '_r'), ('getBearing', '_b'), ('getCovariance', '_R', 'CONST')),
                  dvs=(('_xk', 3), ('_xl', 2), ('_Theta', 3)), cov='_R', error=obs, dom=lambda x, f: [rel(x)[0] * rel(x)[0] + rel(x)[1] * rel(x)[1] > 0])]





def m33(x, r0, c0):
    return Mat(3, 3, [x[(r0 + i) * 4 + c0 + j] for i in range(3) for j in range(3)], T_REAL)


class Pose(Term):
    """the state is a transformation; what the term hands to it is the Jacobian for a small left perturbation of it (assumed convention of the
    expression library: position and angles change by [I, t^; 0, S^-1] times the perturbation, S the matrix from angle rates to angular velocity)"""
    def jac_spec(self):
        x = self.x['_T']
        t = Mat(3, 1, [x[3], x[7], x[11]], T_REAL)
        S = inv_of(sm.smatrix(sm.ypr(m33(x, 0, 0))))
        C = sm.cross(t)
        J = [zero] * 36
        for i in range(3):
            J[i * 6 + i] = one
            for j in range(3):
                J[i * 6 + 3 + j] = C.at(i, j)
                J[(3 + i) * 6 + 3 + j] = S.at(i, j)
        return [-v for v in J]
    def jacobians(self):
        con = Term.jacobians(self)
        def post(cx, exc):
            J = reported(cx.new_args[0], '_T')
            ok = J is not None and {n for (n, m) in cx.new_args[0].items} == {'_T'} and (J.r, J.c) == (6, 6)
            return [('one six by six Jacobian', z3.BoolVal(ok))] + ([('entry %d,%d' % (i // 6, i % 6), lift(J.e[i]) == v) for i, v in enumerate(self.jac_spec())] if ok else [])
        con._post = post
        return con


def pose():
    def err(x, f):
        T, m = x['_T'], f('_Tm')
        a = sm.ypr(m33(T, 0, 0))
        return [lift(m.e[i]) - T[4 * i + 3] for i in range(3)] + [sm.angleMod(lift(m.e[3 + i]) - lift(a.e[i])) for i in range(3)]
    return Pose('ErrorTermPose', 6, ('_T', '_Tm', '_sigma2'), exprs=(('_T', 4, 4),), cov='_sigma2', error=err, setters=(('setInput', '_Tm'), ('setCovariance', '_sigma2')), getters=(('getInput', '_Tm', 'CONST'), ('getCovariance', '_sigma2', 'CONST')))


def wheel(front):
    """front: the wheel turns with the vehicle's direction of motion, otherwise it points forward"""
    def speed(x):
        v0, v1, v2 = x['_v_v_mw']
        s = sqrt(v0 * v0 + v1 * v1)
        return z3.If(v0 < 0, -s, s)
    def err(x, f):
        v, k = x['_v_v_mw'], x['_k'][0]
        if front:
            return [f('_measurement') - k * speed(x), zero, -v[2]]
        return [f('_measurement') - k * v[0], -v[1], -v[2]]
    def hints(x, f):
        v0, v1, v2 = x['_v_v_mw']
        return []
    t = Term('ErrorTermWheel', 3, ('_v_v_mw', '_k', '_measurement', '_sigma2Wheel', '_frontEnabled'), exprs=(('_v_v_mw', 3, 1), ('_k', 1, 1)), cov='_sigma2Wheel', error=err, hints=hints,
             dom=lambda x, f: [f('_frontEnabled') == front] + ([x['_v_v_mw'][0] != 0] if front else []),
             setters=(('setMeasurement', '_measurement'), ('setCovariance', '_sigma2Wheel'), ('setFrontEnabled', '_frontEnabled')), getters=(('getMeasurement', '_measurement'), ('getCovariance', '_sigma2Wheel'), ('getFrontEnabled', '_frontEnabled')))
    t.variant = 'front' if front else 'rear'
    return t


def steering():
    def err(x, f):
        a, v, m = x['_params'], x['_v_v_mw'], f('_measurement')
        return [sm.angleMod(a[0] + a[1] * m + a[2] * m * m + a[3] * m * m * m - atan2(v[1], v[0]))]
    return Term('ErrorTermSteering', 1, ('_v_v_mw', '_measurement', '_sigma2', '_params'), dvs=(('_params', 4),), exprs=(('_v_v_mw', 3, 1),), cov='_sigma2', error=err, dom=lambda x, f: [x['_v_v_mw'][0] != 0],
                setters=(('setMeasurement', '_measurement'), ('setVariance', '_sigma2')), getters=(('getMeasurement', '_measurement'), ('getVariance', '_sigma2')))


def velocities():
    def err(x, f):
        return [lift(f(m).e[i]) - x[e][i] for (e, m) in (('_r_v_mr', '_r_v_mr_m'), ('_r_om_mr', '_r_om_mr_m')) for i in range(3)]
    return Term('ErrorTermVelocities', 6, ('_r_v_mr', '_r_om_mr', '_r_v_mr_m', '_r_om_mr_m', '_sigma2_v', '_sigma2_om'), exprs=(('_r_v_mr', 3, 1), ('_r_om_mr', 3, 1)), cov=('_sigma2_v', '_sigma2_om'), error=err)


class P(Property):
    id = 'C17'
    units = {'lrf': dict(code='#include "%s2dlrf/src/2dlrf/ErrorTermMotion.cpp"\n#include "%s2dlrf/src/2dlrf/ErrorTermObservation.cpp"\n' % (X, X), extra=('-I%s2dlrf/include' % XR,), flt='aslam'),
             'car': dict(code=''.join('#include "%scar/src/error-terms/ErrorTerm%s.cpp"\n' % (X, n) for n in ('Pose', 'Wheel', 'Steering', 'Velocities')), extra=('-I%scar/include' % XR,), flt='aslam'),
             'td': dict(code=''.join('#include "%stime_delay/src/error-terms/ErrorTerm%s.cpp"\n' % (X, n) for n in ('Pose', 'Wheel')), extra=('-I%stime_delay/include' % XR,), flt='aslam')}
    harness = Harness('C17.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], flags=['-I$REPO/incremental_calibration_examples'] + ['-I%s%s/include' % (XR, x) for x in ('2dlrf', 'car', 'time_delay')], quick=4, thorough=40, san=True)
    assumptions = ["aslam_backend's error term base class, expressions and Jacobian container, and sm_kinematics, are replaced by the stand-ins in /verif/stubs or by assumed contracts (Backend and Sm hooks)",
                   'angleMod is an uninterpreted function whose derivative is one (true except at the jump)', 'derivatives are those of real-valued functions; rounding is not modelled',
                   'the pose Jacobian is compared with the closed form for the perturbation convention of the expression library', 'writing through the non-const getCovariance reference is not covered']
    def tasks(self, U):
        ts = []
        for t in lrf():
            ts += t.tasks('lrf')
        for u in ('car', 'td'):
            ts += pose().tasks(u) + wheel(False).tasks(u) + wheel(True).tasks(u, only=2)
        for t in (steering(), velocities()):
            ts += t.tasks('car')
        return ts


PROPERTY = P()
