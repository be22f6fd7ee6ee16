"""Every measurement a calibrator takes becomes the error terms that predict it from the trajectory, the calibration and its delayed time."""
from vc.util import *
from vc.models import Hook, UF1, UF2
from vc.values import Mat, PairV, Rec, Obj, PtrTo, LV, It, VecV, T_REAL, parse_type, lift
import re
import vc.ast
from contracts import sm
from contracts.C19 import fld
K = Contract
XR = vc.ast.REPO + '/incremental_calibration_examples/incremental_calibration_examples_'
LOG, DONE, MADE, PUSH = ('ghost', 'log'), ('ghost', 'done'), ('ghost', 'made'), ('ghost', 'pushed')
SIZE = {'ErrorTermWheel': 3, 'ErrorTermPose': 6, 'ErrorTermVelocities': 6, 'ErrorTermSteering': 1}
TMIN, TMAX = {k: z3.Int('min_time_of_%s' % k) for k in ('translation', 'rotation')}, {k: z3.Int('max_time_of_%s' % k) for k in ('translation', 'rotation')}
POS = [[z3.Function('translation_d%d_%d' % (d, i), I, R) for i in range(3)] for d in range(3)]      # the spline and its derivatives
ROT = [z3.Function('rotation_%d' % i, I, R) for i in range(9)]                                    # the rotation matrix of its quaternion
OM = [z3.Function('angular_velocity_%d' % i, I, R) for i in range(3)]
YPR = [z3.Function('yaw_pitch_roll_%d' % i, *([R] * 10)) for i in range(3)]
zero = z3.RealVal(0)


def dv(name, n=1, w=''):
    return [z3.Real('%s%s_%d' % (name, w, i)) for i in range(n)]


def delay(name):
    return z3.Int('delay_' + name)


# vectors and matrices of terms
def add(a, b): return [x + y for x, y in zip(a, b)]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def neg(a): return [-x for x in a]
def scale(a, s): return [x * s for x in a]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def tr(M): return [M[3 * j + i] for i in range(3) for j in range(3)]
def mv(M, v): return [M[3 * i] * v[0] + M[3 * i + 1] * v[1] + M[3 * i + 2] * v[2] for i in range(3)]
def mm(A, B): return [sum3([A[3 * i + k] * B[3 * k + j] for k in range(3)]) for i in range(3) for j in range(3)]
def sum3(x): return x[0] + x[1] + x[2]


MATS = {'w_r_wp': (3, 1), 'w_R_p': (3, 1), 'sigma2_w_r_wp': (3, 3), 'sigma2_w_R_p': (3, 3), 'm_r_mr': (3, 1), 'm_R_r': (3, 1), 'sigma2_m_r_mr': (3, 3), 'sigma2_m_R_r': (3, 3),
        'r_v_mr': (3, 1), 'r_om_mr': (3, 1), 'sigma2_r_v_mr': (3, 3), 'sigma2_r_om_mr': (3, 3), 'value': None, 'left': None, 'right': None, 'wheelSpeed': None}


def component(y, n):
    """a component of a measurement"""
    f = lambda w: z3.Function('measured_' + n + w, y.sort(), R)(y)
    if n not in MATS:
        raise Unsupported('measurement component ' + n)
    return f('') if MATS[n] is None else Mat(MATS[n][0], MATS[n][1], [f('_%d_%d' % (i, j)) for i in range(MATS[n][0]) for j in range(MATS[n][1])], T_REAL)


class Expressions(Hook):
    """aslam's expressions by the values they stand for; splines by their values at a time; error terms by what they are made of"""
    def heap_field(self, eng, e, st, lv, name):
        if z3.eq(z3.simplify(lv.root[1] - fld(st.store[('obj', 'this')], '_odometryDesignVariables')), z3.IntVal(0)):
            root = ('dv', name)
            st.store.setdefault(root, Obj('dv', name=name))
            return [(st, PtrTo(LV(root)))]
        return None
    def value_component(self, v, name):
        return component(v, name) if z3.is_expr(v) and str(v.sort()).endswith('Measurement') else None
    def value_field(self, eng, e, st, v, name):
        r = self.value_component(v, name)
        return None if r is None else [(st, r)]
    def args(self, args):
        return [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    def each(self, eng, args, st, f):
        return [(t, f(t, [eng.read(t, v) for v in vs])) for (t, vs) in eng.ev_list(self.args(args), st)]
    def vector(self, eng, st, lv, name, args):
        if name == 'push_back' and len(self.args(args)) == 1 and isinstance(lv, LV) and lv.root == ('obj', 'this') and lv.path and 'Pred' in str(lv.path[-1][1]):
            def push(t, vs):
                t.store[PUSH] = Obj('log', items=t.store[PUSH].items + ((lv.path[-1][1], vs[0]),))
            return self.each(eng, args, st, push)
        return None
    def member(self, eng, e, me, st, lv, obj, name, args):
        tag = obj.tag if isinstance(obj, Obj) else None
        n = len(self.args(args))
        if tag == 'dv':
            if name == 'toExpression' and n == 0:
                return [(st, Obj('time', v=delay(obj.name)))]
            if name == 'toScalar' and n == 0:
                return [(st, Obj('time', v=delay(obj.name)) if 'Scalar<' in self.type(me) else dv(obj.name)[0])]
        if tag == 'time':
            if name == 'toScalar' and n == 0:
                return [(st, obj)]
            if name == 'getNumerator' and n == 0:
                return [(st, obj.v)]
        if tag == 'et':
            w = '_'.join(str(x) for x in lv.root[1:])
            if name == 'evaluateError' and n == 0:
                st.store[lv.root] = Obj('et', cls=obj.cls, args=obj.args, done=True)
                return [(st, z3.Real('squared_error_of_' + w))]
            if name == 'error' and n == 0:
                eng.oblige(st, z3.BoolVal(getattr(obj, 'done', False)), 'the error is evaluated before it is read', 'pre')
                return [(st, Mat(SIZE[obj.cls], 1, [z3.Real('error_of_%s_%d' % (w, i)) for i in range(SIZE[obj.cls])], T_REAL))]
        if tag == 'ypr' and name == 'rotationMatrixToParameters' and n == 1:
            return self.each(eng, args, st, lambda t, vs: Mat(3, 1, [f(*[lift(x) for x in vs[0].e]) for f in YPR], T_REAL))
        if tag == 'spline':
            if name in ('getMinTime', 'getMaxTime') and n == 0:
                return [(st, (TMIN if name == 'getMinTime' else TMAX)[obj.kind])]
            if name == 'getExpressionFactoryAt' and n in (1, 3):
                def at(t, vs):
                    x = vs[0].v if isinstance(vs[0], Obj) and vs[0].tag == 'time' else vs[0]
                    lo, hi = (vs[1], vs[2]) if n == 3 else (x, x)
                    eng.oblige(t, And(TMIN[obj.kind] <= lo, lo <= x, x <= hi, hi <= TMAX[obj.kind]), 'the %s spline is evaluated where it is defined' % obj.kind, 'pre')
                    return Obj('factory', kind=obj.kind, t=x)
                return self.each(eng, args, st, at)
        if tag == 'factory':
            if name == 'getValueExpression' and n in (0, 1):
                def value(t, vs):
                    d = z3.simplify(vs[0]).as_long() if vs else 0
                    if obj.kind == 'rotation':
                        if d:
                            raise Unsupported('derivative of the rotation')
                        return Obj('quat', m=[f(obj.t) for f in ROT])
                    return Obj('euc', v=[f(obj.t) for f in POS[d]])
                return self.each(eng, args, st, value)
            if name == 'getAngularVelocityExpression' and n == 0 and obj.kind == 'rotation':
                return [(st, Obj('euc', v=[f(obj.t) for f in OM]))]
        if tag == 'rot':
            if name == 'inverse' and n == 0:
                return [(st, Obj('rot', m=tr(obj.m)))]
            if name == 'toRotationMatrix' and n == 0:
                return [(st, Mat(3, 3, list(obj.m), T_REAL))]
        if tag == 'euc':
            if name == 'cross' and n == 1:
                return self.each(eng, args, st, lambda t, vs: Obj('euc', v=cross(obj.v, self.euc(vs[0]))))
            if name == 'toValue' and n == 0:
                return [(st, Mat(3, 1, list(obj.v), T_REAL))]
        if tag == 'sca' and name == 'toScalar' and n == 0:
            return [(st, obj.v)]
        if tag == 'batch' and name == 'addErrorTerm' and n == 1:
            def put(t, vs):
                p = vs[0]
                if not (isinstance(p, PtrTo) and p.lv.root[0] == 'et'):
                    raise Unsupported('error term')
                t.store[LOG] = Obj('log', items=t.store[LOG].items + (t.store[p.lv.root],))
            return self.each(eng, args, st, put)
        return None
    def type(self, me):
        return ' '.join((me.get('inner') or [{}])[0].get('type', {}).get(k, '') for k in ('qualType', 'desugaredQualType'))
    def euc(self, x):
        if isinstance(x, Obj) and x.tag == 'euc':
            return x.v
        if isinstance(x, Mat) and (x.r, x.c) == (3, 1):
            return [lift(v) for v in x.e]
        raise Unsupported('not a Euclidean expression: %r' % (x,))
    def operator(self, eng, e, st, op, vs, av, bv):
        ta, tb = (av.tag if isinstance(av, Obj) else None), (bv.tag if isinstance(bv, Obj) else None)
        if op == '*' and ta == 'rot' and tb == 'rot':
            return [(st, Obj('rot', m=mm(av.m, bv.m)))]
        if op == '*' and ta == 'rot' and tb == 'euc':
            return [(st, Obj('euc', v=mv(av.m, bv.v)))]
        if op in '+-' and ta == 'euc' and tb == 'euc':
            return [(st, Obj('euc', v=(add if op == '+' else sub)(av.v, bv.v)))]
        if op == '-' and ta == 'euc' and len(vs) == 1:
            return [(st, Obj('euc', v=neg(av.v)))]
        if op == '*' and {ta, tb} == {'euc', 'sca'}:
            return [(st, Obj('euc', v=scale(av.v, bv.v) if ta == 'euc' else scale(bv.v, av.v)))]
        if op in '+-' and ta == 'time' and tb == 'time' and len(vs) == 2:
            return [(st, Obj('time', v=av.v + bv.v if op == '+' else av.v - bv.v))]
        return None
    def function(self, eng, e, ref, name, args, st):
        if name == 'adapt' and len(args) == 1:
            return self.each(eng, args, st, lambda t, vs: Obj('rot', m=vs[0].m))
        if name == 'make_pair' and len(args) == 2:
            return self.each(eng, args, st, lambda t, vs: PairV(vs[0], vs[1], None, None))
        if name == 'make_shared':
            m = re.search(r'shared_ptr<[\w:]*?(ErrorTerm\w+)>', ' '.join((e.get('type') or {}).get(k, '') for k in ('qualType', 'desugaredQualType')) + ' ' + ' '.join((ref.get('type') or {}).get(k, '') for k in ('qualType',)))
            if m:
                def make(t, vs):
                    root = ('et', fname('et'))
                    t.store[root] = Obj('et', cls=m.group(1), args=tuple(vs))
                    t.store[MADE] = Obj('log', items=t.store[MADE].items + (root,))
                    return PtrTo(LV(root))
                return self.each(eng, args, st, make)
        return None
    def construct(self, eng, e, T, args, st):
        if T.k in ('pair', 'eig') and len(args) == 1:
            r = [(t, eng.read(t, v)) for (t, v) in eng.rv(args[0], st)]
            return r if all(isinstance(v, PairV) and T.k == 'pair' or isinstance(v, Mat) and T.k == 'eig' and T[2] == -1 for (t, v) in r) else None
        if T.k != 'cls':
            return None
        if T[1].endswith('EulerAnglesYawPitchRoll') and not args:
            return [(st, Obj('ypr'))]
        c = T[1].split('<')[0].split('::')[-1]
        if c not in ('EuclideanExpression', 'RotationExpression', 'ScalarExpression', 'GenericScalarExpression', 'TransformationExpression', 'FixedPointNumber', 'VectorExpression', 'BSpline', 'Factory'):
            return None
        def make(t, vs):
            if len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].tag == {'EuclideanExpression': 'euc', 'RotationExpression': 'rot', 'ScalarExpression': 'sca', 'GenericScalarExpression': 'time', 'TransformationExpression': 'tra', 'FixedPointNumber': 'time', 'Factory': 'factory'}.get(c):
                return vs[0]
            d = None
            if len(vs) == 1 and isinstance(vs[0], PtrTo) and vs[0].lv.root[0] == 'dv':
                d = vs[0].lv.root[1]
            if c == 'VectorExpression' and len(vs) == 1 and isinstance(vs[0], Obj):
                return vs[0]
            if c == 'EuclideanExpression' and len(vs) == 1:
                return Obj('euc', v=dv(d, 3) if d else self.euc(vs[0]))
            if c == 'RotationExpression' and d:
                return Obj('rot', m=dv(d, 9))
            if c == 'ScalarExpression' and d:
                return Obj('sca', v=dv(d)[0])
            if c in ('GenericScalarExpression', 'FixedPointNumber') and len(vs) == 1:
                if isinstance(vs[0], Rec) and len(vs[0].f) == 1:
                    vs = [lift(list(vs[0].f.values())[0])]
                if not (z3.is_expr(vs[0]) and vs[0].sort() == I):
                    raise Unsupported('time from %r' % (vs[0],))
                return Obj('time', v=vs[0])
            if c == 'TransformationExpression' and len(vs) == 2 and vs[0].tag == 'rot' and vs[1].tag == 'euc':
                return Obj('tra', m=vs[0].m, v=vs[1].v)
            raise Unsupported('construction of ' + c)
        return self.each(eng, args, st, make)


ASSUMED = ('make_shared', 'adapt') + tuple(q + c for c in ('EuclideanExpression', 'RotationExpression', 'ScalarExpression', 'GenericScalarExpression', 'TransformationExpression', 'VectorExpression', 'FixedPointNumber') for q in ('', 'aslam::backend::', 'backend::', 'sm::timing::'))


class Each(Loop):
    """the iteration for a measurement makes exactly the error terms of this measurement"""
    def __init__(self, want):
        self.want = want
    def ghost_init(self, lc):
        lc.add_ghost('done', z3.IntVal(0))
        if any(lc.entry.store[g].items for g in (LOG, PUSH)):
            lc.eng.oblige(lc.entry, z3.BoolVal(False), 'no error terms but those of the measurements', 'post')
    def cands(self, lc):
        out = []
        for (nm, cur) in lc.cursors():
            c0 = cur(lc.entry)
            out.append(('%s is at the next measurement' % nm, lambda s, cur=cur, c0=c0: cur(s) == c0 + s.store[DONE]))
            out.append(('%s is at the next measurement (downwards)' % nm, lambda s, cur=cur, c0=c0: cur(s) == c0 - s.store[DONE]))
        return out
    def ghost_step(self, lc, t):
        k = t.store[DONE]
        if not lc.eng.mute:
            for (nm, g) in self.want(t, k, t.store[LOG].items):
                lc.eng.oblige(t, g, nm, 'post')
        for g in (LOG, MADE, PUSH):
            t.store[g] = Obj('log', items=())
        t.store[DONE] = k + 1


# ---------------------------------------------------------------- what a measurement has to become
def diag(xs):
    n = len(xs)
    return Mat(n, n, [xs[i] if i == j else zero for i in range(n) for j in range(n)], T_REAL)


def eqm(a, b):
    if isinstance(a, Obj) and a.tag in ('tra',):
        return And([x == y for x, y in zip(list(a.m) + list(a.v), list(b.m) + list(b.v))])
    if isinstance(a, Obj) and a.tag == 'euc':
        return And([x == y for x, y in zip(a.v, b)]) if len(b) == 3 else z3.BoolVal(False)
    if isinstance(a, Obj) and a.tag == 'sca':
        return a.v == b
    if isinstance(a, Obj) and a.tag == 'diag':
        a = diag(list(a.d))
    if isinstance(a, Mat):
        if isinstance(b, Mat):
            return And([lift(x) == lift(y) for x, y in zip(a.e, b.e)]) if (a.r, a.c) == (b.r, b.c) else z3.BoolVal(False)
        return z3.BoolVal(False)
    if z3.is_expr(a) and z3.is_expr(b):
        return a == b
    raise Unsupported('comparison of %r' % (a,))


def motion(t):
    """velocity and angular velocity of the vehicle at a time, in the vehicle frame"""
    Rt = tr([f(t) for f in ROT])
    return mv(Rt, [f(t) for f in POS[1]]), mv(Rt, neg([f(t) for f in OM]))


def at(t, p):
    v, w = motion(t)
    return add(v, cross(w, p))


class Builder:
    def __init__(self, unit, cls, name, M, kept, terms, pre=None):
        self.unit, self.cls, self.name, self.M, self._kept, self._terms, self._pre = unit, cls, name, M, kept, terms, pre
    def fn(self):
        return '%s::add%sErrorTerms' % (self.cls, self.name), 2
    def options(self, t):
        o = fld(t.store[('obj', 'this')], '_options')
        return lambda n: lift(fld(o, n)) if z3.is_expr(fld(o, n)) else fld(o, n)
    def want(self, t, k, items):
        m = self.eng.read(t, LV(('obj', 'arg0')).sub(('at', k)))
        m = self.eng.read(t, m) if isinstance(m, LV) else m
        x, y = self.eng.getp(t, m, ('f', 'first')), self.eng.getp(t, m, ('f', 'second'))
        g = lambda n: component(y, n)
        o = self.options(t)
        kept, terms = self._kept(o, x, g), self._terms(o, x, g)
        return self.compare(t, o, x, g, kept, terms, items)
    def compare(self, t, o, x, g, kept, terms, items):
        if not items:
            return [('a measurement that can be predicted is not left out', Not(kept))]
        out = [('a measurement that cannot be predicted is left out', kept), ('as many error terms as the measurement needs', z3.BoolVal(len(items) == len(terms)))]
        if len(items) != len(terms):
            return out
        for i, (et, (cls, parts)) in enumerate(zip(items, terms)):
            w = '' if len(terms) == 1 else ' of term %d' % i
            out.append(('kind of error term' + w, z3.BoolVal(et.cls == cls and len(et.args) in (len(parts), len(parts) - (parts[-1][0] == 'front wheel')))))
            if et.cls != cls:
                continue
            for j, (nm, want) in enumerate(parts):
                if j >= len(et.args):
                    a = z3.BoolVal(False)
                else:
                    a = et.args[j]
                if isinstance(want, str):
                    out.append((nm + w, z3.BoolVal(isinstance(a, PtrTo) and a.lv.root == ('dv', want))))
                elif isinstance(a, Obj) and a.tag == 'euc':
                    out += [('%s%s, component %d' % (nm, w, q), a.v[q] == want[q]) for q in range(3)]
                elif isinstance(a, Obj) and a.tag == 'tra':
                    out += [('%s%s, component %d' % (nm, w, q), p == r) for q, (p, r) in enumerate(zip(list(a.m) + list(a.v), list(want[0]) + list(want[1])))]
                else:
                    out.append((nm + w, eqm(a, want)))
        return out
    def task(self):
        n, ar = self.fn()
        con = K(n, (n, ar))
        def setup(env):
            st = env.st
            self.eng = env.eng
            for g in (LOG, MADE, PUSH):
                st.store[g] = Obj('log', items=())
            this = st.store[('obj', 'this')]
            for f, w in (('_translationSpline', 'translation'), ('_rotationSpline', 'rotation')):
                st.store[('spline', w)] = Obj('spline', kind=w)
                this = this.with_(f, PtrTo(LV(('spline', w))))
            st.store[('obj', 'this')] = this
            st.assume(fld(this, '_odometryDesignVariables') > 0)
            if len(env.vs) > 1:
                st.store[('batch', 0)] = Obj('batch')
                env.eng.write(st, env.vs[1], PtrTo(LV(('batch', 0))))
            st.assume(And(TMIN['translation'] == TMIN['rotation'], TMAX['translation'] == TMAX['rotation']))
            con.n = env.eng.read(st, env.vs[0]).n
            st.assume(con.n >= 0)
            if self._pre:
                a = env.eng.read(st, env.vs[0])
                P = a.a[z3.Int('k0')].sort()
                st.assume(fa(lambda k: Imp(And(0 <= k, k < a.n), self._pre(P.accessor(0, 0)(a.a[k]))), lambda k: [a.a[k]]))
            o = fld(this, '_options')
            if 'delayBound' in o.f:
                st.assume(fld(o, 'delayBound') >= 0)
        def post(cx, exc):
            return [('every measurement is dealt with', cx.st.store[DONE] == con.n if DONE in cx.st.store else z3.BoolVal(False)), ('no error terms but those of the measurements', z3.BoolVal(not cx.st.store[LOG].items and not cx.st.store[PUSH].items))]
        con.setup, con._post = setup, post
        con.loop = Each(self.want)
        return Task(self.unit, con, tag=self.unit, opts={'hooks': [Expressions(), sm.Sm()], 'mute': True, 'divzero': False, 'assumed': ASSUMED})


class Predictor(Builder):
    """the errors a prediction reports are those of the error terms the estimator is given"""
    def __init__(self, b, name, field, value=None, delay=None):
        Builder.__init__(self, b.unit, b.cls, b.name, b.M, b._kept, b._terms, b._pre)
        self.function, self.pred, self.value, self.delay = name, field, value, delay
    def fn(self):
        return '%s::%s' % (self.cls, self.function), 1
    def compare(self, t, o, x, g, kept, terms, items):
        P = t.store[PUSH].items
        of = lambda s: [v for (n, v) in P if n == self.pred + s]
        a, e, e2 = of('Pred'), of('PredErrors'), of('PredErrors2')
        if not P:
            return [('a measurement that can be predicted is predicted', Not(kept))]
        out = [('a measurement that cannot be predicted is not', kept), ('one prediction with its error and squared error, for the sensor of the measurement', z3.BoolVal(len(a) == len(e) == len(e2) == 1 and len(P) == 3)), ('no error terms but in the prediction', z3.BoolVal(not items))]
        if not (len(a) == len(e) == len(e2) == 1 and isinstance(e[0], Mat) and isinstance(a[0], PairV)):
            return out + [('shape of the prediction', z3.BoolVal(False))]
        roots, rest = [], [str(z3.simplify(lift(v))) for v in e[0].e]
        while rest:      # which terms the reported errors are of
            r = next((r for r in t.store[MADE].items if rest[0] == 'error_of_%s_0' % '_'.join(str(q) for q in r[1:])), None)
            if r is None:
                return out + [('the reported errors are those of error terms', z3.BoolVal(False))]
            n = SIZE[t.store[r].cls]
            out.append(('the whole error of a term is reported', z3.BoolVal(rest[:n] == ['error_of_%s_%d' % ('_'.join(str(q) for q in r[1:]), i) for i in range(n)])))
            roots.append(r)
            rest = rest[n:]
        out.append(('the squared error is that of the reported terms', lift(e2[0]) == z3.Sum([z3.Real('squared_error_of_' + '_'.join(str(q) for q in r[1:])) for r in roots])))
        at = lift(a[0].first)
        out.append(('the prediction is for the time of the measurement', at == x if self.delay is None else Or(at == x, at == x + delay(self.delay))))
        if self.value:
            for (f, want) in self.value(o, x, g):
                got = fld(a[0].second, f) if isinstance(a[0].second, Rec) else component(a[0].second, f)
                if isinstance(want, list):
                    out += [('predicted %s, component %d' % (f, i), lift(got.e[i]) == w) for i, w in enumerate(want)]
                else:
                    out.append(('predicted %s' % f, lift(got) == want))
        return out + [q for q in Builder.compare(self, t, o, x, g, kept, terms, [t.store[r] for r in roots])]


def pose_values(v_r, v_R, r, w):
    def f(o, x, g):
        Rm = [q(x) for q in ROT]
        M = mm(Rm, dv(v_R, 9))
        return [(r, add([q(x) for q in POS[0]], mv(Rm, dv(v_r, 3)))), (w, [f(*M) for f in YPR])]
    return f


def vel_values(o, x, g):
    v, w = motion(x)
    Rt = tr(dv('v_R_r', 9))
    return [('r_v_mr', mv(Rt, add(v, cross(w, dv('v_r_vr', 3))))), ('r_om_mr', mv(Rt, w))]


def wheel_value(d, p, k, f):
    return lambda o, x, g: [(q, dv(kk)[0] * at(x + delay(d), pp)[0]) for q, pp, kk in zip(f, p, k)]


def steer_value(o, x, g):
    v = at(x + delay('t_s'), [dv('L')[0], zero, zero])
    return [('value', UF2['atan2'](v[1], v[0]))]


def inside(o, x):
    return And(x + o('delayBound') <= TMAX['translation'], x - o('delayBound') >= TMIN['translation'])


def wheel(vel, k, m, var, front=False):
    return ('ErrorTermWheel', [('velocity of the wheel', vel), ('scale of the wheel', k), ('measured speed', m), ('covariance', diag(list(var))), ('front wheel', z3.BoolVal(front))])


def pose_terms(v_r, v_R, T, mr, mR, sr, sR):
    def f(o, x, g):
        Rm = [q(x) for q in ROT]
        S = Mat(6, 6, [g(sr).at(i, j) if i < 3 and j < 3 else g(sR).at(i - 3, j - 3) if i >= 3 and j >= 3 else zero for i in range(6) for j in range(6)], T_REAL)
        return [('ErrorTermPose', [('pose of the sensor', (mm(Rm, dv(v_R, 9)), add([q(x) for q in POS[0]], mv(Rm, dv(v_r, 3))))), ('measured pose', Mat(6, 1, list(g(mr).e) + list(g(mR).e), T_REAL)), ('covariance', S)])]
    return f


ALWAYS = lambda o, x, g: z3.BoolVal(True)
DEFINED = lambda x: And(TMIN['translation'] <= x, x <= TMAX['translation'])


def delayed(d):
    return lambda o, x, g: inside(o, x + delay(d))


def one_wheel(d, p, k, m, var):
    return lambda o, x, g: [wheel(at(x + delay(d), p), dv(k)[0], g(m), [o(var), o('vyVariance'), o('vzVariance')])]


def two_wheels(d, l, e, ks, vs, front):
    def f(o, x, g):
        L = dv(l)[0] if l else zero
        y = dv(e)[0]
        return [wheel(at(x + delay(d), [L, s, zero]), dv(k)[0], g(m), [o(v), o('vyVariance'), o('vzVariance')], front) for (s, k, m, v) in ((y, ks[0], 'left', vs[0]), (-y, ks[1], 'right', vs[1]))]
    return f


def fast(d):
    def f(o, x, g):
        c = o('wheelSpeedSensorCutoff')
        c = z3.ToReal(c) if c.sort() == I else c
        return And(g('left') >= c, g('right') >= c, inside(o, x + delay(d)), motion(x + delay(d))[0][0] >= 0)
    return f


def steer(o, x, g):
    v = at(x + delay('t_s'), [dv('L')[0], zero, zero])
    return [('ErrorTermSteering', [('velocity of the steered axle', v), ('measured angle', g('value')), ('variance', o('steeringVariance')), ('steering coefficients', 'a')])]


def turning(o, x, g):
    v = at(x + delay('t_s'), [dv('L')[0], zero, zero])[0]
    return And(inside(o, x + delay('t_s')), If(v >= 0, v, -v) >= o('linearVelocityTolerance'))


def vel_terms(o, x, g):
    v, w = motion(x)
    Rt = tr(dv('v_R_r', 9))
    return [('ErrorTermVelocities', [('velocity of the sensor', mv(Rt, add(v, cross(w, dv('v_r_vr', 3))))), ('angular velocity of the sensor', mv(Rt, w)), ('measured velocity', g('r_v_mr')), ('measured angular velocity', g('r_om_mr')), ('covariance of the velocity', g('sigma2_r_v_mr')), ('covariance of the angular velocity', g('sigma2_r_om_mr'))])]


class P(Property):
    id = 'C22'
    units = {'car': dict(code='#include "%scar/src/algo/CarCalibrator.cpp"\n' % XR, flt='aslam', extra=('-I%scar/include' % XR,)),
             'delay': dict(code='#include "%stime_delay/src/algo/Calibrator.cpp"\n' % XR, flt='aslam', extra=('-I%stime_delay/include' % XR,))}
    assumptions = ['expressions and splines of aslam are not available: an expression stands for its value (products, sums, inverse rotations, cross products as in linear algebra), a spline for uninterpreted functions of time, an error term for what it is made of (its error is under contract in C17)',
                   'both splines cover the same time, which covers the poses they were fitted to; the bound on the delay is not negative',
                   'a term has an error and a squared error, uninterpreted (they are under contract in C17); the predicted wheel speeds with the steered-wheel formula are bounded only (harness); the fit of the splines is under contract in C21']
    harness = Harness('C22.cpp', ['$REPO/incremental_calibration/src/core/OptimizationProblem.cpp', '$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'],
                      flags=['-I$REPO/incremental_calibration_examples', '-I$REPO/aslam_tsvd_solver/include'] + ['-I$REPO/incremental_calibration_examples/incremental_calibration_examples_%s/include' % x for x in ('car', 'time_delay')], quick=8, thorough=60, san=True)
    def tasks(self, U):
        b = dv('b')[0]
        C, D = ('car', 'CarCalibrator'), ('delay', 'Calibrator')
        B = [Builder(*D, 'LeftWheel', None, delayed('t_l'), one_wheel('t_l', [zero, b, zero], 'k_l', 'value', 'lwVariance')),
             Builder(*D, 'RightWheel', None, delayed('t_r'), one_wheel('t_r', [zero, -b, zero], 'k_r', 'value', 'rwVariance')),
             Builder(*D, 'Pose', None, ALWAYS, pose_terms('v_r_vp', 'v_R_p', None, 'w_r_wp', 'w_R_p', 'sigma2_w_r_wp', 'sigma2_w_R_p'), DEFINED),
             Builder(*C, 'Pose', None, ALWAYS, pose_terms('v_r_vr', 'v_R_r', None, 'm_r_mr', 'm_R_r', 'sigma2_m_r_mr', 'sigma2_m_R_r'), DEFINED),
             Builder(*C, 'Velocities', None, lambda o, x, g: DEFINED(x), vel_terms),
             Builder(*C, 'DMI', None, delayed('t_dmi'), one_wheel('t_dmi', [zero, dv('e_r')[0], zero], 'k_dmi', 'wheelSpeed', 'dmiVariance')),
             Builder(*C, 'FrontWheels', None, fast('t_f'), two_wheels('t_f', 'L', 'e_f', ('k_fl', 'k_fr'), ('flwVariance', 'frwVariance'), True)),
             Builder(*C, 'RearWheels', None, fast('t_r'), two_wheels('t_r', None, 'e_r', ('k_rl', 'k_rr'), ('rlwVariance', 'rrwVariance'), False)),
             Builder(*C, 'Steering', None, turning, steer)]
        e = dv('e_r')[0]
        Q = [Predictor(B[0], 'predictLeftWheel', '_leftWheelSpeedMeasurements', None, 't_l'),
             Predictor(B[1], 'predictRightWheel', '_rightWheelSpeedMeasurements', None, 't_r'),
             Predictor(B[2], 'predictPoses', '_poseMeasurements', pose_values('v_r_vp', 'v_R_p', 'w_r_wp', 'w_R_p')),
             Predictor(B[3], 'predictPoses', '_poseMeasurements', pose_values('v_r_vr', 'v_R_r', 'm_r_mr', 'm_R_r')),
             Predictor(B[4], 'predictVelocities', '_velocitiesMeasurements', vel_values),
             Predictor(B[5], 'predictDMI', '_dmiMeasurements', wheel_value('t_dmi', ([zero, e, zero],), ('k_dmi',), ('wheelSpeed',)), 't_dmi'),
             Predictor(B[6], 'predictFrontWheels', '_frontWheelSpeedsMeasurements', None, 't_f'),
             Predictor(B[7], 'predictRearWheels', '_rearWheelSpeedsMeasurements', wheel_value('t_r', ([zero, e, zero], [zero, -e, zero]), ('k_rl', 'k_rr'), ('left', 'right')), 't_r'),
             Predictor(B[8], 'predictSteering', '_steeringMeasurements', steer_value, 't_s')]
        return [x.task() for x in B + Q]


PROPERTY = P()
