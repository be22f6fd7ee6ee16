"""The example calibrators take every setting from the configuration entry meant for it and hand all their design variables to the batches."""
from vc.util import *
from vc.eig import eqv
from vc.models import Hook, throw_split
from vc.values import Mat, Rec, Obj, PtrTo, LV, VecV, Uninit, T_REAL, tosort
import re
import vc.ast
from contracts import sm, ptree
from contracts.C19 import fld
K = Contract
X = '$REPO/incremental_calibration_examples/incremental_calibration_examples_'
XR = X.replace('$REPO', vc.ast.REPO)
TREE = z3.Int('tree')
AII, AIB = z3.ArraySort(I, I), z3.ArraySort(I, B)
SECONDS = z3.Function('seconds_of_time', I, R)          # a fixed point number built from its integer, as a double
COUNT = z3.Function('spline_numDesignVariables', I, I)
DVOF = z3.Function('spline_designVariable', I, I, I)


def val(kind, k, default=None):
    return ptree.get(TREE, kind, k, default)


D = lambda k: val('getDouble', k)
N = lambda k: val('getInt', k)
Bo = lambda k: val('getBool', k)


def missing(keys):
    return Or([Not(ptree.HAS(TREE, z3.StringVal(k)) if isinstance(k, str) else ptree.HAS(ptree.SUB(TREE, z3.StringVal(k[0])), z3.StringVal(k[1]))) for k in keys])


UNSIGNED = ('odometry/sensors/wheelSpeedSensorCutoff', 'referenceSensor')          # stored as size_t


def tree_setup(env, i=0):
    env.st.store[('obj', 'arg%d' % i)] = Obj('ptree', id=TREE)
    env.st.assume(And([val('getInt', k) >= 0 for k in UNSIGNED]))


# ---------------------------------------------------------------- option structures
class Options:
    extra = None
    """fields: name -> (kind, key, value of the default constructor, optional?)"""
    def __init__(self, unit, cls, fields):
        self.unit, self.cls, self.fields = unit, cls, fields
    def lit(self, d):
        return d if z3.is_expr(d) else z3.BoolVal(d) if isinstance(d, bool) else z3.IntVal(d) if isinstance(d, int) else z3.StringVal(d) if isinstance(d, str) else z3.RealVal(repr(d))
    def tasks(self):
        n = lambda m: '%s::%s' % (self.cls, m)
        F = self.fields
        def default(cx, exc):
            return [(f, d(fld(cx.new, f)) if callable(d) else eqv(fld(cx.new, f), self.lit(d))) for f, (k, key, d, opt) in F.items() if d is not None]
        def conf(cx, exc):
            if exc:
                return [('only when a required entry is missing', missing([q for f, (k, key, d, opt) in F.items() if key and not opt for q in ([key] if isinstance(key, str) else key)]))]
            return [('%s from its entry' % f, self.same(fld(cx.new, f), self.want(F[f]))) for f in F if F[f][1] and not callable(F[f][0])] + \
                [('%s from its entries' % f, F[f][0](fld(cx.new, f))) for f in F if callable(F[f][0])]
        return [Task(self.unit, K(n('default constructor'), (n(self.cls), 0, '()'), post=default), tag=self.unit, opts=OPTS),
                Task(self.unit, K(n('constructor (properties)'), (n(self.cls), 1, 'PropertyTree'), setup=tree_setup, exc=('runtime_error',), post=conf), tag=self.unit, opts=OPTS)]
    def want(self, x):
        k, key, d, opt = x
        return val(k, key, self.lit(d) if opt else None)
    def same(self, a, b):
        if isinstance(a, Obj) and a.tag == 'str':
            a = ptree.key(a)
        return eqv(a, b)


dbl, int_, boo, st_ = 'getDouble', 'getInt', 'getBool', 'getString'
SPLINES = {'transSplineLambda': (dbl, 'splines/transSplineLambda', 0.0, False), 'rotSplineLambda': (dbl, 'splines/rotSplineLambda', 0.0, False),
           'splineKnotsPerSecond': (int_, 'splines/splineKnotsPerSecond', 5, False), 'transSplineOrder': (int_, 'splines/transSplineOrder', 4, True),
           'rotSplineOrder': (int_, 'splines/rotSplineOrder', 4, False)}
WIN = {'windowDuration': (dbl, 'windowDuration', 10.0, False), 'verbose': (boo, 'verbose', True, False)}
NOISE = {'vyVariance': (dbl, 'odometry/constraints/noise/vyVariance', 1e-1, False), 'vzVariance': (dbl, 'odometry/constraints/noise/vzVariance', 1e-1, False)}
CAR = dict(WIN, **SPLINES, **NOISE, usePose=(boo, 'usePose', True, False), useVelocities=(boo, 'useVelocities', False, False), delayBound=(int_, 'odometry/timeDelays/delayBound', 50000000, False),
           linearVelocityTolerance=(dbl, 'odometry/sensors/linearVelocityTolerance', 1.0, False), dmiPercentError=(dbl, 'odometry/sensors/dmi/noise/dmiPercentError', 0.1, False),
           dmiVariance=(dbl, 'odometry/sensors/dmi/noise/dmiVariance', 1.0, False), steeringVariance=(dbl, 'odometry/sensors/st/noise/steeringVariance', 1e-6, False),
           wheelSpeedSensorCutoff=(int_, 'odometry/sensors/wheelSpeedSensorCutoff', 350, False))
for w, s in (('flw', 'fws'), ('frw', 'fws'), ('rlw', 'rws'), ('rrw', 'rws')):
    CAR[w + 'PercentError'] = (dbl, 'odometry/sensors/%s/noise/%sPercentError' % (s, w), 0.1, False)
    CAR[w + 'Variance'] = (dbl, 'odometry/sensors/%s/noise/%sVariance' % (s, w), 1e-6, False)
DELAY = dict(WIN, **SPLINES, **NOISE, delayBound=(int_, 'delayBound', 50000000, False), lwVariance=(dbl, 'odometry/sensors/wss/noise/lwVariance', 1e-3, False), rwVariance=(dbl, 'odometry/sensors/wss/noise/rwVariance', 1e-3, False))
EGO = dict(WIN, **SPLINES, delayBound=(int_, 'delayBound', 50000000, False), referenceSensor=(int_, 'referenceSensor', 0, False))
WAVE = {'A': (dbl, 'A', 15.0, False), 'f': (dbl, 'f', 0.01, False)}




def transform(ks):
    """rotation from three angles and translation"""
    a, b = vec3(*[D(k) for k in ks[:3]]), vec3(*[D(k) for k in ks[3:]])
    def same(T):
        if not (isinstance(T, Obj) and T.tag == 'sm_T'):
            raise Unsupported('transformation')
        return And(eqv(T.q, sm.r2quat(sm.ypr_inv(a))), eqv(T.t, b))
    return same


def diagonal(ks):
    return lambda m: And([lift(m.at(i, j)) == (D(ks[i]) if i == j else 0) for i in range(3) for j in range(3)])


def at_rest(T):
    if not (isinstance(T, Obj) and T.tag == 'sm_T'):
        raise Unsupported('transformation')
    return And(eqv(T.q, sm.r2quat(Mat(3, 3, [z3.RealVal(1 if i == j else 0) for i in range(3) for j in range(3)], T_REAL))), eqv(T.t, vec3(*[z3.RealVal(0)] * 3)))


def multiple(x):
    return lambda m: And([lift(m.at(i, j)) == (z3.RealVal(x) if i == j else 0) for i in range(3) for j in range(3)])


def below(k, f):
    """a sub-structure read from the subtree of an entry"""
    def same(o):
        T = ptree.SUB(TREE, z3.StringVal(k))
        return And([eqv(fld(o, g), ptree.get(T, x[0], x[1])) for g, x in f.items()])
    return same


vec3 = lambda *xs: Mat(len(xs), 1, list(xs), T_REAL)
T0K = ['w_T_v_0/' + x for x in ('yaw', 'pitch', 'roll', 'x', 'y', 'z')]
EGOT = dict(WAVE, **SPLINES, type=(st_, 'type', None, False), w_T_v_0=(transform(T0K), T0K, None, False))
vk = ['calibration/v_T_p/%s/e%d' % (a, i) for a in ('v_R_p', 'v_r_vp') for i in (1, 2, 3)]
s1, s2 = [['noise/pose/%s/e%d' % (a, i) for i in (1, 2, 3)] for a in ('sigma2_w_r_wp', 'sigma2_w_R_p')]
SIM = {n: (dbl, 'calibration/odometry/wss/' + n, d, False) for n, d in (('b', 0.8), ('k_l', 360.0), ('t_l', 0.1), ('k_r', 360.0), ('t_r', 0.1))}
SIM.update(dt=(dbl, 'dt', 0.1, False), T=(dbl, 'T', 1000.0, False), sigma2_l=(dbl, 'noise/odometry/wss/sigma2_l', 1e-3, False), sigma2_r=(dbl, 'noise/odometry/wss/sigma2_r', 1e-3, False),
           v_T_p=(transform(vk), vk, at_rest, False), sigma2_w_r_wp=(diagonal(s1), s1, multiple('1e-6'), False), sigma2_w_R_p=(diagonal(s2), s2, multiple('1e-6'), False))
SIM['trajectoryParams'] = (below('trajectory', WAVE), [('trajectory', k) for k in WAVE], lambda o: And([eqv(fld(o, g), z3.RealVal(repr(x[2]))) for g, x in WAVE.items()]), False)

# ---------------------------------------------------------------- design variables
LOG = ('ghost', 'log')


class Vars(Hook):
    """design variables are objects with a value and an active flag; a batch records what is added to it"""
    KINDS = ('RotationQuaternion', 'EuclideanPoint', 'VectorDesignVariable', 'GenericScalar', 'Scalar')
    def function(self, eng, e, ref, name, args, st):
        if name != 'make_shared':
            return None
        txt = ' '.join((ref.get('type') or {}).get(k, '') for k in ('qualType', 'desugaredQualType')) + ' ' + str(vc.ast.qt(e))
        kind = next((k for k in self.KINDS if re.search(r'\b%s\b' % k, txt)), 'GenericScalar' if 'TimeDesignVariable' in txt else None)
        if kind is None or len(args) != 1:
            raise Unsupported('make_shared of ' + txt[:120])
        out = []
        for (t, vs) in eng.ev_list(args, st):
            v = eng.read(t, vs[0])
            if kind == 'RotationQuaternion' and isinstance(v, Mat) and v.r == 3 and v.c == 3:
                v = sm.r2quat(v)
            if kind == 'GenericScalar':
                v = v.raw if isinstance(v, Obj) and v.tag == 'time' else v
                if not (z3.is_expr(v) and v.sort() == I):
                    raise Unsupported('time')
            n = len([r for r in t.store if r[0] == 'dv'])
            t.store[('dv', n)] = Obj('dv', kind=kind, value=v, active=z3.BoolVal(False))
            out.append((t, PtrTo(LV(('dv', n)))))
        return out
    def member(self, eng, e, me, st, lv, obj, name, args):
        if isinstance(obj, Obj) and obj.tag == 'dv':
            if name == 'setActive' and len(args) == 1:
                out = []
                for (t, vs) in eng.ev_list(args, st):
                    eng.write(t, lv, Obj('dv', kind=obj.kind, value=obj.value, active=eng.boolv(t, vs[0])))
                    out.append((t, None))
                return out
            if args:
                raise Unsupported('design variable operation ' + name)
            ok = {'getParameters': ('Scalar', 'GenericScalar'), 'toEuclidean': ('EuclideanPoint',), 'getQuaternion': ('RotationQuaternion',), 'getValue': ('VectorDesignVariable',), 'toScalar': ('Scalar',)}
            if obj.kind not in ok.get(name, ()):
                raise Unsupported('design variable operation ' + name)
            if name == 'getParameters':
                return [(st, Mat(1, 1, [as_real(obj)], T_REAL))]
            return [(st, obj.value)]
        if isinstance(obj, Obj) and obj.tag == 'batch' and name == 'addDesignVariable' and len(args) == 2:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                p = eng.read(t, vs[0])
                if not (isinstance(p, PtrTo) and p.lv.root[0] == 'dv'):
                    raise Unsupported('design variable added to the batch')
                t.store[LOG] = Obj('log', items=t.store[LOG].items + ((p.lv.root, eng.read(t, vs[1])),))
                out.append((t, None))
            return out
        return None
    def construct(self, eng, e, T, args, st):
        if T.k == 'cls' and 'FixedPointNumber' in T[1] and len(args) == 1:
            return [(t, v if isinstance(v, Obj) else Obj('time', raw=v)) for (t, v) in ((t, eng.read(t, vs[0])) for (t, vs) in eng.ev_list(args, st))]
        return None


def as_real(dv):
    return SECONDS(dv.value) if dv.kind == 'GenericScalar' else tosort(lift(dv.value), T_REAL)


OPTS = {'hooks': [Vars(), sm.Sm(), ptree.Tree()], 'fixdyn': True}
rot = lambda p: sm.r2quat(sm.ypr_inv(vec3(D(p + 'yaw'), D(p + 'pitch'), D(p + 'roll'))))
pos = lambda p: vec3(D(p + 'x'), D(p + 'y'), D(p + 'z'))
kd = lambda *ks: [(dbl, k) for k in ks]
ki = lambda *ks: [(int_, k) for k in ks]


class Odometry:
    """variables: field -> (kind, value from the configuration, active); layout of getParameters"""
    def __init__(self, unit, variables, keys, layout):
        self.unit, self.v, self.keys, self.layout = unit, variables, keys, layout
    cls = 'OdometryDesignVariables'
    def setup(self, env, args=()):
        st, this = env.st, env.st.store[('obj', 'this')]
        for f, (kind, value, act) in self.v.items():
            if f not in this.f:
                raise Unsupported('no ' + f)
            nm = '%s.%s' % (self.unit, f)
            r = lambda s: z3.Real(nm + s)
            v = {'Scalar': lambda: r(''), 'GenericScalar': lambda: z3.Int(nm), 'EuclideanPoint': lambda: vec3(*[r('[%d]' % i) for i in range(3)]), 'RotationQuaternion': lambda: vec3(*[r('[%d]' % i) for i in range(4)]),
                 'VectorDesignVariable': lambda: vec3(*[r('[%d]' % i) for i in range(4)])}[kind]()
            st.store[('dv', f)] = Obj('dv', kind=kind, value=v, active=z3.Bool(nm + '.active'))
            this = this.with_(f, PtrTo(LV(('dv', f))))
        st.store[('obj', 'this')] = this
    def dv(self, cx, f):
        p = fld(cx.new, f)
        if not (isinstance(p, PtrTo) and p.lv.root[0] == 'dv'):
            raise Unsupported('design variable ' + f)
        return cx.st.store[p.lv.root]
    def tasks(self):
        n = lambda m: '%s::%s' % (self.cls, m)
        def ctor(cx, exc):
            if exc:
                return [('only when a required entry is missing', missing(self.keys))]
            out = []
            roots = [fld(cx.new, f).lv.root for f in self.v]
            out.append(('every variable its own object', z3.BoolVal(len(set(roots)) == len(roots))))
            for f, (kind, value, act) in self.v.items():
                o = self.dv(cx, f)
                if o.kind != kind:
                    raise Unsupported('kind of ' + f)
                out += [('%s has the configured value' % f, eqv(o.value, value())), ('%s active as configured' % f, o.active == act())]
            return out
        def batch_setup(env):
            self.setup(env)
            env.st.store[('batch',)] = Obj('batch')
            env.st.store[('obj', 'arg0')] = PtrTo(LV(('batch',)))
            env.st.store[LOG] = Obj('log', items=())
        def added(cx, exc):
            items, g = cx.st.store[LOG].items, cx.old_args[1]
            out = [('nothing else is added', z3.BoolVal(all(r[1] in self.v for r, _ in items)))]
            for f in self.v:
                out.append(('%s is added once' % f, z3.BoolVal(sum(1 for r, _ in items if r == ('dv', f)) == 1)))
            return out + [('all in the given group', And([q == g for _, q in items] or [lift(True)]))]
        def params(cx, exc):
            if not isinstance(cx.ret, Mat):
                raise Unsupported('parameter vector')
            want = []
            for f in self.layout:
                o = cx.old_store[('dv', f)]
                want += [(f, x) for x in ([as_real(o)] if o.kind in ('Scalar', 'GenericScalar') else sm.ypr(sm.quat2r(o.value)).e if o.kind == 'RotationQuaternion' else o.value.e)]
            return [('one entry per parameter', z3.BoolVal(len(cx.ret.e) == len(want)))] + [('entry %d is %s' % (i, f), lift(cx.ret.e[i]) == x if i < len(cx.ret.e) else lift(False)) for i, (f, x) in enumerate(want)]
        return [Task(self.unit, K(n('constructor'), (n(self.cls), 1, 'PropertyTree'), setup=tree_setup, exc=('runtime_error',), post=ctor), tag=self.unit, opts=OPTS),
                Task(self.unit, K(n('addToBatch'), (n('addToBatch'), 2), setup=batch_setup, post=added), tag=self.unit, opts=OPTS),
                Task(self.unit, K(n('getParameters'), (n('getParameters'), 0), setup=self.setup, post=params), tag=self.unit, opts=OPTS)]


def scalar(k, act=lambda: lift(True)):
    return ('Scalar', lambda: D(k), act)


def delay(k, act):
    return ('GenericScalar', lambda: N(k), act)


on, off = (lambda: lift(True)), (lambda: lift(False))
ta = lambda: Bo('timeDelays/active')
CARV = dict(e_r=scalar('intrinsics/halfRearTrack'), e_f=scalar('intrinsics/halfFrontTrack'), L=scalar('intrinsics/wheelBase'), k_rl=scalar('intrinsics/rlwCoefficient'), k_rr=scalar('intrinsics/rrwCoefficient'),
            k_fl=scalar('intrinsics/flwCoefficient'), k_fr=scalar('intrinsics/frwCoefficient'), k_dmi=scalar('intrinsics/dmiCoefficient'),
            a=('VectorDesignVariable', lambda: vec3(*[D('intrinsics/steeringCoefficient%d' % i) for i in range(4)]), on),
            v_r_vr=('EuclideanPoint', lambda: pos('extrinsics/translation/'), off), v_R_r=('RotationQuaternion', lambda: rot('extrinsics/rotation/'), off),
            t_r=delay('timeDelays/rearWheels', ta), t_f=delay('timeDelays/frontWheels', ta), t_s=delay('timeDelays/steering', ta), t_dmi=delay('timeDelays/dmi', ta))
EXTK = ['extrinsics/translation/' + c for c in 'xyz'] + ['extrinsics/rotation/' + c for c in ('yaw', 'pitch', 'roll')]
CARK = ['intrinsics/' + x for x in ('halfRearTrack', 'halfFrontTrack', 'wheelBase', 'rlwCoefficient', 'rrwCoefficient', 'flwCoefficient', 'frwCoefficient', 'dmiCoefficient')] + \
    ['intrinsics/steeringCoefficient%d' % i for i in range(4)] + EXTK + ['timeDelays/' + x for x in ('rearWheels', 'frontWheels', 'steering', 'dmi', 'active')]
CARL = ['e_r', 'e_f', 'L', 'k_rl', 'k_rr', 'k_fl', 'k_fr', 'k_dmi', 'a', 'v_r_vr', 'v_R_r', 't_r', 't_f', 't_s', 't_dmi']
tb = lambda: Bo('intrinsics/timeDelaysActive')
DELV = dict(b=scalar('intrinsics/halfWheelBase'), k_l=scalar('intrinsics/lwCoefficient'), k_r=scalar('intrinsics/rwCoefficient'),
            v_r_vp=('EuclideanPoint', lambda: pos('extrinsics/translation/'), lambda: Bo('extrinsics/translation/active')), v_R_p=('RotationQuaternion', lambda: rot('extrinsics/rotation/'), lambda: Bo('extrinsics/rotation/active')),
            t_l=delay('intrinsics/lwTimeDelay', tb), t_r=delay('intrinsics/rwTimeDelay', tb))
DELK = ['intrinsics/' + x for x in ('halfWheelBase', 'lwCoefficient', 'rwCoefficient', 'lwTimeDelay', 'rwTimeDelay', 'timeDelaysActive')] + EXTK + ['extrinsics/translation/active', 'extrinsics/rotation/active']
DELL = ['b', 'k_l', 't_l', 'k_r', 't_r', 'v_r_vp', 'v_R_p']


# ---------------------------------------------------------------- splines
class SplineHook(Hook):
    """a spline owns a fixed sequence of design variables; adding one to the problem records it or throws"""
    def member(self, eng, e, me, st, lv, obj, name, args):
        if obj is None and isinstance(lv, LV) and lv.root[0] == 'heapobj':
            if name == 'numDesignVariables' and not args:
                return [(st.assume(COUNT(lv.root[1]) >= 0), COUNT(lv.root[1]))]
            if name == 'designVariable' and len(args) == 1:
                out = []
                for (t, vs) in eng.ev_list(args, st):
                    i = eng.read(t, vs[0])
                    eng.oblige(t, And(0 <= i, i < COUNT(lv.root[1])), 'safety:design variable index')
                    t.assume(DVOF(lv.root[1], i) > 0)
                    out.append((t, DVOF(lv.root[1], i)))
                return out
            if name == 'setActive' and len(args) == 1:
                out = []
                for (t, vs) in eng.ev_list(args, st):
                    r = ('ghost', 'active')
                    t.store[r] = z3.Store(t.store[r], lv.root[1], eng.boolv(t, vs[0]))
                    out.append((t, None))
                return out
        if isinstance(obj, Rec) and name == 'addDesignVariable' and len(args) == 2:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                x, g = eng.read(t, vs[0]), eng.read(t, vs[1])
                if not (z3.is_expr(x) and x.sort() == I):
                    raise Unsupported('design variable')
                for t in throw_split(eng, t, z3.Bool(fname('accepted')), 'InvalidOperationException'):
                    n = t.store[('ghost', 'added')]
                    t.store[('ghost', 'ids')] = z3.Store(t.store[('ghost', 'ids')], n, x)
                    t.store[('ghost', 'groups')] = z3.Store(t.store[('ghost', 'groups')], n, g)
                    t.store[('ghost', 'added')] = n + 1
                    out.append((t, None))
            return out
        return None


SOPTS = {'hooks': [SplineHook()], 'assumed': ('numDesignVariables', 'designVariable', 'setActive', 'addDesignVariable')}
SG = {'ids': lambda env: z3.Const('added_ids', AII), 'groups': lambda env: z3.Const('added_groups', AII), 'active': lambda env: z3.Const('dv_active', AIB), 'added': lambda env: z3.IntVal(0)}


class AddAll(Loop):
    def cands(self, lc):
        o = []
        G = lambda t, n: t.store[('ghost', n)]
        s, g = self.s, self.g
        for (nm, cur) in lc.cursors():
            o.append(('one added each', lambda t, cur=cur: G(t, 'added') == cur(t)))
        o.append(('in order', lambda t: fa(lambda k: Imp(And(0 <= k, k < G(t, 'added')), And(G(t, 'ids')[k] == DVOF(s, k), G(t, 'groups')[k] == g)), lambda k: [G(t, 'ids')[k]])))
        o.append(('in order (groups)', lambda t: fa(lambda k: Imp(And(0 <= k, k < G(t, 'added')), G(t, 'groups')[k] == g), lambda k: [G(t, 'groups')[k]])))
        o.append(('active', lambda t: fa(lambda k: Imp(And(0 <= k, k < G(t, 'added')), G(t, 'active')[DVOF(s, k)]), lambda k: [DVOF(s, k)])))
        return o


def splines(unit, tf, rf):
    C = 'OptimizationProblemSpline'
    n = lambda m: '%s::%s' % (C, m)
    out = []
    vec = lambda o, f: fld(o, f)
    def same(a, b):
        return And(a.n == b.n, fa(lambda k: Imp(And(0 <= k, k < a.n), a.a[k] == b.a[k]), lambda k: [a.a[k]]))
    for (nm, mine, other, sig) in (('Translation', tf, rf, 'TranslationSplineSP'), ('Rotation', rf, tf, 'RotationSplineSP')):
        con = K(n('addSpline(%s)' % nm), (n('addSpline'), 2, sig), modifies=[('this', mine)], exc=('InvalidOperationException',), ghosts=SG)
        con.loop = AddAll()
        def setup(env, con=con):
            con.loop.s, con.loop.g = env.eng.read(env.st, env.vs[0]), env.eng.read(env.st, env.vs[1])
            env.st.assume(con.loop.s > 0)
        con.setup = setup
        def post(cx, exc, mine=mine, other=other, con=con):
            a, b = vec(cx.old, mine), vec(cx.new, mine)
            s, g = con.loop.s, con.loop.g
            if exc:
                return [('a refused spline is not kept', same(b, a))]
            G = cx.ghost
            return [('every design variable of the spline is added', G('added') == COUNT(s)),
                    ('each once, in order', fa(lambda k: Imp(And(0 <= k, k < COUNT(s)), G('ids')[k] == DVOF(s, k)), lambda k: [G('ids')[k]])),
                    ('in the given group', fa(lambda k: Imp(And(0 <= k, k < COUNT(s)), G('groups')[k] == g), lambda k: [G('groups')[k]])),
                    ('each is active', fa(lambda k: Imp(And(0 <= k, k < COUNT(s)), G('active')[DVOF(s, k)]), lambda k: [DVOF(s, k)])),
                    ('the spline is kept at the end', And(b.n == a.n + 1, b.a[a.n] == s, fa(lambda k: Imp(And(0 <= k, k < a.n), b.a[k] == a.a[k]), lambda k: [b.a[k]])))]
        con._post = post
        out.append(Task(unit, con, tag=unit, opts=SOPTS))
        def at(cx, exc, mine=mine):
            v, i = vec(cx.old, mine), cx.old_args[0]
            return [('only positions outside the list are rejected', i >= v.n)] if exc else [('a position in the list', i < v.n), ('the spline at that position', cx.ret == v.a[i])]
        for c in ('CONST', 'NONCONST'):
            out.append(Task(unit, K(n('get%sSpline %s' % (nm, c.lower())), (n('get%sSpline' % nm), 1, c), exc=('OutOfBoundException',), post=at), tag=unit, opts=SOPTS))
        out.append(Task(unit, K(n('getNum%sSplines' % nm), (n('getNum%sSplines' % nm), 0), post=lambda cx, exc, mine=mine: [('their number', cx.ret == vec(cx.old, mine).n)]), tag=unit, opts=SOPTS))
    return out


def unit(d, srcs, pre=''):
    return dict(code=pre + ''.join('#include "%s%s/src/%s.cpp"\n' % (X, d, s) for s in srcs), flt='aslam', extra=('-I%s%s/include' % (XR, d),))


class P(Property):
    id = 'C20'
    units = {'car': unit('car', ['algo/CarCalibratorOptions', 'design-variables/OdometryDesignVariables', 'algo/OptimizationProblemSpline']),
             'delay': unit('time_delay', ['algo/CalibratorOptions', 'design-variables/OdometryDesignVariables', 'algo/OptimizationProblemSpline', 'simulation/TrajectoryParams', 'simulation/SimulationParams']),
             'ego': unit('egomotion_sensors', ['algo/CalibratorOptions', 'design-variables/DesignVariables', 'algo/OptimizationProblemSpline', 'simulation/TrajectoryParams'], '#include <cstddef>\n')}
    assumptions = ['the property tree, design variables, splines and kinematics of aslam and sm are not available: called by assumed contracts, with the stand-ins in /verif/stubs',
                   'a design variable is inactive until it is activated', 'adding a design variable to a problem records it in the group or throws (that contract is proved under C01)']
    harness = Harness('C20.cpp', ['$REPO/incremental_calibration/src/core/OptimizationProblem.cpp', '$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'],
                      flags=['-I$REPO/incremental_calibration_examples'] + ['-I%s%s/include' % (X, x) for x in ('car', 'time_delay', 'egomotion_sensors')], quick=6, thorough=60, san=True)
    def tasks(self, U):
        out = []
        for (u, c, f) in (('car', 'CarCalibratorOptions', CAR), ('delay', 'CalibratorOptions', DELAY), ('ego', 'CalibratorOptions', EGO), ('delay', 'TrajectoryParams', WAVE), ('ego', 'TrajectoryParams', EGOT), ('delay', 'SimulationParams', SIM)):
            out += Options(u, c, f).tasks()
        out += Odometry('car', CARV, CARK, CARL).tasks() + Odometry('delay', DELV, DELK, DELL).tasks()
        out += splines('car', '_translationSplines', '_rotationSplines') + splines('delay', '_translationSplines', '_rotationSplines') + splines('ego', 'translationSplines_', 'rotationSplines_')
        return out


PROPERTY = P()
