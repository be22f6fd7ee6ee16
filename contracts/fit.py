"""The splines of a window are fitted to the poses of the vehicle, one knot value per measured pose, with the configured settings."""
from vc.util import *
from vc.eig import eqv
from vc.models import Hook
from vc.values import Mat, Rec, Obj, PtrTo, LV, VecV, T_REAL, lift
import re
from contracts import sm
from contracts.C19 import fld
from contracts.C22 import component, dv
K = Contract
FITS = ('ghost', 'fits')
WP = [z3.Function('vehicle_position_%d' % i, I, R) for i in range(3)]       # of the pose measured as k-th
WQ = [z3.Function('vehicle_quaternion_%d' % i, I, R) for i in range(4)]
BEST = [z3.Function('bestQuat_%d' % i, *([R] * 9)) for i in range(4)]       # under contract in C16


def best(p, q):
    xs = sm.reals(p) + sm.reals(q)
    return Mat(4, 1, [f(*xs) for f in BEST], T_REAL)


class World(Hook):
    def heap_field(self, eng, e, st, lv, name):
        if z3.eq(z3.simplify(lv.root[1] - fld(st.store[('obj', 'this')], '_odometryDesignVariables')), z3.IntVal(0)):
            root = ('dv', name)
            st.store.setdefault(root, Obj('dv', name=name))
            return [(st, PtrTo(LV(root)))]
        return None
    def value_component(self, v, name):
        return component(v, name) if z3.is_expr(v) and str(v.sort()).endswith('Measurement') else None
    def value_field(self, eng, e, st, v, name):
        r = self.value_component(v, name)
        return None if r is None else [(st, r)]
    def member(self, eng, e, me, st, lv, obj, name, args):
        if isinstance(obj, Obj) and obj.tag == 'dv':
            if name == 'getQuaternion' and not args:
                return [(st, Mat(4, 1, dv(obj.name, 4, '_q'), T_REAL))]
            if name == 'getParameters' and len(args) == 1:
                out = []
                for (t, vs) in eng.ev_list(args, st):
                    eng.write(t, vs[0], Mat(3, 1, dv(obj.name, 3), T_REAL))
                    out.append((t, None))
                return out
        return None
    def function(self, eng, e, ref, name, args, st):
        if name == 'bestQuat' and len(args) == 2:
            return [(t, best(eng.read(t, vs[0]), eng.read(t, vs[1]))) for (t, vs) in eng.ev_list(args, st)]
        if name == 'getOne' and not args:
            return [(st, z3.IntVal(1000000000))]
        txt = ' '.join((ref.get('type') or {}).get(k, '') for k in ('qualType', 'desugaredQualType'))
        if name == 'make_shared' and len(args) == 1:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                c = eng.read(t, vs[0])
                if not (isinstance(c, Obj) and c.tag == 'conf'):
                    return None
                root = ('spline', fname('s'))
                t.store[root] = Obj('spline', kind=c.kind, order=c.order)
                out.append((t, PtrTo(LV(root))))
            return out
        if name == 'initUniformSpline' and len(args) == 5:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                s = vs[0]
                if not (isinstance(s, LV) and s.root[0] == 'spline'):
                    raise Unsupported('fit of %r' % (s,))
                t.store[FITS] = Obj('log', items=t.store[FITS].items + ((s.root,) + tuple(eng.read(t, v) for v in vs[1:]),))
                out.append((t, None))
            return out
        return None
    def construct(self, eng, e, T, args, st):
        if T.k == 'eig' and len(args) == 1:
            r = [(t, eng.read(t, v)) for (t, v) in eng.rv(args[0], st)]
            return r if all(isinstance(v, Mat) and T[2] == -1 for (t, v) in r) else None
        if T.k != 'cls':
            return None
        c = T[1]
        if c.endswith('ManifoldConf') and len(args) <= 1:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                v = [eng.read(t, x) for x in vs]
                if v and isinstance(v[0], Obj) and v[0].tag == 'manifold':
                    out.append((t, v[0]))
                else:
                    out.append((t, Obj('manifold', dim=v[0] if v else None)))
            return out
        if re.search(r'::CONF$', c) and len(args) in (1, 2):
            out = []
            for (t, vs) in eng.ev_list(args, st):
                v = [eng.read(t, x) for x in vs]
                if len(v) == 1:
                    if not (isinstance(v[0], Obj) and v[0].tag == 'conf'):
                        return None
                    out.append((t, v[0]))
                    continue
                if not (isinstance(v[0], Obj) and v[0].tag == 'manifold'):
                    return None
                out.append((t, Obj('conf', kind='rotation' if 'Quaternion' in c else 'translation', order=v[1])))
            return out
        return None


class Poses(Loop):
    """the k-th entries are the time and the pose of the vehicle at the k-th measurement"""
    def __init__(self, f):
        self.f = f
    def entries(self, lc):
        out = []
        for rp in lc.vars(lambda v: isinstance(v, VecV)):
            T = lc.get(lc.entry, rp).T
            n = T[2] if T.k == 'eig' else 0
            W = {3: WP, 4: WQ}.get(n)
            if T.k == 'int':
                out.append((rp, lambda t, v, k: v == self.f.time(t, k)))
            elif W:
                out.append((rp, lambda t, v, k, W=W: And([v_ == w(k) for v_, w in zip(self.f.comps(v, W), W)])))
        return out
    def ghost_init(self, lc):
        lc.add_ghost('done', z3.IntVal(0))
    def ghost_step(self, lc, t):
        self.f.define(t, t.store[('ghost', 'done')])
        t.store[('ghost', 'done')] = t.store[('ghost', 'done')] + 1
    def cands(self, lc):
        out = []
        D = lambda s: s.store[('ghost', 'done')]
        out.append(('measurements dealt with', lambda s: And(0 <= D(s), D(s) <= self.f.n)))
        for (nm, cur) in lc.cursors():
            c0 = cur(lc.entry)
            out.append(('%s is at the next measurement' % nm, lambda s, cur=cur, c0=c0: cur(s) == c0 + D(s)))
        for rp, q in self.entries(lc):
            g = lambda s, rp=rp: lc.get(s, rp)
            out.append(('one entry per measurement', lambda s, g=g: g(s).n == D(s)))
            out.append(('entries of %s' % lc.name(rp), lambda s, g=g, q=q: fa(lambda k: Imp(And(0 <= k, k < D(s)), q(s, g(s).a[k], k)), lambda k: [g(s).a[k]])))
        return out


class Fit:
    def __init__(self, unit, cls, fields, extr):
        self.unit, self.cls, self.fields, self.extr = unit, cls, fields, extr
    def at(self, t, k):
        m = self.eng.read(t, LV(('obj', 'arg0')).sub(('at', k)))
        return self.eng.read(t, m) if isinstance(m, LV) else m
    def time(self, t, k):
        return self.eng.getp(t, self.at(t, k), ('f', 'first'))
    def comps(self, v, W):
        S = v.sort()
        return [S.accessor(0, i)(v) for i in range(len(W))]
    def define(self, t, k):
        """the pose of the vehicle at the k-th measurement (definition, by recursion on k)"""
        y = self.eng.getp(t, self.at(t, k), ('f', 'second'))
        r, w = self.fields
        er, eR = self.extr
        M = sm.ypr_inv(component(y, w))
        N = sm.quat2r(Mat(4, 1, dv(eR, 4, '_q'), T_REAL))
        C = Mat(3, 3, [sum(lift(M.at(i, q)) * lift(N.at(j, q)) for q in range(3)) for i in range(3) for j in range(3)], T_REAL)
        q = sm.r2quat(C)
        b = best(Mat(4, 1, [f(k - 1) for f in WQ], T_REAL), q)
        for i, f in enumerate(WQ):
            t.assume(f(k) == If(k == 0, lift(q.e[i]), lift(b.e[i])))
        for i, f in enumerate(WP):
            t.assume(f(k) == lift(component(y, r).e[i]) - sum(lift(C.at(i, j)) * dv(er, 3)[j] for j in range(3)))
    def task(self):
        n = '%s::initSplines' % self.cls
        con = K(n, (n, 1), modifies=[('this', f) for f in ('_translationSpline', '_rotationSpline')])
        def setup(env):
            st = env.st
            self.eng = env.eng
            st.store[FITS] = Obj('log', items=())
            this = st.store[('obj', 'this')]
            st.assume(fld(this, '_odometryDesignVariables') > 0)
            self.n = env.eng.read(st, env.vs[0]).n
            st.assume(self.n >= 2)
            st.assume(self.time(st, z3.IntVal(0)) < self.time(st, self.n - 1))
            o = fld(this, '_options')
            st.assume(fld(o, 'splineKnotsPerSecond') >= 1)
        con.setup = setup
        con.loop = Poses(self)
        def post(cx, exc):
            st, this = cx.st, cx.st.store[('obj', 'this')]
            o = fld(this, '_options')
            F = st.store[FITS].items
            el = z3.ToReal(self.time(st, self.n - 1) - self.time(st, z3.IntVal(0))) / 1000000000
            q = z3.ToReal(self.n) / el
            kps = fld(o, 'splineKnotsPerSecond')
            seg = If(z3.ToInt(q + z3.RealVal('1/2')) > kps, -z3.ToInt(-(z3.ToReal(kps) * el)), self.n)
            out = []
            for f, kind, order, lam, W in (('_translationSpline', 'translation', 'transSplineOrder', 'transSplineLambda', WP), ('_rotationSpline', 'rotation', 'rotSplineOrder', 'rotSplineLambda', WQ)):
                p = fld(this, f)
                mine = [x for x in F if isinstance(p, PtrTo) and x[0] == p.lv.root]
                s = st.store[p.lv.root] if mine else None
                ok = len(mine) == 1 and s.kind == kind
                out.append(('a new %s spline, fitted once' % kind, z3.BoolVal(bool(ok))))
                if not ok:
                    continue
                _, ts, ps, ns, l = mine[0]
                out += [('%s: configured order' % kind, s.order == fld(o, order)), ('%s: configured smoothness' % kind, l == fld(o, lam)), ('%s: as many segments as the knots per second ask for, at most one per pose' % kind, ns == seg),
                        ('%s: a time per pose' % kind, And(ts.n == self.n, fa(lambda k: Imp(And(0 <= k, k < self.n), ts.a[k] == self.time(st, k)), lambda k: [ts.a[k]]))),
                        ('%s: the poses of the vehicle' % kind, And(ps.n == self.n, fa(lambda k: Imp(And(0 <= k, k < self.n), And([v == w(k) for v, w in zip(self.comps(ps.a[k], W), W)])), lambda k: [ps.a[k]])))]
            out.append(('no other fits', z3.BoolVal(len(F) == 2)))
            return out
        con._post = post
        return Task(self.unit, con, tag=self.unit, opts={'hooks': [World(), sm.Sm()], 'mute': True, 'divzero': True, 'assumed': ('make_shared', 'initUniformSpline', 'bestQuat')})


def tasks():
    return [Fit('car', 'CarCalibrator', ('m_r_mr', 'm_R_r'), ('v_r_vr', 'v_R_r')).task(), Fit('delay', 'Calibrator', ('w_r_wp', 'w_R_p'), ('v_r_vp', 'v_R_p')).task()]
