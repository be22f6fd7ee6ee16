from vc.util import *
from vc.models import UF1
from contracts.C09 import PI
from contracts import sm
from vc.values import Mat, Obj, T_REAL

import vc.ast
EXD = vc.ast.REPO + '/incremental_calibration_examples'
LRF = '$REPO/incremental_calibration_examples/incremental_calibration_examples_2dlrf'
EXS = {'car': 'car', 'time_delay': 'time_delay', 'egomotion_sensors': 'egomotion_sensors'}
CODE = '#include "%s/src/2dlrf/utils.cpp"\n' % LRF
AR = z3.ArraySort(I, R)
sin, cos, atan, sqrt = (UF1[n] for n in ('sin', 'cos', 'atan', 'sqrt'))


def e3(v, i, k):
    """component k of the i-th 3-vector (or 2-vector) of a vector"""
    s = v.a.sort().range()
    return s.accessor(0, k)(v.a[i])


# ---------------------------------------------------------------- genSineWavePath
class Path(Loop):
    def __init__(self, con):
        self.con = con
    def cands(self, lc):
        out = []
        c = self.con
        for (nm_, cur) in lc.cursors():
            for rp in lc.vars(lambda v: isinstance(v, VecV) and v.a.sort().range() == R):
                out.append(('one slope each', lambda t, rp=rp, cur=cur: lc.get(t, rp).n == cur(t)))
                out.append(('room for the slopes', lambda t, rp=rp: lc.get(t, rp).n == lc.get(lc.entry, rp).n))
                out.append(('slopes so far', lambda t, rp=rp, cur=cur: fa(lambda k: Imp(And(0 <= k, k < cur(t)), lc.get(t, rp).a[k] == c.S[k]), lambda k: lc.get(t, rp).a[k])))
            for rp in lc.reals():
                out.append(('heading so far', lambda t, rp=rp, cur=cur: lc.get(t, rp) == c.TH[cur(t) - 1]))
                out.append(('heading', lambda t, rp=rp, cur=cur: lc.get(t, rp) == c.TH[cur(t)]))
            for rp in lc.vars(lambda v: isinstance(v, VecV) and v.a.sort().range() != R):
                out.append(('one input each', lambda t, rp=rp, cur=cur: lc.get(t, rp).n == cur(t)))
                out.append(('room for the inputs', lambda t, rp=rp: lc.get(t, rp).n == lc.get(lc.entry, rp).n))
                out.append(('inputs so far', lambda t, rp=rp, cur=cur: inputs(c, lc.get(t, rp), cur(t))))
        return out


def inputs(c, u, n):
    return And(fa(lambda k: Imp(And(1 <= k, k < n), And(e3(u, k, 0) == c.V[k], e3(u, k, 1) == 0, e3(u, k, 2) == (c.TH[k] - c.TH[k - 1]) / c.T)), lambda k: u.a[k]),
               And([e3(u, 0, j) == 0 for j in range(3)]))


def path():
    con = Contract('genSineWavePath', ('genSineWavePath', 5), modifies=[('arg', 0)])
    def setup(env):
        st = env.st
        con.S, con.TH, con.V = (z3.Const(x, AR) for x in ('slope', 'heading', 'speed'))
        amp, f, con.T = env.vs[2], env.vs[3], env.vs[4]
        con.steps = env.vs[1]
        S, TH, V = con.S, con.TH, con.V
        pi = PI
        st.assume(fa(lambda k: S[k] == amp * cos(2 * pi * f * (z3.ToReal(k) * con.T)), lambda k: S[k]))
        st.assume(fa(lambda k: TH[k] == If(k == 0, z3.RealVal(0), atan(S[k])), lambda k: TH[k]))
        st.assume(fa(lambda k: V[k] == 2 * pi * f * ((sqrt(1 + S[k] * S[k]) + sqrt(1 + S[k - 1] * S[k - 1])) / 2), lambda k: V[k]))
    con.setup = setup
    con._pre = lambda cc: [('a positive sampling period', cc.args[4] > 0), ('at least one pose', cc.args[1] >= 1)]
    def post(cx, exc):
        u = cx.new_args[0]
        return [('exactly the requested number of poses', u.n == con.steps), ('no lateral speed, the closed-form speed, turn rates that add up to the heading of the path', inputs(con, u, con.steps))]
    con._post = post
    con.loop = Path(con)
    return con


# ---------------------------------------------------------------- initLandmarks
def landmark(c, i, j):
    X, Th = c.X, c.Th
    x, y, th = (e3(X, i, k) for k in range(3))
    rng, brg = c.inner(c.r, i, j), c.inner(c.b, i, j)
    d0, d1, d2 = (lift(Th.at(k, 0)) for k in range(3))
    a = brg + d2 + th
    return (x + d0 * cos(th) - d1 * sin(th) + rng * cos(a), y + d0 * sin(th) + d1 * cos(th) + rng * sin(a))


class Marks(Loop):
    """outer loop: every landmark is as the poses visited so far leave it; inner loop: likewise for the landmarks visited in this pose"""
    def __init__(self, con):
        self.con = con
    def cands(self, lc):
        out = []
        c = self.con
        ms = lc.vars(lambda v: isinstance(v, VecV) and v.a.sort().range() != R and v.a.sort().range() != B)
        bs = lc.vars(lambda v: isinstance(v, VecV) and v.a.sort().range() == B)
        curs = lc.cursors()
        outer = [lambda t, x=x: t.store[x[0]] for x in []]
        for rp in ms:
            for bp in bs:
                for (nm_, cur) in curs:
                    # outer: cur poses done
                    out.append(('sizes', lambda t, rp=rp, bp=bp: And(lc.get(t, rp).n == c.nl, lc.get(t, bp).n == c.nl)))
                    out.append(('as the poses so far leave them', lambda t, rp=rp, bp=bp, cur=cur: state(c, lc.get(t, rp), lc.get(t, bp), lambda j: cur(t))))
                    # inner: the outer index is the number of poses done, cur landmarks of the next pose done
                    for oc in outer_cursors(lc):
                        out.append(('as the landmarks so far leave them', lambda t, rp=rp, bp=bp, cur=cur, oc=oc: state(c, lc.get(t, rp), lc.get(t, bp), lambda j: If(j < cur(t), oc(t) + 1, oc(t)))))
        return out


def outer_cursors(lc):
    out = []
    for r, v in lc.entry.store.items():
        if r[0] == 'v' and z3.is_expr(v) and v.sort() == I and (r, ()) not in lc.mods:
            out.append(lambda t, r=r: t.store[r])
    return out


def state(c, m, b, done):
    """landmark j after done(j) poses: where the first of them that saw it puts it, else the origin"""
    F = c.first
    return fa(lambda j: Imp(And(0 <= j, j < c.nl), And(b.a[j] == (F[j] < done(j)),
              Imp(F[j] < done(j), And(e3(m, j, 0) == c.LX[j], e3(m, j, 1) == c.LY[j])), Imp(Not(F[j] < done(j)), And(e3(m, j, 0) == 0, e3(m, j, 1) == 0)))), lambda j: [m.a[j], b.a[j]])


def marks():
    con = Contract('initLandmarks', ('initLandmarks', 5), modifies=[('arg', 0)])
    def setup(env):
        rd = lambda i: env.eng.read(env.st, env.vs[i])
        con.X, con.Th, con.r, con.b = rd(1), rd(2), rd(3), rd(4)
        vs = con.r.a.sort().range()
        con.len = lambda v, i: vs.accessor(0, 0)(v.a[i])
        con.inner = lambda v, i, j: vs.accessor(0, 1)(v.a[i])[j]
        con.nl = con.len(con.r, z3.IntVal(0))
        con.first = z3.Const('firstSeen', z3.ArraySort(I, I))
        con.LX, con.LY = z3.Const('landmarkX', AR), z3.Const('landmarkY', AR)
        F, n = con.first, con.X.n
        st = env.st
        # the first pose that sees landmark j, or the number of poses
        st.assume(fa(lambda j: Imp(And(0 <= j, j < con.nl), And(0 <= F[j], F[j] <= n, Imp(F[j] < n, con.inner(con.r, F[j], j) > 0))), lambda j: F[j]))
        st.assume(fa(lambda i, j: Imp(And(0 <= j, j < con.nl, 0 <= i, i < F[j]), con.inner(con.r, i, j) <= 0), lambda i, j: z3.MultiPattern(F[j], con.inner(con.r, i, j)), n=2))
        st.assume(fa(lambda j: And(con.LX[j] == landmark(con, F[j], j)[0], con.LY[j] == landmark(con, F[j], j)[1]), lambda j: [con.LX[j], con.LY[j]]))
    con.setup = setup
    def pre(cc):
        return [('one row of ranges and bearings per pose', And(con.r.n >= con.X.n, con.b.n >= con.X.n)),
                ('one range and bearing per landmark', And(con.nl >= 0, fa(lambda i: Imp(And(0 <= i, i < con.r.n), And(con.len(con.r, i) == con.nl, con.len(con.b, i) == con.nl)), lambda i: con.len(con.r, i))))]
    con._pre = pre
    def post(cx, exc):
        m, m0, c = cx.new_args[0], cx.old_args[0], con
        n = c.X.n
        pos = fa(lambda j: Imp(And(0 <= j, j < c.nl), If(c.first[j] < n, And(e3(m, j, 0) == c.LX[j], e3(m, j, 1) == c.LY[j]), And(e3(m, j, 0) == 0, e3(m, j, 1) == 0))), lambda j: m.a[j])
        return [('nothing without measurements', Imp(c.r.n < 1, eqv(m, m0))), ('one per landmark', Imp(c.r.n >= 1, m.n == c.nl)),
                ('each landmark is where the first pose that saw it puts it, the others are at the origin', Imp(c.r.n >= 1, pos))]
    con._post = post
    con.loop = Marks(con)
    return con


# ---------------------------------------------------------------- bestQuat
def rootOrder(st):
    """for the square roots the path took: the root of a sum of squares is monotone in it; the difference of two radicands, multiplied out"""
    rs, seen = [], set()
    def walk(t):
        if t.get_id() in seen or not z3.is_app(t):
            return
        seen.add(t.get_id())
        if t.decl().name() == sqrt(z3.RealVal(1)).decl().name():
            rs.append(t)
        for c in t.children():
            walk(c)
    for f in list(st.pc):
        walk(f)
    som = lambda x: z3.simplify(x, som=True)
    for a in rs:
        st.assume(a >= 0)
        for b in rs:
            if not a.eq(b):
                x, y = a.arg(0), b.arg(0)
                st.assume(Imp(And(x >= 0, y >= 0), (a < b) == (som(x - y) < 0)))
    for a in rs:
        if squares(a.arg(0)):
            st.assume(a.arg(0) >= 0)


def squares(x):
    if z3.is_add(x):
        return all(squares(c) for c in x.children())
    return (z3.is_mul(x) and len(x.children()) == 2 and x.arg(0).eq(x.arg(1))) or (z3.is_rational_value(x) and x.as_fraction() >= 0)


def best():
    con = Contract('bestQuat', ('bestQuat', 2))
    def post(cx, exc):
        p, q = cx.old_args
        r = cx.ret
        e = lambda m, i: lift(m.at(i, 0))
        dot = sum(e(p, i) * e(q, i) for i in range(4))
        rdot = sum(e(p, i) * e(r, i) for i in range(4))
        rootOrder(cx.st)
        return [('the same rotation', Or(And([e(r, i) == e(q, i) for i in range(4)]), And([e(r, i) == -e(q, i) for i in range(4)]))),
                ('the sign closer to the previous quaternion', rdot >= 0), ('no needless flip', Imp(dot >= 0, And([e(r, i) == e(q, i) for i in range(4)])))]
    con._post = post
    return con


# ---------------------------------------------------------------- coordinates
A_, E2 = z3.RealVal(6378137), z3.RealVal(repr(0.006694380004260827))      # E2: from the semi-axes 6378137 m and 6356752.3142 m, see the lemma


def wgs84():
    con = Contract('wgs84ToEcef', ('wgs84ToEcef', 6), modifies=[('arg', 3), ('arg', 4), ('arg', 5)])
    con._pre = lambda cc: [('the ellipsoid has a radius of curvature there', 1 - E2 * sin(cc.args[0]) * sin(cc.args[0]) > 0)]
    def post(cx, exc):
        la, lo, h = cx.args[:3]
        x, y, z = cx.new_args[3:6]
        n = A_ / sqrt(1 - E2 * sin(la) * sin(la))
        return [('x', x == (n + h) * cos(la) * cos(lo)), ('y', y == (n + h) * cos(la) * sin(lo)), ('z', z == (n * (1 - E2) + h) * sin(la))]
    con._post = post
    return con


def axes(la, lo):
    """unit vectors to the east, north and up at a latitude and longitude, in earth-centred earth-fixed coordinates"""
    return ((-sin(lo), cos(lo), z3.RealVal(0)), (-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)), (cos(la) * cos(lo), cos(la) * sin(lo), sin(la)))


def frame(name):
    con = Contract(name, (name, 5))
    def post(cx, exc):
        x, y, z, la, lo = cx.args
        east, north, up = axes(la, lo)
        cols = (east, north, up) if 'enu' in name else (north, east, tuple(-v for v in up))
        C = Mat(3, 3, [cols[c][r] for r in range(3) for c in range(3)], T_REAL)
        T = sm.transformation(sm.r2quat(C), Mat(3, 1, [x, y, z], T_REAL))
        if name.startswith('ecef'):
            T = sm.inverse(T)
        r = cx.ret
        if not (isinstance(r, Obj) and r.tag == 'sm_T'):
            raise Unsupported('transformation expected')
        same = lambda a, b: And([lift(x) == lift(y) for x, y in zip(a.e, b.e)])
        return [('origin at the given position', same(r.t, T.t)), ('axes', same(r.q, T.q))]
    con._post = post
    return con


class P(Property):
    id = 'C16'
    units = dict({'u': dict(code=CODE, extra=('-I' + LRF.replace('$REPO', __import__('vc.ast', fromlist=['x']).REPO) + '/include',))},
                 **{k: dict(code='#include "$REPO/incremental_calibration_examples/incremental_calibration_examples_%s/src/algo/bestQuat.cpp"\n' % d,
                            extra=('-I%s/incremental_calibration_examples/incremental_calibration_examples_%s/include' % (__import__('vc.ast', fromlist=['x']).REPO, d),)) for k, d in EXS.items()})
    units['geo'] = dict(code='#include "$REPO/incremental_calibration_examples/incremental_calibration_examples_car/src/geo/geodetic.cpp"\n',
                        extra=('-I%s/incremental_calibration_examples/incremental_calibration_examples_car/include' % __import__('vc.ast', fromlist=['x']).REPO,))
    assumptions = ['sin, cos, atan are uninterpreted real functions']
    harness = Harness('C16.cpp', [], flags=['-I%s' % EXD] + ['-I%s/incremental_calibration_examples_%s/include' % (EXD, x) for x in ('car', 'time_delay', 'egomotion_sensors', '2dlrf')], quick=4, thorough=40, san=True)
    def lemmas(self):
        b = z3.RealVal('6356752.3142')
        d = E2 - (1 - b * b / (A_ * A_))
        return [Lemma('the eccentricity of the closed form is that of the WGS84 semi-axes', [], And(d < z3.RealVal('1e-15'), d > -z3.RealVal('1e-15')))]
    def tasks(self, U):
        return [Task('u', path()), Task('u', marks())] + [Task(k, best(), tag=k) for k in EXS] + [Task('geo', wgs84())] + [Task('geo', frame(n), opts={'hooks': [sm.Sm()]}) for n in ('enu2ecef', 'ecef2enu', 'ned2ecef', 'ecef2ned')]


PROPERTY = P()
