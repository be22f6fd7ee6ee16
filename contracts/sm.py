"""Assumed contracts of the sm_kinematics functions the examples call (the library is not available here)."""
from vc.util import *
from vc.values import Mat, Rec, Obj, T_REAL, tosort
from vc.models import Hook

_uf = {}


def ufn(name, n):
    k = (name, n)
    if k not in _uf:
        _uf[k] = z3.Function('sm_' + name, *([R] * (n + 1)))
    return _uf[k]


def vec(name, xs, n):
    return Mat(n, 1, [ufn('%s%d' % (name, i), len(xs))(*xs) for i in range(n)], T_REAL)


def reals(m):
    return [tosort(lift(x), T_REAL) for x in (m.e if isinstance(m, Mat) else [m])]


def r2quat(C):
    return vec('r2quat', reals(C), 4)


def transformation(q, t):
    return Obj('sm_T', q=q, t=t)


def inverse(T):
    xs = reals(T.q) + reals(T.t)
    return transformation(vec('invq', xs, 4), vec('invt', xs, 3))


def angleMod(x):
    return ufn('angleMod', 1)(tosort(lift(x), T_REAL))


def ypr(C):
    return vec('ypr', reals(C), 3)


def ypr_inv(p):
    xs = reals(p)
    return Mat(3, 3, [ufn('fromypr%d' % i, 3)(*xs) for i in range(9)], T_REAL)


def quat2r(q):
    xs = reals(q)
    return Mat(3, 3, [ufn('quat2r%d' % i, 4)(*xs) for i in range(9)], T_REAL)


def smatrix(p):
    xs = reals(p)
    return Mat(3, 3, [ufn('S%d' % i, 3)(*xs) for i in range(9)], T_REAL)


def cross(v):
    a, b, c = reals(v)
    z = z3.RealVal(0)
    return Mat(3, 3, [z, -c, b, c, z, -a, -b, a, z], T_REAL)


class Sm(Hook):
    def function(self, eng, e, ref, name, args, st):
        if name == 'rt2Transform' and len(args) == 2:
            eng.trusted.add('sm::kinematics::' + name)
            return [(t, Obj('sm_T4', C=eng.read(t, vs[0]), t=eng.read(t, vs[1]))) for (t, vs) in eng.ev_list(args, st)]
        f = {'r2quat': r2quat, 'quat2r': quat2r, 'angleMod': angleMod, 'crossMx': cross}.get(name)
        if f is None or len(args) != 1:
            return None
        eng.trusted.add('sm::kinematics::' + name)
        return [(t, f(eng.read(t, vs[0]))) for (t, vs) in eng.ev_list(args, st)]
    def construct(self, eng, e, T, args, st):
        if T.k != 'cls':
            return None
        if T[1].split('::')[-1] == 'Transformation' and len(args) == 2:
            return [(t, transformation(eng.read(t, vs[0]), eng.read(t, vs[1]))) for (t, vs) in eng.ev_list(args, st)]
        if T[1].split('::')[-1] == 'Transformation' and len(args) == 1:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                v = eng.read(t, vs[0])
                if isinstance(v, Obj) and v.tag == 'sm_T4':
                    v = transformation(r2quat(v.C), v.t)
                out.append((t, v))
            return None if any(not (isinstance(v, Obj) and v.tag == 'sm_T') for _, v in out) else out
        if T[1].split('::')[-1] == 'Transformation' and not args:
            return [(st, transformation(Mat(4, 1, [z3.RealVal(x) for x in (0, 0, 0, 1)], T_REAL), Mat(3, 1, [z3.RealVal(0)] * 3, T_REAL)))]
        if T[1].split('::')[-1] == 'EulerAnglesYawPitchRoll' and not args:
            return [(st, Obj('sm_ypr'))]
        return None
    def operator(self, eng, e, st, op, vs, av, bv):
        if op == '=' and isinstance(av, Obj) and av.tag == 'sm_T' and isinstance(bv, Obj) and bv.tag in ('sm_T', 'sm_T4'):
            eng.write(st, vs[0], bv if bv.tag == 'sm_T' else transformation(r2quat(bv.C), bv.t))
            return [(st, vs[0])]
        return None
    def member(self, eng, e, me, st, lv, obj, name, args):
        if name == 'operator=' and len(args) == 1 and isinstance(obj, Obj) and obj.tag in ('sm_T', 'sm_T4') and lv is not None:
            out = []
            for (t, vs) in eng.ev_list(args, st):
                v = eng.read(t, vs[0])
                if isinstance(v, Obj) and v.tag == 'sm_T4' and obj.tag == 'sm_T':
                    v = transformation(r2quat(v.C), v.t)
                if not (isinstance(v, Obj) and v.tag == obj.tag):
                    return None
                eng.write(t, lv, v)
                out.append((t, lv))
            return out
        if isinstance(obj, Obj) and obj.tag == 'sm_T':
            if name == 'inverse' and not args:
                return [(st, inverse(obj))]
            if name == 't' and not args:
                return [(st, obj.t)]
            return None
        if isinstance(obj, Obj) and obj.tag == 'sm_ypr' and len(args) == 1:
            f = {'rotationMatrixToParameters': ypr, 'parametersToSMatrix': smatrix, 'parametersToRotationMatrix': ypr_inv}.get(name)
            if f:
                eng.trusted.add('sm::kinematics::EulerAnglesYawPitchRoll::' + name)
                return [(t, f(eng.read(t, vs[0]))) for (t, vs) in eng.ev_list(args, st)]
        return None
