from vc.util import *
from vc.models import UF1

CODE = '''
#include <cmath>
#include "aslam/calibration/geometry/Transformation.h"
namespace aslam { namespace calibration {
template class Transformation<double, 2>;
template class Transformation<double, 3>;
} }
'''
sin, cos = UF1['sin'], UF1['cos']


def fld(o, n):
    if o is None or n not in o.f:
        raise Unsupported('no field ' + n)
    v = o.f[n]
    if isinstance(v, Uninit):
        raise Unsupported('uninitialised ' + n)
    return v


def prod(A_, B_):
    return [[z3.Sum([lift(A_.at(i, k)) * lift(B_.at(k, j)) for k in range(A_.c)]) for j in range(B_.c)] for i in range(A_.r)]


class Tr:
    """contracts of Transformation<double, N>"""
    def __init__(self, N):
        self.N, self.D = N, N + 1
        self.cls = 'Transformation<double, %d>' % N

    M = lambda self, o: fld(o, 'mTransformationMatrix')
    Rm = lambda self, o: fld(o, 'mRotationMatrix')
    Tm = lambda self, o: fld(o, 'mTranslationMatrix')

    def ortho(self, m):
        """upper-left block orthonormal (both ways)"""
        N = self.N
        out = []
        for i in range(N):
            for j in range(i, N):
                d = z3.RealVal(1 if i == j else 0)
                out.append(z3.Sum([lift(m.at(k, i)) * lift(m.at(k, j)) for k in range(N)]) == d)
                out.append(z3.Sum([lift(m.at(i, k)) * lift(m.at(j, k)) for k in range(N)]) == d)
        return And(out)

    def bottom(self, m):
        return And([lift(m.at(self.N, j)) == (1 if j == self.N else 0) for j in range(self.D)])

    def rigid(self, m):
        return And(self.bottom(m), self.ortho(m))

    def parts(self, o):
        """rotation and translation describe the homogeneous matrix"""
        N, D, M, Rm, Tm = self.N, self.D, self.M(o), self.Rm(o), self.Tm(o)
        fs = []
        for i in range(D):
            for j in range(D):
                fs.append(lift(Rm.at(i, j)) == (lift(M.at(i, j)) if i < N and j < N else z3.RealVal(1 if i == j else 0)))
                fs.append(lift(Tm.at(i, j)) == (lift(M.at(i, j)) if i < N and j == N else z3.RealVal(1 if i == j else 0)))
        return And(fs)

    def inv(self, o):
        return [('the homogeneous matrix is rigid: orthonormal rotation, affine last row', self.rigid(self.M(o))),
                ('rotation and translation parts describe the homogeneous matrix', self.parts(o))]

    def closed(self, o, a):
        """M is the stated closed form of (x, y[, z, roll, pitch], yaw)"""
        M, N = self.M(o), self.N
        if N == 2:
            x, y, w = a
            E = [[cos(w), -sin(w), x], [sin(w), cos(w), y]]
        else:
            x, y, z, r, p, w = a
            sr, cr, sp, cp, sy, cy = sin(r), cos(r), sin(p), cos(p), sin(w), cos(w)
            E = [[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, x],
                 [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, y],
                 [-sp, cp * sr, cp * cr, z]]
        return [('entry (%d,%d) of the matrix' % (i, j), lift(M.at(i, j)) == E[i][j]) for i in range(N) for j in range(N + 1)]

    def apply(self, m, p):
        N = self.N
        return [z3.Sum([lift(m.at(i, k)) * lift(p.at(k, 0)) for k in range(N)]) + lift(m.at(i, N)) for i in range(N)]

    def contracts(self):
        N, D, C = self.N, self.D, self.cls
        n = lambda m: '%s::%s' % (C, m)
        out = []
        k = 3 if N == 2 else 6
        nm = 'Transformation'
        post = lambda cx, exc: self.closed(cx.new, cx.old_args) + self.inv(cx.new)
        out.append(Contract(n('Transformation(pose)'), (n(nm), k), post=post))
        out.append(Contract(n('setTransformation'), (n('setTransformation'), k), post=post, modifies=[('this', None)]))
        def mpost(cx, exc):
            a, M = cx.old_args[0], self.M(cx.new)
            return [('the matrix set is the matrix held', And([lift(M.at(i, j)) == lift(a.at(i, j)) for i in range(D) for j in range(D)]))] + \
                   [(x, Imp(self.rigid(a), f)) for (x, f) in self.inv(cx.new)]
        out.append(Contract(n('Transformation(matrix)'), (n(nm), 1, 'Eigen::Matrix'), post=mpost))
        out.append(Contract(n('setTransformationMatrix'), (n('setTransformationMatrix'), 1), post=mpost, modifies=[('this', None)]))
        def same_(cx, exc):
            a = cx.old_args[0]
            return [('same transformation', And(eqv(self.M(cx.new), self.M(a)), eqv(self.Rm(cx.new), self.Rm(a)), eqv(self.Tm(cx.new), self.Tm(a))))]
        out.append(Contract(n('copy'), (n(nm), 1, 'Transformation'), post=same_))
        out.append(Contract(n('operator='), (n('operator='), 1), post=same_, modifies=[('this', None)]))
        pre = lambda cc: self.inv(cc.old)
        unchanged = lambda cx: ('the transformation is unchanged', And(eqv(self.M(cx.new), self.M(cx.old)), eqv(self.Rm(cx.new), self.Rm(cx.old)), eqv(self.Tm(cx.new), self.Tm(cx.old))))
        def inverse_of(a, b):
            """a is the inverse of b"""
            fs = []
            for (x, y, t) in ((a, b, 'left'), (b, a, 'right')):
                p = prod(x, y)
                for i in range(N):
                    for j in range(D):
                        fs.append(('%s inverse, entry (%d,%d)' % (t, i, j), p[i][j] == (1 if i == j else 0)))
            return fs
        out.append(Contract(n('inverse'), (n('inverse'), 0), pre=pre, modifies=[('this', None)], post=lambda cx, exc:
                            inverse_of(self.M(cx.new), self.M(cx.old)) + self.inv(cx.new)))
        out.append(Contract(n('getInverse'), (n('getInverse'), 0), pre=pre, post=lambda cx, exc:
                            inverse_of(self.M(cx.ret), self.M(cx.old)) + self.inv(cx.ret) + [unchanged(cx)]))
        def tr(cx, dest):
            e = self.apply(self.M(cx.old), cx.old_args[0])
            return [('coordinate %d is that of rotation times point plus translation' % i, lift(dest.at(i, 0)) == e[i]) for i in range(N)] + [unchanged(cx)]
        out.append(Contract(n('transform'), (n('transform'), 2), modifies=[('arg', 1)], pre=pre, post=lambda cx, exc: tr(cx, cx.new_args[1])))
        out.append(Contract(n('operator()'), (n('operator()'), 1), pre=pre, post=lambda cx, exc: tr(cx, cx.ret)))
        out.append(Contract(n('getTransformationMatrix'), (n('getTransformationMatrix'), 0), post=lambda cx, exc:
                            [('returns the homogeneous matrix', eqv(cx.ret, self.M(cx.old))), unchanged(cx)]))
        return out

    def lemmas(self):
        """consequences of the contracts: distances, group laws"""
        N, D = self.N, self.D
        mk = lambda nm: Mat(D, D, [z3.Real('%s%d%d' % (nm, i, j)) for i in range(D) for j in range(D)])
        pt = lambda nm: Mat(N, 1, [z3.Real('%s%d' % (nm, i)) for i in range(N)])
        out = []
        m, p, q = mk('m'), pt('p'), pt('q')
        a, b = self.apply(m, p), self.apply(m, q)
        d2 = lambda u, v: z3.Sum([(x - y) * (x - y) for x, y in zip(u, v)])
        # |R d|^2 = sum_ij (R^T R)_ij d_i d_j: instances of the orthonormality equations multiplied by d_i d_j
        d = [lift(x) - lift(y) for x, y in zip(p.e, q.e)]
        hy = [self.rigid(m)]
        for i in range(N):
            for j in range(N):
                g = z3.Sum([lift(m.at(k, i)) * lift(m.at(k, j)) for k in range(N)])
                hy.append(Imp(g == (1 if i == j else 0), g * (d[i] * d[j]) == ((d[i] * d[j]) if i == j else 0)))
        out.append(Lemma('%s/distances are preserved' % self.cls, hy, d2(a, b) == d2(p.e, q.e)))
        return out


class P(Property):
    id = 'C14'
    units = {'u': dict(code=CODE)}
    harness = Harness('C14.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], quick=5, thorough=60, san=True)
    assumptions = ['sine and cosine satisfy sin^2+cos^2=1; equalities are those of real arithmetic, rounding is outside the contract', 'verified at the instantiation T=double (the only one that compiles)']
    def lemmas(self):
        return Tr(2).lemmas() + Tr(3).lemmas()
    def tasks(self, U):
        return [Task('u', c) for N in (2, 3) for c in Tr(N).contracts()]


PROPERTY = P()
