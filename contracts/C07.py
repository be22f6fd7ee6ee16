from vc.util import *
from vc.models import trunc, FL

CODE = '''
#include <cmath>
#include <iostream>
#include "aslam/calibration/data-structures/Grid.h"
namespace aslam { namespace calibration {
template class Grid<double, double, 1>;
template class Grid<double, double, 2>;
template class Grid<double, double, 3>;
template class Grid<int, double, 2>;
} }
'''


def fld(o, n):
    if o is None or n not in o.f:
        raise Unsupported('no field ' + n)
    v = o.f[n]
    if isinstance(v, Uninit):
        raise Unsupported('uninitialised ' + n)
    return v


class G:
    """contracts of Grid<T, double, M>"""
    def __init__(self, T, M, fl=False):
        self.T, self.M, self.fl = T, M, fl
        self.cls = 'Grid<%s, double, %d>' % (T, M)

    lo = lambda s, o, i: lift(fld(o, 'mMinimum').at(i))
    hi = lambda s, o, i: lift(fld(o, 'mMaximum').at(i))
    res = lambda s, o, i: lift(fld(o, 'mResolution').at(i))
    n = lambda s, o, i: lift(fld(o, 'mNumCells').at(i))
    lp = lambda s, o, i: lift(fld(o, 'mLinProd').at(i))
    tot = lambda s, o: fld(o, 'mNumCellsTot')
    cells = lambda s, o: fld(o, 'mCells')

    def prodn(self, o, idx):
        r = z3.IntVal(1)
        for i in idx:
            r = r * self.n(o, i)
        return r

    def rl(self, x):
        return tosort(x, T_REAL)

    def inv(self, o):
        D = range(self.M)
        out = []
        for i in D:
            out.append(('resolution positive %d' % i, self.res(o, i) > 0))
            out.append(('range not empty %d' % i, self.lo(o, i) < self.hi(o, i)))
            out.append(('at least one cell %d' % i, self.n(o, i) >= 1))
            if not self.fl:
                lo, hi, res, n = [self.rl(f(o, i)) for f in (self.lo, self.hi, self.res, self.n)]
                out.append(('cells cover the range %d' % i, lo + n * res >= hi))
                # an integer range is inclusive: its maximum may need a cell of its own
                out.append(('no superfluous cell %d' % i, lo + (n - 1) * res < hi if self.T == 'double' else lo + (n - 1) * res <= hi))
            else:
                q = FL(FL(self.hi(o, i) - self.lo(o, i)) / self.res(o, i))
                out.append(('cells cover the rounded range %d' % i, z3.ToReal(self.n(o, i)) >= q))
            out.append(('linear factor %d' % i, self.lp(o, i) == self.prodn(o, range(i + 1, self.M))))
        out.append(('total number of cells', self.tot(o) == self.prodn(o, D)))
        out.append(('one container entry per cell', self.cells(o).n == self.prodn(o, D)))
        return out

    def valid(self, o, idx):
        return And([And(0 <= lift(idx.at(i)), lift(idx.at(i)) < self.n(o, i)) for i in range(self.M)])

    def inrange(self, o, p):
        return And([And(self.lo(o, i) <= lift(p.at(i)), lift(p.at(i)) <= self.hi(o, i)) for i in range(self.M)])

    def lin(self, o, idx):
        return z3.Sum([self.lp(o, i) * lift(idx.at(i)) for i in range(self.M)])

    def same_all(self, a, b):
        return And([eqv(fld(a, f), fld(b, f)) for f in b.f])

    def contracts(self):
        C, M, D = self.cls, self.M, range(self.M)
        n = lambda m: '%s::%s' % (C, m)
        out = []
        K = Contract
        pre = lambda cc: self.inv(cc.old)
        if not self.fl:
            def cpost(cx, exc):
                a, b, r = cx.old_args
                ok = And([And(lift(r.at(i)) > 0, lift(a.at(i)) < lift(b.at(i)), lift(r.at(i)) <= lift(b.at(i)) - lift(a.at(i))) for i in D])
                if exc:
                    return [('only invalid parameters are rejected', Not(ok))]
                o = cx.new
                return [('valid parameters', ok), ('parameters are kept', And([And(self.lo(o, i) == lift(a.at(i)), self.hi(o, i) == lift(b.at(i)), self.res(o, i) == lift(r.at(i))) for i in D]))] + self.inv(o)
            out.append(K(n('ctor'), (n('Grid'), 3), exc=('BadArgumentException',), post=cpost))
            out.append(K(n('copy'), (n('Grid'), 1), post=lambda cx, exc: [('equal to the original', self.same_all(cx.new, cx.old_args[0]))]))
            out.append(K(n('operator='), (n('operator='), 1), modifies=[('this', None)], post=lambda cx, exc: [('equal to the original', self.same_all(cx.new, cx.old_args[0]))]))
        # -------- coordinates -> index
        def ipost(cx, exc):
            p, o = cx.old_args[0], cx.old
            if exc:
                return [('only points outside the range are rejected', Not(self.inrange(o, p)))]
            r = cx.ret
            fs = [('only points of the range are accepted', self.inrange(o, p))]
            for i in D:
                fs.append(('index %d is inside the grid' % i, And(0 <= lift(r.at(i)), lift(r.at(i)) < self.n(o, i))))
                if not self.fl:
                    lo, res, x, k = self.rl(self.lo(o, i)), self.rl(self.res(o, i)), self.rl(lift(p.at(i))), self.rl(lift(r.at(i)))
                    fs.append(('point %d is not below its cell' % i, lo + k * res <= x))
                    fs.append(('point %d is not above its cell' % i, Or(x < lo + (k + 1) * res, And(x == self.rl(self.hi(o, i)), x <= lo + (k + 1) * res))))
            return fs
        out.append(K(n('getIndex') + (' (rounded)' if self.fl else ''), (n('getIndex'), 1), exc=('OutOfBoundException',), pre=pre, post=ipost))
        if self.fl:
            return out
        # -------- index -> coordinates
        def gpost(cx, exc):
            x, o = cx.old_args[0], cx.old
            if exc:
                return [('only indices outside the grid are rejected', Not(self.valid(o, x)))]
            fs = [('only indices of the grid are accepted', self.valid(o, x))]
            for i in D:
                lo, res, k, c = self.rl(self.lo(o, i)), self.rl(self.res(o, i)), self.rl(lift(x.at(i))), self.rl(lift(cx.ret.at(i)))
                if self.T == 'double':
                    fs.append(('centre of the cell %d' % i, c == lo + (k + z3.RealVal('1/2')) * res))
                else:
                    fs.append(('centre of the cell, rounded down %d' % i, And(c <= lo + (k + z3.RealVal('1/2')) * res, lo + (k + z3.RealVal('1/2')) * res < c + 1)))
                    fs.append(('centre lies in its cell %d' % i, And(lo + k * res <= c, c < lo + (k + 1) * res)))
            return fs
        out.append(K(n('getCoordinates'), (n('getCoordinates'), 1), exc=('OutOfBoundException',), pre=pre, post=gpost))
        out.append(K(n('isInRange'), (n('isInRange'), 1), post=lambda cx, exc: [('true exactly inside the closed range', cx.ret == self.inrange(cx.old, cx.old_args[0]))]))
        out.append(K(n('isValidIndex'), (n('isValidIndex'), 1), post=lambda cx, exc: [('true exactly for the indices of the grid', cx.ret == self.valid(cx.old, cx.old_args[0]))]))
        # -------- linear index and iteration
        def lpost(cx, exc):
            o, x = cx.old, cx.old_args[0]
            return [('mixed-radix value of the index', cx.ret == self.lin(o, x))]
        out.append(K(n('computeLinearIndex'), (n('computeLinearIndex'), 1), pre=lambda cc: self.inv(cc.old) + [('valid', self.valid(cc.old, cc.args[0]))], post=lpost))
        def step(cx, exc):
            o, a, b = cx.old, cx.old_args[0], cx.new_args[0]
            fs = []
            last = And([lift(a.at(i)) == self.n(o, i) - 1 for i in D])
            fs.append(('after the last cell comes the end', Imp(last, And([lift(b.at(i)) == self.n(o, i) for i in D]))))
            for k in D:
                carry = And([lift(a.at(i)) == self.n(o, i) - 1 for i in range(k)] + [lift(a.at(k)) < self.n(o, k) - 1])
                fs.append(('the successor carries into position %d' % k, Imp(carry, And([lift(b.at(i)) == (0 if i < k else lift(a.at(i)) + (1 if i == k else 0)) for i in D]))))
            if cx.retlv is not None:
                fs.append(('returns its argument', z3.BoolVal(cx.retlv.root == ('obj', 'arg0') and not cx.retlv.path)))
            return fs
        out.append(K(n('incrementIndex'), (n('incrementIndex'), 1), pre=lambda cc: self.inv(cc.old) + [('valid', self.valid(cc.old, cc.args[0]))], modifies=[('arg', 0)], post=step))
        # -------- cells
        def cellpost(key):
            def f(cx, exc):
                o, x = cx.old, cx.old_args[0]
                if key == 'idx':
                    ok, lin = self.valid(o, x), self.lin(o, x)
                else:
                    ok, lin = self.inrange(o, x), None
                if exc:
                    return [('only arguments outside the grid are rejected', Not(ok))]
                lv = cx.retlv
                if lv is None or lv.root != ('obj', 'this') or len(lv.path) != 2 or lv.path[1][0] != 'at':
                    raise Unsupported('result is not a cell')
                k = lv.path[1][1]
                fs = [('only arguments inside the grid are accepted', ok), ('a cell of the container', And(0 <= k, k < self.cells(o).n))]
                if lin is not None:
                    fs.append(('the cell at the linear index', k == lin))
                else:
                    js = [z3.Int(fname('gi')) for _ in D]
                    ws = []
                    # the linear index is that of the cell containing the point
                    def cell(js):
                        return And([And(0 <= js[i], js[i] < self.n(o, i), self.rl(self.lo(o, i)) + self.rl(js[i]) * self.rl(self.res(o, i)) <= self.rl(lift(x.at(i))),
                                        Or(self.rl(lift(x.at(i))) < self.rl(self.lo(o, i)) + self.rl(js[i] + 1) * self.rl(self.res(o, i)),
                                           And(js[i] == self.n(o, i) - 1, self.rl(lift(x.at(i))) == self.rl(self.hi(o, i))))) for i in D])
                    fs.append(('the cell that contains the point', z3.ForAll(js, Imp(cell(js), k == z3.Sum([self.lp(o, i) * js[i] for i in D])))))
                return fs
            return f
        E = ('OutOfBoundException',)
        for sg, tg in (('const Index', ' const'), ('', '')):
            pass
        out.append(K(n('getCell const'), (n('getCell'), 1, ') const'), exc=E, pre=pre, post=cellpost('idx')))
        out.append(K(n('getCell'), (n('getCell'), 1, 'NONCONST'), exc=E, pre=pre, post=cellpost('idx')))
        out.append(K(n('operator[] const'), (n('operator[]'), 1, ') const'), exc=E, pre=pre, post=cellpost('idx')))
        out.append(K(n('operator[]'), (n('operator[]'), 1, 'NONCONST'), exc=E, pre=pre, post=cellpost('idx')))
        if M == 1:
            out.append(K(n('operator() const'), (n('operator()'), 1, ') const'), exc=E, pre=pre, post=cellpost('pt')))
            out.append(K(n('operator()'), (n('operator()'), 1, 'NONCONST'), exc=E, pre=pre, post=cellpost('pt')))
        # -------- accessors
        for (m, f) in (('getNumCells', 'mNumCells'), ('getNumCellsTot', 'mNumCellsTot'), ('getMinimum', 'mMinimum'), ('getMaximum', 'mMaximum'), ('getResolution', 'mResolution'), ('getCells', 'mCells')):
            out.append(K(n(m), (n(m), 0), post=lambda cx, exc, f=f: [('the stored quantity', eqv(cx.ret, fld(cx.old, f)))]))
        class ResetLoop(Loop):
            def cands(s, lc):
                o = []
                for rp in lc.vars(lambda v: isinstance(v, VecV)):
                    for (nm, cur) in lc.cursors():
                        o.append(('cleared-prefix', lambda s_, rp=rp, cur=cur: And(lc.get(s_, rp).n == lc.get(lc.entry, rp).n,
                            fa(lambda j: Imp(And(0 <= j, j < cur(s_)), lc.get(s_, rp).a[j] == 0), lambda j: lc.get(s_, rp).a[j]))))
                return o
        def rpost(cx, exc):
            c = self.cells(cx.new)
            return [('same number of cells', c.n == self.cells(cx.old).n), ('every cell is reset', fa(lambda j: Imp(And(0 <= j, j < c.n), c.a[j] == 0)))]
        rc = K(n('reset'), (n('reset'), 0), pre=pre, modifies=[('this', 'mCells')], post=rpost)
        rc.loop = ResetLoop()
        out.append(rc)
        return out

    def lemmas(self):
        """arithmetic of the index order: consequences of the contracts"""
        M, D = self.M, range(self.M)
        out = []
        ns = z3.Ints(' '.join('n%d' % i for i in D))
        x, y = z3.Ints(' '.join('x%d' % i for i in D)), z3.Ints(' '.join('y%d' % i for i in D))
        def val(v, order):
            r = z3.IntVal(0)
            for i in order:
                r = r * ns[i] + v[i]
            return r
        tot = z3.IntVal(1)
        for q in ns:
            tot = tot * q
        ok = lambda v: [And(0 <= v[i], v[i] < ns[i]) for i in D]
        for (nm, order) in (('linear index', list(D)), ('iteration rank', list(D)[::-1])):
            # Horner: each digit step keeps 0 <= value < product of the radices used, and is injective
            a, b, p, q, u, v = z3.Ints('a b p q u v')
            out.append(Lemma('%s/digit step stays in range' % nm, [0 <= a, a < p, 0 <= u, u < q, p >= 1, q >= 1, (p - 1 - a) * q >= 0], And(0 <= a * q + u, a * q + u < p * q)))
            out.append(Lemma('%s/digit step injective' % nm, [0 <= u, u < q, 0 <= v, v < q, a * q + u == b * q + v, Imp(a > b, (a - b - 1) * q >= 0), Imp(b > a, (b - a - 1) * q >= 0)], And(a == b, u == v)))
        # the factors used by the code give the Horner value
        lp = []
        for i in D:
            r = z3.IntVal(1)
            for j in range(i + 1, M):
                r = r * ns[j]
            lp.append(r)
        out.append(Lemma('%s/linear index is the mixed-radix value' % self.cls, [], z3.Sum([lp[i] * x[i] for i in D]) == val(x, D)))
        # the successor defined by incrementIndex has the next rank
        for k in D:
            carry = [x[i] == ns[i] - 1 for i in range(k)]
            y_ = [z3.IntVal(0) if i < k else (x[i] + 1 if i == k else x[i]) for i in D]
            sub = [(x[i], ns[i] - 1) for i in range(k)]
            g = val(y_, list(D)[::-1]) == z3.substitute(val(x, list(D)[::-1]), *sub) + 1 if sub else val(y_, list(D)[::-1]) == val(x, list(D)[::-1]) + 1
            out.append(Lemma('%s/successor %d has the next rank' % (self.cls, k), [], g))
        return out


class P(Property):
    id = 'C07'
    units = {'u': dict(code=CODE)}
    harness = Harness('C07.cpp', ['$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], quick=5, thorough=60, san=True)
    assumptions = ['real-arithmetic contracts at Grid<double, double, M> for M = 1, 2, 3 and Grid<int, double, 2>; the index bound of getIndex is proved a second time with every floating-point operation rounded by an arbitrary monotone function that fixes 0']
    def lemmas(self):
        out = []
        for M in (1, 2, 3):
            out += G('double', M).lemmas()
        return out
    def tasks(self, U):
        x, y = z3.Reals('fx fy')
        mono = [z3.ForAll([x, y], Imp(x <= y, FL(x) <= FL(y)), patterns=[z3.MultiPattern(FL(x), FL(y))]), FL(z3.RealVal(0)) == 0]
        out = []
        for M in (1, 2, 3):
            out += [Task('u', c) for c in G('double', M).contracts()]
            out += [Task('u', c, opts=dict(fl=True), axioms=mono) for c in G('double', M, True).contracts()]
        out += [Task('u', c) for c in G('int', 2).contracts()]
        return out


PROPERTY = P()
