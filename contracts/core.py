"""Specification shared by the problem classes: grouped storage of design variables with ghost witnesses."""
from vc.util import *
from vc.spec import ISUM
from vc.values import MATX
K = Contract

PTR = Ty('ptr', Ty('void'))
AII, AIB = z3.ArraySort(I, I), z3.ArraySort(I, B)
AIM = z3.ArraySort(I, MATX)

# ---------------------------------------------------------------- assumed contracts of aslam_backend objects
NDV = z3.Function('et_numDesignVariables', I, I)
DVA = z3.Function('et_designVariables', I, AII)
ACT = z3.Function('dv_isActive', I, B)
DIM = z3.Function('dv_minimalDimensions', I, I)
USES = z3.Function('et_uses', I, I, B)          # some design variable of the error term is this one
USEW = z3.Function('et_uses_at', I, I, I)


def uses_axioms():
    e, d, j = z3.Ints('e d j')
    return [z3.ForAll([e, d], Imp(USES(e, d), And(0 <= USEW(e, d), USEW(e, d) < NDV(e), DVA(e)[USEW(e, d)] == d)), patterns=[USES(e, d)]),
            z3.ForAll([e, j], Imp(And(0 <= j, j < NDV(e)), USES(e, DVA(e)[j])), patterns=[DVA(e)[j]]),
            z3.ForAll([e], NDV(e) >= 0, patterns=[NDV(e)]),
            z3.ForAll([e], DIM(e) >= 0, patterns=[DIM(e)])]


def params0(env):
    return z3.Const('params0', AIM)


def pure(cls, m, np, ret, **kw):
    """modular contract of a pure member of a backend object: a function of the object (and its arguments)"""
    c = K('%s::%s' % (cls, m), ('%s::%s' % (cls, m), np))
    c.modular = True
    def pre(cc):
        if cc.this_id is None:
            raise Unsupported('%s on a non-pointer' % m)
        return [('object exists', cc.this_id != 0)] + (kw['pre'](cc) if 'pre' in kw else [])
    c._pre = pre
    c.retf = ret
    return c


def backend():
    o = {}
    def add(c):
        o[(c.fn[0], c.fn[1], None)] = c
    add(pure('ErrorTerm', 'numDesignVariables', 0, lambda cx, t: NDV(cx.this_id)))
    add(pure('ErrorTerm', 'designVariable', 1, lambda cx, t: DVA(cx.this_id)[cx.args[0]], pre=lambda cc: [('index in range', And(0 <= cc.args[0], cc.args[0] < NDV(cc.this_id)))]))
    def dvs(cx, t):
        root = ('tmp', 'dvs', cx.this_id.sexpr())
        t.store[root] = VecV(NDV(cx.this_id), DVA(cx.this_id), PTR)
        t.assume(NDV(cx.this_id) >= 0)
        return LV(root)
    add(pure('ErrorTerm', 'designVariables', 0, dvs))
    add(pure('DesignVariable', 'isActive', 0, lambda cx, t: ACT(cx.this_id)))
    add(pure('DesignVariable', 'minimalDimensions', 0, lambda cx, t: DIM(cx.this_id)))
    g = pure('DesignVariable', 'getParameters', 1, lambda cx, t: None)
    g._mod = [('arg', 0)]
    g._post = lambda cx, exc: [('the current value', cx.new_args[0] == cx.ghost('params')[cx.this_id])]
    add(g)
    s = pure('DesignVariable', 'setParameters', 1, lambda cx, t: None)
    s._mod = [('ghost', 'params')]
    s._post = lambda cx, exc: [('the given value, nothing else', cx.ghost('params') == z3.Store(cx.old_ghost('params'), cx.this_id, cx.args[0]))]
    add(s)
    return o


# ---------------------------------------------------------------- grouped storage
def vlen(D, g):
    return D[g].n


def varr(D, g):
    return D[g].a


class G:
    """ghost witnesses of one object state"""
    def __init__(self, tag):
        for n in ('pos', 'opos', 'W', 'epos'):
            setattr(self, n, z3.Const('%s_%s' % (n, tag), AII))
    def but(self, **kw):
        g = G.__new__(G)
        g.__dict__.update(self.__dict__)
        g.__dict__.update(kw)
        return g


class View:
    """one state of the grouped storage, with named arrays"""
    def __init__(self, st, has, grp, size, D, O, name=None):
        self.has, self.grp, self.size, self.D, self.O = has, grp, size, D, O


def nm(st, x, tag):
    if has_pat(x):
        return x
    c = z3.Const(fname(tag), x.sort())
    st.assume(c == x)
    return c


def store_inv(v, g):
    """every held variable sits in exactly one slot of exactly one group; the order lists exactly the groups in use"""
    D, O = v.D, v.O
    return [('every held variable is stored in its group', fa(lambda p: Imp(v.has(p), And(p != 0, D.has(v.grp(p)), 0 <= g.pos[p], g.pos[p] < vlen(D, v.grp(p)), varr(D, v.grp(p))[g.pos[p]] == p)), lambda p: v.has(p))),
            ('every stored variable is held, once, in the group it is stored in', fa(lambda x, i: Imp(And(D.has(x), 0 <= i, i < vlen(D, x)), And(v.has(varr(D, x)[i]), v.grp(varr(D, x)[i]) == x, g.pos[varr(D, x)[i]] == i)), lambda x, i: varr(D, x)[i], n=2)),
            ('groups in use are not empty and are in the order', fa(lambda x: Imp(D.has(x), And(vlen(D, x) >= 1, 0 <= g.opos[x], g.opos[x] < O.n, O.a[g.opos[x]] == x)), lambda x: [D.has(x)])),
            ('the order lists groups in use, each once', fa(lambda i: Imp(And(0 <= i, i < O.n), And(D.has(O.a[i]), g.opos[O.a[i]] == i)), lambda i: O.a[i])),
            ('ghost: group sizes in order', fa(lambda i: Imp(And(0 <= i, i < O.n), g.W[i] == vlen(D, O.a[i])), lambda i: [g.W[i], O.a[i]])),
            ('number of variables is the sum of the group sizes', v.size == ISUM(g.W, 0, O.n)),
            ('as many groups as listed', And(O.n >= 0, D.size == O.n, v.size >= 0))]


def pigeonhole(st, f, n):
    """an injective map of [0,n) into itself is onto (lemma 'pigeonhole', proved by induction): its inverse"""
    inv = z3.Const(fname('inv'), AII)
    inj = fa(lambda i, j: Imp(And(0 <= i, i < n, 0 <= j, j < n, f[i] == f[j]), i == j), lambda i, j: z3.MultiPattern(f[i], f[j]), n=2)
    rng = fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= f[i], f[i] < n)), lambda i: f[i])
    st.assume(Imp(And(inj, rng), And(fa(lambda y: Imp(And(0 <= y, y < n), And(0 <= inv[y], inv[y] < n, f[inv[y]] == y)), lambda y: inv[y]),
                                     fa(lambda i: Imp(And(0 <= i, i < n), inv[f[i]] == i), lambda i: f[i]))))
    return inv


def sum_perm(st, a, b, f, inv, n):
    """sums over [0,n) agree when b is a rearranged by the bijection f (lemma 'sum-rearranged', proved by induction)"""
    st.assume(Imp(And(fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= f[i], f[i] < n, inv[f[i]] == i, b[i] == a[f[i]])), lambda i: f[i]),
                      fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= inv[i], inv[i] < n, f[inv[i]] == i)), lambda i: inv[i])), ISUM(b, 0, n) == ISUM(a, 0, n)))


def lemmas():
    a, b, f, inv = z3.Consts('a b f inv', AII)
    n = z3.Int('n')
    bij = lambda b, f, inv, n: And(fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= f[i], f[i] < n, inv[f[i]] == i, b[i] == a[f[i]]))),
                                   fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= inv[i], inv[i] < n, f[inv[i]] == i))))
    goal = lambda b, n: ISUM(b, 0, n) == ISUM(a, 0, n)
    p = z3.Int('p')
    b2, f2, i2 = z3.Store(b, p, b[n]), z3.Store(f, p, f[n]), z3.Store(inv, f[n], p)
    L = []
    unf = lambda x, h: If(h <= 0, ISUM(x, 0, h) == 0, ISUM(x, 0, h) == ISUM(x, 0, h - 1) + x[h - 1])
    L.append(Lemma('sum-rearranged/base', [unf(a, 0 * n), unf(b, 0 * n)], ISUM(b, 0, 0) == ISUM(a, 0, 0)))
    hy = [n >= 0, bij(b, f, inv, n + 1), p == inv[n]]
    # the map with the preimage of the last position bypassed is a bijection one size smaller
    L.append(Lemma('sum-rearranged/bypass', hy, bij(b2, f2, i2, n)))
    L.append(Lemma('sum-rearranged/step', [n >= 0, 0 <= p, p <= n, b[p] == a[n], goal(b2, n), unf(a, n + 1), unf(b, n + 1),
                                           ISUM(b2, 0, n) == ISUM(b, 0, n) + If(And(0 <= p, p < n), b[n] - b[p], 0)], goal(b, n + 1)))
    # pigeonhole
    inj = lambda f, n: And(fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= f[i], f[i] < n))), fa(lambda i, j: Imp(And(0 <= i, i < n, 0 <= j, j < n, f[i] == f[j]), i == j), n=2))
    onto = lambda f, n: fa(lambda y: Imp(And(0 <= y, y < n), ex(lambda i: And(0 <= i, i < n, f[i] == y))))
    g = z3.Const('g', AII)
    gdef = fa(lambda i: g[i] == If(f[i] == n, f[n], f[i]), lambda i: g[i])
    L.append(Lemma('pigeonhole/bypass', [n >= 0, inj(f, n + 1), gdef], inj(g, n)))
    y = z3.Int('y')
    h = z3.Const('h', AII)          # the preimages under g that the induction hypothesis gives
    hit = lambda i: And(0 <= i, i <= n, f[i] == y)
    L.append(Lemma('pigeonhole/step', [n >= 0, inj(f, n + 1), gdef, fa(lambda y: Imp(And(0 <= y, y < n), And(0 <= h[y], h[y] < n, g[h[y]] == y)), lambda y: h[y]), 0 <= y, y <= n],
                   Or(hit(n), hit(h[y]), hit(h[f[n]]))))
    # a sum is not smaller than any prefix of it (non-negative terms); and sums after removing one position
    w = z3.Const('w', AII)
    m = z3.Int('m')
    nonneg = fa(lambda i: Imp(And(0 <= i, i <= m), w[i] >= 0), lambda i: w[i])
    L.append(Lemma('sum-monotone/step', [0 <= n, n <= m, nonneg, ISUM(w, 0, m) >= ISUM(w, 0, n), unf(w, m + 1)], ISUM(w, 0, m + 1) >= ISUM(w, 0, n)))
    e = z3.Const('e', AII)
    sh = lambda h: ISUM(e, 0, h) == ISUM(w, 0, h + 1) - w[p]
    L.append(Lemma('sum-erased/base', [0 <= p, fa(lambda j: Imp(And(0 <= j, j < p), e[j] == w[j])), ISUM(e, 0, p) == ISUM(w, 0, p), unf(w, p + 1)], sh(p)))
    L.append(Lemma('sum-erased/step', [0 <= p, p <= n, e[n] == w[n + 1], sh(n), unf(e, n + 1), unf(w, n + 2)], sh(n + 1)))
    return L


def sum_mono(st, w, lo, hi):
    """lemma 'sum-monotone' at the sum from 0 to hi"""
    st.assume(Imp(And(0 <= lo, lo <= hi, fa(lambda i: Imp(And(0 <= i, i < hi), w[i] >= 0), lambda i: w[i])), ISUM(w, 0, hi) >= ISUM(w, 0, lo)))


def sum_erased(st, w, e, p, n):
    """lemma 'sum-erased': e is w without position p"""
    st.assume(Imp(And(0 <= p, p < n, fa(lambda j: Imp(And(0 <= j, j < n - 1), e[j] == If(j < p, w[j], w[j + 1])), lambda j: e[j])), ISUM(e, 0, z3.simplify(n - 1)) == ISUM(w, 0, n) - w[p]))


# ---------------------------------------------------------------- fields by type
def find(o, pred, what):
    c = [n for n, v in o.f.items() if pred(v)]
    if len(c) != 1:
        raise Unsupported('cannot identify the %s among the fields' % what)
    return c[0]


# ---------------------------------------------------------------- loops
class SumLoop(Loop):
    """running prefix sums over the group order"""
    def __init__(self, W=None):
        self.W = W or (lambda lc: g0().W)
    def cands(self, lc):
        out = []
        W = self.W(lc)
        for (nm_, cur) in lc.cursors():
            for rp in lc.ints():
                out.append(('prefix sum', lambda t, rp=rp, cur=cur: lc.get(t, rp) == ISUM(W, 0, cur(t))))
                out.append(('prefix sum added to the initial value', lambda t, rp=rp, cur=cur: lc.get(t, rp) == lc.get(lc.entry, rp) + ISUM(W, 0, cur(t))))
                out.append(('prefix sum counted down from the initial value', lambda t, rp=rp, cur=cur: lc.get(t, rp) == lc.get(lc.entry, rp) - ISUM(W, 0, cur(t))))
                if self.target(lc) is not None:
                    out.append(('not yet reached', lambda t, rp=rp, cur=cur: ISUM(W, 0, cur(t)) <= self.target(lc)))
        return out
    def target(self, lc):
        v = lc.entry.store.get(('ghost', 'target'))
        return v


class FLoop(Loop):
    """loop specification that looks at the fields of the object"""
    def __init__(self, F):
        self.F = F


class OrderLoop(FLoop):
    """the groups seen so far are known, distinct and exactly those in the local set"""
    def ghost_init(self, lc):
        lc.add_ghost('gp', z3.Const(fname('gp0'), AII))
    def sets(self, lc):
        return lc.vars(lambda v: isinstance(v, SetV))
    def ghost_step(self, lc, t):
        gp = t.store[('ghost', 'gp')]
        for (nm_, cur) in lc.cursors()[:1]:
            a = lc.eng.read(t, LV(('obj', 'arg0')))
            t.store[('ghost', 'gp')] = z3.Store(gp, a.a[cur(t) - 1], cur(t) - 1)
    def cands(self, lc):
        out = []
        for (nm_, cur) in lc.cursors():
            A = lambda t: lc.eng.read(t, LV(('obj', 'arg0')))
            D = lambda t: self.F(lc.eng.read(t, LV(('obj', 'this')))).D
            gp = lambda t: t.store[('ghost', 'gp')]
            out.append(('known groups', lambda t, cur=cur: fa(lambda j: Imp(And(0 <= j, j < cur(t)), D(t).has(A(t).a[j])), lambda j: A(t).a[j])))
            out.append(('distinct groups', lambda t, cur=cur: fa(lambda j, k: Imp(And(0 <= j, j < cur(t), 0 <= k, k < cur(t), A(t).a[j] == A(t).a[k]), j == k), lambda j, k: z3.MultiPattern(A(t).a[j], A(t).a[k]), n=2)))
            for rp in self.sets(lc):
                out.append(('seen groups are recorded', lambda t, rp=rp, cur=cur: fa(lambda j: Imp(And(0 <= j, j < cur(t)), lc.get(t, rp).has(A(t).a[j])), lambda j: A(t).a[j])))
                out.append(('recorded groups were seen', lambda t, rp=rp, cur=cur: fa(lambda x: Imp(lc.get(t, rp).has(x), And(0 <= gp(t)[x], gp(t)[x] < cur(t), A(t).a[gp(t)[x]] == x)), lambda x: [gp(t)[x], lc.get(t, rp).has(x)])))
        return out


class DimLoop(Loop):
    def cands(self, lc):
        out = []
        for (nm_, cur) in lc.cursors():
            for rp in lc.ints():
                out.append(('dimension so far', lambda t, rp=rp, cur=cur: lc.get(t, rp) == ISUM(t.store[('ghost', 'dims')], 0, cur(t))))
        return out


class SaveLoop(FLoop):
    """saved so far: the variables already visited"""
    def cands(self, lc):
        from vc.models import keypos
        out = []
        for (nm_, cur) in lc.cursors():
            def q(t, cur=cur):
                f0 = self.F(lc.eng.read(lc.entry, LV(('obj', 'this'))))
                f = self.F(lc.eng.read(t, LV(('obj', 'this'))))
                vis = lambda p: And(f0.L.has(p), keypos(f0.L.K)(f0.L.dom, p) < cur(t))
                P0 = lc.entry.store[('ghost', 'params')]
                return And(fa(lambda p: f.BK.has(p) == Or(f0.BK.has(p), vis(p)), lambda p: f.BK.has(p)),
                           fa(lambda p: f.BK.val[p] == If(vis(p), P0[p], f0.BK.val[p]), lambda p: f.BK.val[p]))
            out.append(('saved so far', q))
        return out


class RestoreLoop(FLoop):
    def cands(self, lc):
        from vc.models import keypos
        out = []
        for (nm_, cur) in lc.cursors():
            def q(t, cur=cur):
                f0 = self.F(lc.eng.read(lc.entry, LV(('obj', 'this'))))
                P0, P1 = lc.entry.store[('ghost', 'params')], t.store[('ghost', 'params')]
                vis = lambda p: And(f0.BK.has(p), keypos(f0.BK.K)(f0.BK.dom, p) < cur(t))
                return fa(lambda p: P1[p] == If(vis(p), f0.BK.val[p], P0[p]), lambda p: P1[p])
            out.append(('restored so far', q))
            def q2(t, cur=cur):
                f0 = self.F(lc.eng.read(lc.entry, LV(('obj', 'this'))))
                f = self.F(lc.eng.read(t, LV(('obj', 'this'))))
                return eqv(f.BK, f0.BK)
            out.append(('backup kept', q2))
        return out


def permute_modular():
    """permute by its contract (the one C05 discharges on the body)"""
    c = K('permute', ('permute', 2), exc=('OutOfBoundException',))
    c.modular = True
    def pre(cc):
        p = cc.args[1]
        return [('distinct entries', fa(lambda i, j: Imp(And(0 <= i, i < p.n, 0 <= j, j < p.n, p.a[i] == p.a[j]), i == j), lambda i, j: z3.MultiPattern(p.a[i], p.a[j]), n=2))]
    def post(cx, exc):
        c0, p, c1 = cx.old_args[0], cx.old_args[1], cx.new_args[0]
        valid = And(c0.n == p.n, fa(lambda x: Imp(And(0 <= x, x < p.n), And(0 <= p.a[x], p.a[x] < c0.n)), lambda x: p.a[x]))
        if exc:
            return [('only invalid permutation vectors are rejected', Not(valid))]
        return [('length', c1.n == c0.n), ('elements', fa(lambda j: Imp(And(0 <= j, j < c0.n), c1.a[j] == c0.a[p.a[j]]), lambda j: c1.a[j])), ('valid', valid)]
    c._pre, c._post, c._mod = pre, post, [('arg', 0)]
    return c




# ---------------------------------------------------------------- fields and shared contracts
isptr = lambda T: T.k == 'ptr'
FLD = ('this', None)
g0 = lambda: G('old')


class Fields:
    """grouped storage of a problem, its fields identified by their types"""
    parts = ('L', 'D', 'O')
    def locate(self, o):
        return {}
    def __init__(self, o):
        if o is None:
            raise Unsupported('no object')
        self.names = dict(D=find(o, lambda v: isinstance(v, MapV) and v.K.k == 'int' and v.V.k == 'vec', 'groups'),
                          O=find(o, lambda v: isinstance(v, VecV) and v.T.k == 'int', 'group order'),
                          BK=find(o, lambda v: isinstance(v, MapV) and isptr(v.K) and v.V.k == 'eig', 'backup'))
        self.names.update(self.locate(o))
        for n, f in self.names.items():
            setattr(self, n, o.f[f])

    def name(self, st):
        """names for the array terms, so that quantified facts about them can be used"""
        for n, f in self.names.items():
            v = getattr(self, n)
            if isinstance(v, MapV):
                v = MapV(nm(st, v.dom, n + 'd'), nm(st, v.val, n + 'v'), v.size, v.K, v.V)
            elif isinstance(v, SetV):
                v = SetV(nm(st, v.dom, n + 'd'), v.size, v.K)
            elif isinstance(v, VecV):
                v = VecV(v.n, nm(st, v.a, n + 'a'), v.T)
            setattr(self, n, v)
        return self

    def has(self, p):
        return self.L.has(p)

    def view(self):
        return View(None, self.has, self.grp, self.L.size, self.D, self.O)


def with_loop(c, loop):
    c.loop = loop
    return c


class Shared:
    """contracts of the members that both problem classes have"""
    def __init__(self, cls, F, inv):
        self.cls, self.F, self.inv = cls, F, inv

    def n(self, m):
        return self.cls + '::' + m

    def pre(self, cc):
        return self.inv(self.F(cc.old), g0())

    def old(self, cx):
        return self.F(cx.old)

    def new(self, cx):
        return self.F(cx.new).name(cx.st)

    def same(self, cx, *parts):
        a, b = self.F(cx.old), self.F(cx.new)
        return And([eqv(getattr(a, x), getattr(b, x)) for x in parts])

    def kept(self, cx):
        return [('rejected call leaves the problem as it was', self.same(cx, *self.F.parts))]

    def con(self, m, np, post, sig=None, **kw):
        fn = (self.n(m), np) if sig is None else (self.n(m), np, sig)
        kw.setdefault('pre', self.pre)
        return K(self.n(kw.pop('tag', m)), fn, post=post, cls=self.cls, **kw)

    def index_of(self, a, p, g):
        return ISUM(g.W, 0, g.opos[a.grp(p)]) + g.pos[p]

    def gid(self):
        g, old = g0(), self.old
        def post(cx, exc):
            a = old(cx)
            i = cx.old_args[0]
            if exc:
                return [('only indices out of range are rejected', Or(i < 0, i >= a.L.size))]
            x, k = cx.new_args[1], cx.new_args[2]
            s = ISUM(g.W, 0, g.opos[x])
            cx.st.assume(ISUM(g.W, 0, g.opos[x] + 1) == s + g.W[g.opos[x]])
            return [('index in range', i < a.L.size), ('a group in use', a.D.has(x)), ('position in the group', And(0 <= k, k < vlen(a.D, x))), ('numbered group by group in order', i == s + k)]
        return post

    def gid_modular(self):
        gm = K(self.n('getGroupId(idx)'), (self.n('getGroupId'), 3), pre=lambda cc: [('index', cc.args[0] >= 0)] + self.pre(cc), post=self.gid(), exc=('OutOfBoundException',), modifies=[('arg', 1), ('arg', 2)])
        gm.modular = True
        return gm

    def queries(self):
        g, old, con = g0(), self.old, self.con
        out = []
        one = lambda nm_, f: (lambda cx, exc: [(nm_, f(cx, old(cx)))])
        out.append(con('isDesignVariableInProblem', 1, one('held', lambda cx, a: cx.ret == a.has(cx.old_args[0]))))
        out.append(con('isGroupInProblem', 1, one('in use', lambda cx, a: cx.ret == a.D.has(cx.old_args[0]))))
        out.append(con('getNumGroups', 0, one('groups in use', lambda cx, a: cx.ret == a.D.size)))
        out.append(con('numDesignVariablesImplementation', 0, one('number of variables', lambda cx, a: cx.ret == a.L.size)))
        out.append(con('getGroupsOrdering', 0, one('the order', lambda cx, a: eqv(cx.ret, a.O))))
        out.append(con('getDesignVariablesGroups', 0, one('the groups', lambda cx, a: eqv(cx.ret, a.D))))
        def grp(cx, exc):
            a, x = old(cx), cx.old_args[0]
            if exc:
                return [('only unknown groups are rejected', Not(a.D.has(x)))]
            return [('a known group', a.D.has(x)), ('the variables of the group', eqv(cx.ret, a.D[x]))]
        out.append(con('getDesignVariablesGroup', 1, grp, exc=('OutOfBoundException',)))
        def gof(cx, exc):
            a, p = old(cx), cx.old_args[0]
            if exc:
                return [('only unknown variables are rejected', Not(a.has(p)))]
            return [('a held variable', a.has(p)), ('the group of the variable', cx.ret == a.grp(p))]
        out.append(con('getGroupId', 1, gof, exc=('InvalidOperationException',)))
        # group dimension
        def dim(cx, exc):
            x = cx.old_args[0]
            if exc:
                return [('only unknown groups are rejected', Not(old(cx).D.has(x)))]
            return [('known group', old(cx).D.has(x)), ('sum of the dimensions of the active variables', cx.ret == ISUM(cx.ghost('dims'), 0, vlen(old(cx).D, x)))]
        def dims(env):
            d = z3.Const('dims', AII)
            D = self.F(env.eng.read(env.st, env.this_lv)).D
            x = env.vs[0]
            env.st.assume(fa(lambda i: d[i] == If(ACT(varr(D, x)[i]), DIM(varr(D, x)[i]), 0), lambda i: d[i]))
            return d
        out.append(with_loop(con('getGroupDim', 1, dim, exc=('OutOfBoundException',), ghosts={'dims': dims}), DimLoop()))
        # indexing
        c = con('getGroupId', 3, self.gid(), exc=('OutOfBoundException',), modifies=[('arg', 1), ('arg', 2)], tag='getGroupId(idx)', ghosts={'target': lambda env: env.vs[0]})
        c.loop = SumLoop()
        out.append(c)
        def at(cx, exc):
            a = old(cx)
            i = cx.old_args[0]
            if exc:
                return [('only indices out of range are rejected', i >= a.L.size)]
            return [('index in range', i < a.L.size), ('a held variable', a.has(cx.ret)), ('numbered group by group in order', i == self.index_of(a, cx.ret, g))]
        for sg in ('CONST', 'NONCONST'):
            out.append(con('designVariableImplementation', 1, at, sg, exc=('OutOfBoundException',), tag='designVariable(%s)' % sg.lower()))
        return out

    def reorder(self):
        """setGroupsOrdering, permuteDesignVariables"""
        g, old, new, con = g0(), self.old, self.new, self.con
        rest = [x for x in self.F.parts if x not in ('D', 'O')]
        out = []
        def order(cx, exc):
            a = old(cx)
            o = cx.old_args[0]
            valid = And(o.n == a.O.n, fa(lambda j: Imp(And(0 <= j, j < o.n), a.D.has(o.a[j])), lambda j: o.a[j]), distinct(o))
            if exc:
                return [('only orders that do not list each group once are rejected', Not(valid))] + self.kept(cx)
            b = new(cx)
            n = o.n
            f = z3.Const(fname('f'), AII)
            cx.st.assume(fa(lambda i: f[i] == g.opos[o.a[i]], lambda i: [f[i], o.a[i]]))
            iv = pigeonhole(cx.st, f, n)
            W = z3.Const(fname('W'), AII)
            cx.st.assume(fa(lambda i: W[i] == vlen(a.D, o.a[i]), lambda i: [W[i], o.a[i]]))
            op = z3.Const(fname('opos'), AII)
            cx.st.assume(fa(lambda x: op[x] == iv[g.opos[x]], lambda x: op[x]))
            sum_perm(cx.st, g.W, W, f, iv, n)
            return [('a valid order', valid), ('the given order', eqv(b.O, o)), ('contents kept', self.same(cx, 'D', *rest))] + self.inv(b, g.but(opos=op, W=W))
        out.append(with_loop(con('setGroupsOrdering', 1, order, exc=('OutOfBoundException',), modifies=[FLD]), OrderLoop(self.F)))
        def permDV(cx, exc):
            a, (p, x) = old(cx), cx.old_args
            n = vlen(a.D, x)
            valid = And(a.D.has(x), p.n == n, fa(lambda y: Imp(And(0 <= y, y < p.n), And(0 <= p.a[y], p.a[y] < p.n)), lambda y: p.a[y]))
            if exc:
                return [('only unknown groups and invalid permutations are rejected', Not(valid))]
            b = new(cx)
            iv = pigeonhole(cx.st, p.a, p.n)
            ps = z3.Const(fname('pos'), AII)
            cx.st.assume(fa(lambda q: ps[q] == If(a.grp(q) == x, iv[g.pos[q]], g.pos[q]), lambda q: ps[q]))
            return [('a known group and a valid permutation', valid), ('the variable formerly at permutation[i] is at i', fa(lambda i: Imp(And(0 <= i, i < n), varr(b.D, x)[i] == varr(a.D, x)[p.a[i]]), lambda i: varr(b.D, x)[i])),
                    ('contents kept', self.same(cx, 'O', *rest))] + self.inv(b, g.but(pos=ps))
        out.append(con('permuteDesignVariables', 2, permDV, exc=('OutOfBoundException',), modifies=[FLD], pre=lambda cc: self.pre(cc) + [('distinct entries', distinct(cc.args[0]))]))
        return out

    def saving(self):
        old, new, con = self.old, self.new, self.con
        PG = {'params': params0}
        def save(cx, exc):
            a, b = old(cx), new(cx)
            P = cx.old_ghost('params')
            return [('every held variable is saved with its value', fa(lambda p: Imp(a.has(p), And(b.BK.has(p), b.BK.val[p] == P[p])))),
                    ('only held variables are saved', fa(lambda p: Imp(b.BK.has(p), b.has(p)))),
                    ('no variable is touched', cx.ghost('params') == P), ('contents kept', self.same(cx, *self.F.parts))]
        def restore(cx, exc):
            a, b = old(cx), new(cx)
            P, Q = cx.old_ghost('params'), cx.ghost('params')
            return [('saved variables get the saved value, the others are not touched', fa(lambda p: Q[p] == If(a.BK.has(p), a.BK.val[p], P[p]), lambda p: Q[p])),
                    ('saved values kept', And(fa(lambda p: a.BK.has(p) == b.BK.has(p)), fa(lambda p: Imp(a.BK.has(p), a.BK.val[p] == b.BK.val[p])))),
                    ('contents kept', self.same(cx, *self.F.parts))]
        return [with_loop(con('saveDesignVariables', 0, save, modifies=[FLD, ('ghost', 'params')], ghosts=PG), SaveLoop(self.F)),
                with_loop(con('restoreDesignVariables', 0, restore, modifies=[FLD, ('ghost', 'params')], ghosts=PG), RestoreLoop(self.F))]

    def backup_frame(self, c):
        """the same function, with the postcondition restricted to the saved values"""
        k = K(c.name, c.fn, exc=c.exc, setup=c.setup)
        k.__dict__.update({x: v for x, v in c.__dict__.items() if x not in ('_post', 'name')})
        def post(cx, exc):
            a, b = self.F(cx.old), self.F(cx.new).name(cx.st)
            if c.fn[0].endswith('::clear'):
                return [('nothing stays saved', fa(lambda p: Not(b.BK.has(p))))]
            inside = lambda p: b.has(p) if c.fn[0].endswith('::remove') else z3.BoolVal(True)
            return [('values saved for held variables are kept', And(fa(lambda p: b.BK.has(p) == And(a.BK.has(p), inside(p))), fa(lambda p: Imp(b.BK.has(p), b.BK.val[p] == a.BK.val[p])))),
                    ('no variable is touched', cx.ghost('params') == cx.old_ghost('params'))]
        k._post = post
        k.ghosts = dict(c.ghosts or {}, params=params0)
        return k


def distinct(p):
    return fa(lambda i, j: Imp(And(0 <= i, i < p.n, 0 <= j, j < p.n, p.a[i] == p.a[j]), i == j), lambda i, j: z3.MultiPattern(p.a[i], p.a[j]), n=2)


def numbering_lemmas():
    """the numbering of the variables (sum of the sizes of the groups before, plus the position) is a bijection onto [0, number of variables)"""
    g = G('any')
    mapd, mapv = z3.Const('D_dom', AIB), z3.Const('D_val', z3.ArraySort(I, sort_of(Ty('vec', PTR))))
    D = MapV(mapd, mapv, z3.Int('D_size'), T_INT, Ty('vec', PTR))
    O = VecV(z3.Int('O_n'), z3.Const('O_a', AII), T_INT)
    hd, gr = z3.Const('held', AIB), z3.Const('group', AII)
    v = View(None, lambda p: hd[p], lambda p: gr[p], z3.Int('size'), D, O)
    H = [f for _, f in store_inv(v, g)]
    p, q = z3.Ints('p q')
    num = lambda p: ISUM(g.W, 0, g.opos[gr[p]]) + g.pos[p]
    mono = lambda lo, hi: Imp(And(0 <= lo, lo <= hi, hi <= O.n), ISUM(g.W, 0, hi) >= ISUM(g.W, 0, lo))
    step = lambda x: ISUM(g.W, 0, g.opos[x] + 1) == ISUM(g.W, 0, g.opos[x]) + g.W[g.opos[x]]
    zero = ISUM(g.W, 0, 0) == 0
    return [Lemma('numbering/in range', H + [hd[p], zero, mono(0, g.opos[gr[p]]), mono(g.opos[gr[p]] + 1, O.n), step(gr[p])], And(0 <= num(p), num(p) < v.size)),
            Lemma('numbering/one number per variable', H + [hd[p], hd[q], num(p) == num(q), step(gr[p]), step(gr[q]), mono(g.opos[gr[p]] + 1, g.opos[gr[q]]), mono(g.opos[gr[q]] + 1, g.opos[gr[p]])], p == q)]
