from contracts.core import *
from vc.models import keypos

CODE = '''
#include <vector>
#include "$REPO/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp"
'''
CLS = 'IncrementalOptimizationProblem'

# ---------------------------------------------------------------- a batch, by the contracts of OptimizationProblem (discharged in C01)
BN = z3.Function('batch_numDesignVariables', I, I)
BDV = z3.Function('batch_designVariables', I, AII)
BPOS = z3.Function('batch_index_of', I, I, I)
BHAS = z3.Function('batch_holds', I, I, B)
BGRP = z3.Function('batch_group_of', I, I, I)
BEN = z3.Function('batch_numErrorTerms', I, I)
BEA = z3.Function('batch_errorTerms', I, AII)
BEPOS = z3.Function('batch_error_index_of', I, I, I)
BEHAS = z3.Function('batch_holds_error', I, I, B)
IND = z3.Function('batches_holding', AII, I, AII)       # per batch: 1 if it holds the variable
CNT = lambda a, n, d: ISUM(IND(a, d), 0, n)


def batch_axioms():
    b, d, i, e, k = z3.Ints('b d i e k')
    a = z3.Const('a', AII)
    return [z3.ForAll([b, i], Imp(And(0 <= i, i < BN(b)), And(BHAS(b, BDV(b)[i]), BPOS(b, BDV(b)[i]) == i, BDV(b)[i] != 0)), patterns=[BDV(b)[i]]),
            z3.ForAll([b, d], Imp(BHAS(b, d), And(0 <= BPOS(b, d), BPOS(b, d) < BN(b), BDV(b)[BPOS(b, d)] == d, BGRP(b, d) >= 0)), patterns=[BHAS(b, d)]),
            z3.ForAll([b, i], Imp(And(0 <= i, i < BEN(b)), And(BEHAS(b, BEA(b)[i]), BEPOS(b, BEA(b)[i]) == i, BEA(b)[i] != 0)), patterns=[BEA(b)[i]]),
            z3.ForAll([b, e], Imp(BEHAS(b, e), And(0 <= BEPOS(b, e), BEPOS(b, e) < BEN(b), BEA(b)[BEPOS(b, e)] == e)), patterns=[BEHAS(b, e)]),
            z3.ForAll([b], And(BN(b) >= 0), patterns=[BN(b)]), z3.ForAll([b], And(BEN(b) >= 0), patterns=[BEN(b)]),
            z3.ForAll([a, d, k], IND(a, d)[k] == If(BHAS(a[k], d), 1, 0), patterns=[IND(a, d)[k]])]


def batch():
    o = {}
    def add(c):
        for q in ('OptimizationProblem', 'OptimizationProblemBase'):
            o[(q + '::' + c.fn[0].split('::')[1], c.fn[1], None)] = c
    f = lambda m, n, r, **kw: add(pure('OptimizationProblem', m, n, r, **kw))
    f('numDesignVariables', 0, lambda cx, t: BN(cx.this_id))
    f('designVariable', 1, lambda cx, t: BDV(cx.this_id)[cx.args[0]], pre=lambda cc: [('index in range', And(0 <= cc.args[0], cc.args[0] < BN(cc.this_id)))])
    f('isDesignVariableInProblem', 1, lambda cx, t: BHAS(cx.this_id, cx.args[0]))
    f('getGroupId', 1, lambda cx, t: BGRP(cx.this_id, cx.args[0]), pre=lambda cc: [('variable of the batch', BHAS(cc.this_id, cc.args[0]))])
    f('numErrorTerms', 0, lambda cx, t: BEN(cx.this_id))
    f('errorTerm', 1, lambda cx, t: BEA(cx.this_id)[cx.args[0]], pre=lambda cc: [('index in range', And(0 <= cc.args[0], cc.args[0] < BEN(cc.this_id)))])
    f('isErrorTermInProblem', 1, lambda cx, t: BEHAS(cx.this_id, cx.args[0]))
    def ets(cx, t):
        root = ('tmp', 'ets', cx.this_id.sexpr())
        t.store[root] = VecV(BEN(cx.this_id), BEA(cx.this_id), PTR)
        return LV(root)
    f('getErrorTerms', 0, ets)
    return o


# ---------------------------------------------------------------- state
class F(Fields):
    parts = ('PB', 'L', 'D', 'O')
    def locate(self, o):
        return dict(L=find(o, lambda v: isinstance(v, MapV) and isptr(v.K) and v.V.k == 'pair', 'count and group of each variable'),
                    PB=find(o, lambda v: isinstance(v, VecV) and isptr(v.T), 'list of batches'))
    def grp(self, p):
        return self.L[p].second
    def cnt(self, p):
        return self.L[p].first


def inv(f, g):
    PB = f.PB
    EW = g.__dict__.get('EW', z3.Const('EW_old', AII))
    return store_inv(f.view(), g) + [
        ('batches exist', And(PB.n >= 0, fa(lambda k: Imp(And(0 <= k, k < PB.n), PB.a[k] != 0), lambda k: PB.a[k]))),
        ('held exactly as long as some batch holds it', fa(lambda d: f.has(d) == (CNT(PB.a, PB.n, d) > 0), lambda d: [f.has(d), IND(PB.a, d)])),
        ('counted once per batch', fa(lambda d: Imp(f.has(d), f.cnt(d) == CNT(PB.a, PB.n, d)), lambda d: f.has(d))),
        ('variables of the batches are held, in the group the batch gives', fa(lambda k, d: Imp(And(0 <= k, k < PB.n, BHAS(PB.a[k], d)), And(f.has(d), f.grp(d) == BGRP(PB.a[k], d))), lambda k, d: BHAS(PB.a[k], d), n=2)),
        ('no error term is in two batches', fa(lambda k, l, e: Imp(And(0 <= k, k < PB.n, 0 <= l, l < PB.n, BEHAS(PB.a[k], e), BEHAS(PB.a[l], e)), k == l), lambda k, l, e: z3.MultiPattern(BEHAS(PB.a[k], e), BEHAS(PB.a[l], e)), n=3)),
        ('ghost: error terms per batch', fa(lambda k: Imp(And(0 <= k, k < PB.n), EW[k] == BEN(PB.a[k])), lambda k: [EW[k], PB.a[k]])),
        ('only held variables are saved', fa(lambda p: Imp(f.BK.has(p), f.has(p)), lambda p: f.BK.has(p)))]


S = Shared(CLS, F, inv)
n_, pre, old, new, kept, con = S.n, S.pre, S.old, S.new, S.kept, S.con
EW0 = z3.Const('EW_old', AII)
THIS = LV(('obj', 'this'))


def cnt_positive(st, a, n):
    """lemma 'count-positive': a variable of some batch has a positive count, and no count is negative"""
    st.assume(fa(lambda d: CNT(a, n, d) >= 0, lambda d: IND(a, d)))
    st.assume(fa(lambda k, d: Imp(And(0 <= k, k < n, BHAS(a[k], d)), CNT(a, n, d) >= 1), lambda k, d: BHAS(a[k], d), n=2))


# ---------------------------------------------------------------- loops
class Known(Loop):
    """no batch visited so far holds the error term"""
    def cands(self, lc):
        out = []
        for (nm_, cur) in lc.cursors():
            out.append(('not in the batches so far', lambda t, cur=cur: fa(lambda k: Imp(And(0 <= k, k < cur(t)), Not(BEHAS(F(lc.eng.read(t, THIS)).PB.a[k], t.store[('ghost', 'arg')]))), lambda k: F(lc.eng.read(t, THIS)).PB.a[k])))
            for rp in lc.bools():
                B_ = lambda t: F(lc.eng.read(t, THIS)).PB.a
                out.append(('found: in one of the batches so far', lambda t, rp=rp, cur=cur, B_=B_: Imp(lc.get(t, rp), ex(lambda k: And(0 <= k, k < cur(t), BEHAS(B_(t)[k], t.store[('ghost', 'arg')]))))))
                out.append(('not found: in none of them', lambda t, rp=rp, cur=cur, B_=B_: Imp(Not(lc.get(t, rp)), fa(lambda k: Imp(And(0 <= k, k < cur(t)), Not(BEHAS(B_(t)[k], t.store[('ghost', 'arg')]))), lambda k: B_(t)[k]))))
        return out


def ghost_init(lc, EW=False):
    g = g0()
    for n in ('pos', 'opos', 'W'):
        lc.add_ghost(n, lc.entry.store.get(('ghost', n), getattr(g, n)))


def G_of(store):
    g = g0()
    for n in ('pos', 'opos', 'W', 'EW'):
        if ('ghost', n) in store:
            setattr(g, n, store[('ghost', n)])
    return g


def touches_object(lc):
    return any(rp[0] == ('obj', 'this') for rp in lc.mods)


class Mutating(Loop):
    """the storage is consistent after every variable of the batch"""
    def ghost_init(self, lc):
        if touches_object(lc):
            ghost_init(lc)

    def cursor(self, lc):
        cs = [c for n, c in lc.cursors()]
        return cs[0] if cs else None

    def rename(self, lc, t):
        """name the array terms of the fields"""
        o = lc.eng.read(t, THIS)
        f = F(o).name(t)
        for n, fn in f.names.items():
            if not same(getattr(f, n), o.f[fn]):
                lc.eng.write(t, THIS.sub(('f', fn)), getattr(f, n))
        return f

    def storage(self, lc):
        out = []
        for i, (nm_, _) in enumerate(store_inv(F(lc.eng.read(lc.entry, THIS)).view(), g0())):
            out.append((nm_, lambda t, i=i: store_inv(F(lc.eng.read(t, THIS)).view(), G_of(t.store))[i][1]))
        return out


class AddLoop(Mutating):
    def ghost_step(self, lc, t):
        cur = self.cursor(lc)
        if not touches_object(lc) or cur is None:
            return
        f = self.rename(lc, t)
        b = t.store[('ghost', 'arg')]
        dv = BDV(b)[cur(t) - 1]
        x = BGRP(b, dv)
        g = G_of(t.store)
        new_ = Not(F(lc.eng.read(lc.entry, THIS)).has(dv))
        t.store[('ghost', 'pos')] = nm(t, z3.Store(g.pos, dv, If(new_, vlen(f.D, x) - 1, g.pos[dv])), 'pos')
        op = nm(t, z3.Store(g.opos, x, If(And(new_, vlen(f.D, x) == 1), f.O.n - 1, g.opos[x])), 'opos')
        t.store[('ghost', 'opos')] = op
        W = nm(t, z3.Store(g.W, op[x], vlen(f.D, x)), 'W')
        t.store[('ghost', 'W')] = W
        n = f.O.n
        t.assume(ISUM(W, 0, n) == ISUM(g.W, 0, n) + If(And(0 <= op[x], op[x] < n), vlen(f.D, x) - g.W[op[x]], 0))
        t.assume(Imp(n >= 1, ISUM(g.W, 0, n) == ISUM(g.W, 0, n - 1) + g.W[n - 1]))

    def cands(self, lc):
        out = []
        e = lc.entry
        for (nm_, cur) in lc.cursors():
            f0 = F(lc.eng.read(e, THIS))
            b = e.store[('ghost', 'arg')]
            fq = lambda t: F(lc.eng.read(t, THIS))
            if touches_object(lc):
                pr = lambda t, d, cur=cur: And(BHAS(b, d), BPOS(b, d) < cur(t))
                out.append(('held: the former ones and those seen so far', lambda t, pr=pr: fa(lambda d: fq(t).has(d) == Or(f0.has(d), pr(t, d)), lambda d: [fq(t).has(d), f0.has(d)])))
                out.append(('counts', lambda t, pr=pr: fa(lambda d: Imp(fq(t).has(d), fq(t).cnt(d) == If(f0.has(d), f0.cnt(d), 0) + If(pr(t, d), 1, 0)), lambda d: [fq(t).has(d), fq(t).L.val[d]])))
                out.append(('groups', lambda t, pr=pr: fa(lambda d: Imp(fq(t).has(d), fq(t).grp(d) == If(f0.has(d), f0.grp(d), BGRP(b, d))), lambda d: [fq(t).has(d), fq(t).L.val[d]])))
            else:
                out.append(('grouping agrees so far', lambda t, cur=cur: fa(lambda j: Imp(And(0 <= j, j < cur(t), f0.has(BDV(b)[j])), f0.grp(BDV(b)[j]) == BGRP(b, BDV(b)[j])), lambda j: BDV(b)[j])))
                out.append(('error terms seen so far are new', lambda t, cur=cur: fa(lambda j, k: Imp(And(0 <= j, j < cur(t), 0 <= k, k < f0.PB.n), Not(BEHAS(f0.PB.a[k], BEA(b)[j]))), lambda j, k: z3.MultiPattern(BEA(b)[j], f0.PB.a[k]), n=2)))
        if touches_object(lc):
            out += self.storage(lc)
        return out


class RemoveLoop(Mutating):
    def ghost_step(self, lc, t):
        cur = self.cursor(lc)
        if not touches_object(lc) or cur is None:
            return
        f = self.rename(lc, t)
        b = t.store[('ghost', 'batch')]
        dv = BDV(b)[cur(t) - 1]
        x = BGRP(b, dv)
        g = G_of(t.store)
        gone = Not(f.has(dv))
        ggone = And(gone, Not(f.D.has(x)))
        r, s = g.pos[dv], g.opos[x]
        pos, op, W, E = [z3.Const(fname(q), AII) for q in ('pos', 'opos', 'W', 'E')]
        t.assume(fa(lambda q: pos[q] == If(And(gone, f.has(q), f.grp(q) == x, g.pos[q] > r), g.pos[q] - 1, g.pos[q]), lambda q: pos[q]))
        t.assume(fa(lambda y: op[y] == If(And(ggone, g.opos[y] > s), g.opos[y] - 1, g.opos[y]), lambda y: op[y]))
        n = f.O.n
        t.assume(fa(lambda j: E[j] == If(j < s, g.W[j], g.W[j + 1]), lambda j: E[j]))
        sum_erased(t, g.W, E, s, z3.simplify(n + 1))
        U = nm(t, z3.Store(g.W, s, g.W[s] - 1), 'U')
        t.assume(ISUM(U, 0, n) == ISUM(g.W, 0, n) + If(And(0 <= s, s < n), -1, 0))
        t.assume(W == If(ggone, E, If(gone, U, g.W)))
        t.assume(And(Imp(ggone, ISUM(W, 0, n) == ISUM(E, 0, n)), Imp(And(gone, Not(ggone)), ISUM(W, 0, n) == ISUM(U, 0, n)), Imp(Not(gone), ISUM(W, 0, n) == ISUM(g.W, 0, n))))
        t.store[('ghost', 'pos')], t.store[('ghost', 'opos')], t.store[('ghost', 'W')] = pos, op, W

    def cands(self, lc):
        out = []
        e = lc.entry
        f0 = F(lc.eng.read(e, THIS))
        b = e.store[('ghost', 'batch')]
        fq = lambda t: F(lc.eng.read(t, THIS))
        for (nm_, cur) in lc.cursors():
            pr = lambda t, d, cur=cur: And(BHAS(b, d), BPOS(b, d) < cur(t))
            left = lambda t, d, pr=pr: f0.cnt(d) - If(pr(t, d), 1, 0)
            out.append(('held while counted', lambda t, left=left: fa(lambda d: fq(t).has(d) == And(f0.has(d), left(t, d) > 0), lambda d: [fq(t).has(d), f0.has(d)])))
            out.append(('counts', lambda t, left=left: fa(lambda d: Imp(fq(t).has(d), fq(t).cnt(d) == left(t, d)), lambda d: [fq(t).has(d), fq(t).L.val[d]])))
            out.append(('groups', lambda t: fa(lambda d: Imp(fq(t).has(d), fq(t).grp(d) == f0.grp(d)), lambda d: [fq(t).has(d), fq(t).L.val[d]])))
            out.append(('saved values of the held variables are kept', lambda t: And(fa(lambda d: fq(t).BK.has(d) == And(f0.BK.has(d), fq(t).has(d)), lambda d: fq(t).BK.has(d)), fa(lambda d: Imp(fq(t).BK.has(d), fq(t).BK.val[d] == f0.BK.val[d]), lambda d: fq(t).BK.has(d)))))
        return out + self.storage(lc)


class BatchSum(Loop):
    """error terms of the batches visited so far"""
    def cands(self, lc):
        out = []
        for (nm_, cur) in lc.cursors():
            for rp in lc.ints():
                out.append(('error terms so far', lambda t, rp=rp, cur=cur: lc.get(t, rp) == ISUM(EW0, 0, cur(t))))
            tg = lc.entry.store.get(('ghost', 'target'))
            if tg is not None:
                out.append(('not yet reached', lambda t, cur=cur: ISUM(EW0, 0, cur(t)) <= tg))
        for rp in lc.bools():
            out.append(('not found so far', lambda t, rp=rp: Not(lc.get(t, rp))))
        return out


def pair_iter(env):
    """the iterator argument: any position of this object's list of batches, the end included"""
    f = F(env.eng.read(env.st, env.this_lv))
    k = z3.Int('it.position')
    lv = env.this_lv.sub(('f', f.names['PB']))
    env.st.assume(And(0 <= k, k <= f.PB.n))
    it = It(lv, k, 'vec')
    if isinstance(env.vs[0], LV):
        env.st.store[env.vs[0].root] = it
    else:
        env.vs[0] = it


def contracts():
    g = g0()
    out = []
    E = ('NullPointerException', 'InvalidOperationException', 'OutOfBoundException')
    OB = ('OutOfBoundException',)

    def empty(cx, exc=None):
        f = new(cx)
        for d in (0,):
            cx.st.assume(fa(lambda d: CNT(f.PB.a, 0, d) == 0, lambda d: IND(f.PB.a, d)))
        return [('no batch', f.PB.n == 0), ('no variable', fa(lambda p: Not(f.has(p)))), ('no group', And(fa(lambda x: Not(f.D.has(x))), f.O.n == 0)), ('counts are zero', And(f.L.size == 0, f.D.size == 0))] + inv(f, g)
    out.append(K(n_('ctor'), (n_(CLS), 0), post=empty))
    out.append(con('clear', 0, empty, modifies=[FLD]))
    out += S.queries()

    one = lambda nm_, f: (lambda cx, exc: [(nm_, f(cx, old(cx)))])
    out.append(con('getNumOptimizationProblems', 0, one('number of batches', lambda cx, a: cx.ret == a.PB.n)))
    out.append(con('getOptimizationProblems', 0, one('the batches', lambda cx, a: eqv(cx.ret, a.PB))))
    def known(cx, exc):
        a, e = old(cx), cx.old_args[0]
        w = z3.Int(fname('k'))
        inb = ex(lambda k: And(0 <= k, k < a.PB.n, BEHAS(a.PB.a[k], e)))
        return [('in some batch', Imp(cx.ret, inb)), ('in no batch', Imp(Not(cx.ret), fa(lambda k: Imp(And(0 <= k, k < a.PB.n), Not(BEHAS(a.PB.a[k], e))), lambda k: a.PB.a[k])))]
    kn = con('isErrorTermInProblem', 1, known, ghosts={'arg': lambda env: env.vs[0]})
    kn.loop = Known()
    out.append(kn)

    def add(cx, exc):
        b = cx.old_args[0]
        a = old(cx)
        PB = a.PB
        agree = fa(lambda d: Imp(And(BHAS(b, d), a.has(d)), a.grp(d) == BGRP(b, d)), lambda d: BHAS(b, d))
        fresh = fa(lambda e, k: Imp(And(0 <= k, k < PB.n, BEHAS(b, e)), Not(BEHAS(PB.a[k], e))), lambda e, k: z3.MultiPattern(BEHAS(b, e), PB.a[k]), n=2)
        if exc:
            return [('only null, known or contradicting batches are rejected', Or(b == 0, Not(agree), Not(fresh)))] + kept(cx)
        f = new(cx)
        gg = G_of(cx.new_store)
        gg.EW = nm(cx.st, z3.Store(EW0, PB.n, BEN(b)), 'EW')
        # counts over one more batch (lemma 'count-appended')
        cx.st.assume(Imp(And(f.PB.a[PB.n] == b, fa(lambda k: Imp(And(0 <= k, k < PB.n), f.PB.a[k] == PB.a[k]), lambda k: f.PB.a[k])),
                         fa(lambda d: CNT(f.PB.a, PB.n + 1, d) == CNT(PB.a, PB.n, d) + If(BHAS(b, d), 1, 0), lambda d: [IND(f.PB.a, d), IND(PB.a, d)])))
        cnt_positive(cx.st, PB.a, PB.n)
        return [('only new, consistent batches are accepted', And(b != 0, agree, fresh)), ('the batch is the last one, the others stay', And(f.PB.n == PB.n + 1, f.PB.a[PB.n] == b, fa(lambda k: Imp(And(0 <= k, k < PB.n), f.PB.a[k] == PB.a[k]), lambda k: f.PB.a[k])))] + inv(f, gg)
    c = con('add', 1, add, exc=E[:2], modifies=[FLD], ghosts={'arg': lambda env: env.eng.read(env.st, env.vs[0])})
    c.loop = AddLoop()
    out.append(c)

    def removed(cx, k, exc, cond):
        a = old(cx)
        if exc:
            return [('only positions outside the list are rejected', cond)] + kept(cx)
        f = new(cx)
        gg = G_of(cx.new_store)
        PB, n = a.PB, a.PB.n
        EWn = z3.Const(fname('EW'), AII)
        cx.st.assume(fa(lambda j: EWn[j] == If(j < k, EW0[j], EW0[j + 1]), lambda j: EWn[j]))
        gg.EW = EWn
        b = PB.a[k]
        cnt_erased(cx.st, PB, f.PB, k)
        cnt_positive(cx.st, f.PB.a, f.PB.n)
        return [('a position in the list', Not(cond)), ('the other batches stay, in order', And(f.PB.n == n - 1, fa(lambda j: Imp(And(0 <= j, j < n - 1), f.PB.a[j] == PB.a[If(j < k, j, j + 1)]), lambda j: f.PB.a[j])))] + inv(f, gg)
    # positions: iterators and indices
    itpos = lambda cx: cx.old_args[0].idx
    argpos = lambda cx: cx.old_args[0]
    def first(env):
        """the first position of the given batch in the list, the length of the list if it is not inside"""
        f = F(env.eng.read(env.st, env.this_lv))
        k, p = z3.Int('k.first'), env.eng.read(env.st, env.vs[0])
        env.st.assume(And(0 <= k, k <= f.PB.n, fa(lambda j: Imp(And(0 <= j, j < k), f.PB.a[j] != p), lambda j: f.PB.a[j]), Imp(k < f.PB.n, f.PB.a[k] == p)))
        return k
    batch_at = lambda pos: (lambda env: F(env.eng.read(env.st, env.this_lv)).PB.a[pos(env)])
    def remover(pos, batch, sig, tag, exc, **kw):
        c = con('remove', 1, lambda cx, exc: removed(cx, pos(cx), exc, pos(cx) >= old(cx).PB.n), sig, exc=exc, modifies=[FLD], tag=tag, pre=lambda cc: pre(cc) + cnt_pos_pre(cc), ghosts=dict(kw.pop('ghosts', {}), batch=batch), **kw)
        c.loop = RemoveLoop()
        return c
    out.append(remover(itpos, batch_at(lambda env: z3.Int('it.position')), is_it, 'remove(iterator)', OB, setup=pair_iter))
    out.append(remover(argpos, batch_at(lambda env: env.vs[0]), is_idx, 'remove(index)', OB))
    out.append(remover(lambda cx: cx.ghost('k'), lambda env: env.eng.read(env.st, env.vs[0]), is_sp, 'remove(batch)', E[1:2], ghosts={'k': first}))

    def at(pos):
        def post(cx, exc):
            a, k = old(cx), pos(cx)
            if exc:
                return [('only positions outside the list are rejected', k >= a.PB.n)]
            return [('a position in the list', k < a.PB.n), ('the batch at that position', cx.ret == a.PB.a[k])]
        return post
    cst, ncst = (lambda q: q.rstrip().endswith('const')), (lambda q: not q.rstrip().endswith('const'))
    out.append(con('getOptimizationProblem', 1, at(itpos), is_cit, exc=OB, setup=pair_iter, tag='getOptimizationProblem(iterator) const'))
    out.append(con('getOptimizationProblem', 1, at(itpos), is_it, exc=OB, setup=pair_iter, tag='getOptimizationProblem(iterator)'))
    out.append(con('getOptimizationProblem', 1, at(argpos), lambda q: is_idx(q) and cst(q), exc=OB, tag='getOptimizationProblem(index) const'))
    out.append(con('getOptimizationProblem', 1, at(argpos), lambda q: is_idx(q) and ncst(q), exc=OB, tag='getOptimizationProblem(index)'))
    isit = lambda cx, k: And(z3.BoolVal(isinstance(cx.ret, It) and cx.ret.lv.path[-1][1] == old(cx).names['PB']), cx.ret.idx == k)
    out.append(con('getOptimizationProblem', 1, one('position of the batch, the end if it is not inside', lambda cx, a: isit(cx, cx.ghost('k'))), is_sp, ghosts={'k': first}, tag='getOptimizationProblem(batch)'))
    out.append(con('getOptimizationProblemBegin', 0, one('first position', lambda cx, a: isit(cx, 0))))
    out.append(con('getOptimizationProblemEnd', 0, one('behind the last position', lambda cx, a: isit(cx, a.PB.n))))

    # error terms, batch by batch
    def ets(cx, exc):
        a, k = old(cx), cx.old_args[0]
        if exc:
            return [('only positions outside the list are rejected', k >= a.PB.n)]
        b = a.PB.a[k]
        return [('a position in the list', k < a.PB.n), ('the error terms of that batch', And(cx.ret.n == BEN(b), fa(lambda j: Imp(And(0 <= j, j < BEN(b)), cx.ret.a[j] == BEA(b)[j]))))]
    out.append(con('getErrorTerms', 1, ets, exc=OB))
    c = con('numErrorTermsImplementation', 0, one('sum over the batches', lambda cx, a: cx.ret == ISUM(EW0, 0, a.PB.n)))
    c.loop = BatchSum()
    out.append(c)
    c = con('getErrorIdx', 3, error_index, exc=OB, modifies=[('arg', 1), ('arg', 2)], ghosts={'target': lambda env: env.vs[0]})
    c.loop = BatchSum()
    out.append(c)
    def et(cx, exc):
        a, i = old(cx), cx.old_args[0]
        if exc:
            return [('only indices out of range are rejected', i >= ISUM(EW0, 0, a.PB.n))]
        if ('ghost', 'eb') not in cx.new_store:
            raise Unsupported('error term without its batch')
        b = cx.new_store[('ghost', 'eb')]
        return [('in a batch', And(0 <= b, b < a.PB.n)), ('an error term of that batch', BEHAS(a.PB.a[b], cx.ret)), ('numbered batch by batch', i == ISUM(EW0, 0, b) + BEPOS(a.PB.a[b], cx.ret))]
    for sg in ('CONST', 'NONCONST'):
        out.append(con('errorTermImplementation', 1, et, sg, exc=OB, tag='errorTerm(%s)' % sg.lower()))
    out.append(con('getErrorsImplementation', 2, lambda cx, exc: [('always rejected', z3.BoolVal(exc is not None))] + kept(cx), exc=E[1:2]))

    def perm(cx, exc):
        a, p = old(cx), cx.old_args[0]
        valid = And(p.n == a.PB.n, fa(lambda y: Imp(And(0 <= y, y < p.n), And(0 <= p.a[y], p.a[y] < p.n)), lambda y: p.a[y]))
        if exc:
            return [('only invalid permutations are rejected', Not(valid))]
        f = new(cx)
        iv = pigeonhole(cx.st, p.a, p.n)
        EWn = z3.Const(fname('EW'), AII)
        cx.st.assume(fa(lambda i: EWn[i] == EW0[p.a[i]], lambda i: [EWn[i], p.a[i]]))
        gg = g.but(EW=EWn)
        n = a.PB.n
        # lemma 'sum-rearranged' for the indicator arrays, for every variable
        cx.st.assume(Imp(And(fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= p.a[i], p.a[i] < n, iv[p.a[i]] == i, f.PB.a[i] == a.PB.a[p.a[i]])), lambda i: p.a[i]),
                             fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= iv[i], iv[i] < n, p.a[iv[i]] == i)), lambda i: iv[i])),
                         fa(lambda d: CNT(f.PB.a, n, d) == CNT(a.PB.a, n, d), lambda d: [IND(f.PB.a, d), IND(a.PB.a, d)])))
        return [('a valid permutation', valid), ('the batch formerly at permutation[i] is at i', And(f.PB.n == n, fa(lambda i: Imp(And(0 <= i, i < n), f.PB.a[i] == a.PB.a[p.a[i]]), lambda i: f.PB.a[i]))),
                ('contents kept', S.same(cx, 'L', 'D', 'O'))] + inv(f, gg)
    out.append(con('permuteOptimizationProblems', 1, perm, exc=OB, modifies=[FLD], pre=lambda cc: pre(cc) + [('distinct entries', distinct(cc.args[0]))]))
    out += S.reorder()
    return out


is_it = lambda q: 'ProblemsSPIt' in q.split('(')[-1]
is_cit = lambda q: 'ProblemsSPCIt' in q.split('(')[-1]
is_idx = lambda q: 'size_t' in q.split('(')[-1] or 'unsigned long' in q.split('(')[-1]
is_sp = lambda q: not is_it(q) and not is_cit(q) and not is_idx(q)


def error_index(cx, exc):
    a, i = old(cx), cx.old_args[0]
    total = ISUM(EW0, 0, a.PB.n)
    if exc:
        return [('only indices out of range are rejected', i >= total)]
    b, k = cx.new_args[1], cx.new_args[2]
    return [('a batch', And(0 <= b, b < a.PB.n)), ('position in the batch', And(0 <= k, k < BEN(a.PB.a[b]))), ('numbered batch by batch', i == ISUM(EW0, 0, b) + k)]


def error_index_modular():
    """getErrorIdx by the contract discharged on its body; remembers the batch"""
    def post(cx, exc):
        if not exc:
            cx.st.store[('ghost', 'eb')] = cx.new_args[1]
        return error_index(cx, exc)
    c = K(n_('getErrorIdx'), (n_('getErrorIdx'), 3), pre=lambda cc: [('index', cc.args[0] >= 0)] + pre(cc), post=post, exc=('OutOfBoundException',), modifies=[('arg', 1), ('arg', 2)])
    c.modular = True
    return c


def cnt_pos_pre(cc):
    f = F(cc.old)
    cnt_positive(cc.st, f.PB.a, f.PB.n)
    return []


def cnt_erased(st, P0, P1, k):
    """lemma 'sum-erased' for the indicator arrays, for every variable"""
    st.assume(Imp(And(0 <= k, k < P0.n, fa(lambda j: Imp(And(0 <= j, j < P0.n - 1), P1.a[j] == P0.a[If(j < k, j, j + 1)]), lambda j: P1.a[j])),
                  fa(lambda d: CNT(P1.a, P0.n - 1, d) == CNT(P0.a, P0.n, d) - If(BHAS(P0.a[k], d), 1, 0), lambda d: [IND(P1.a, d), IND(P0.a, d)])))


NOSUM = (n_('add'), n_('remove(iterator)'), n_('remove(index)'), n_('remove(batch)'))


def known_modular(cs):
    kn = [x for x in cs if x.name == n_('isErrorTermInProblem')][0]
    k = K(kn.name, kn.fn, post=kn._post, pre=kn._pre)
    k.modular = True
    return k


class P(Property):
    id = 'C02'
    units = {'u': dict(code=CODE)}
    harness = Harness('C02.cpp', ['$REPO/incremental_calibration/src/core/OptimizationProblem.cpp', '$REPO/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], quick=5, thorough=90, san=True)
    assumptions = ['the batches (OptimizationProblem) are used by their contracts, whose bodies C01 discharges; a batch is not edited while it is inside the merged problem, and its design variables and error terms are not null',
                   'aslam_backend is not installed: its DesignVariable, ErrorTerm and OptimizationProblemBase are stand-ins with the documented interface (/verif/stubs)',
                   'permutations passed to permuteDesignVariables and permuteOptimizationProblems have distinct entries (the precondition of permute, whose contract C05 discharges on its body)']
    def tasks(self, U):
        cs = contracts()
        M = dict(backend())
        M.update(batch())
        M[('permute', 2, None)] = permute_modular()
        by = {c.name: c for c in cs}
        ts = []
        for c in cs:
            m = dict(M)
            if c.fn[0].endswith('designVariableImplementation'):
                m[(n_('getGroupId'), 3, None)] = S.gid_modular()
            if c.fn[0].endswith('errorTermImplementation'):
                m[(n_('getErrorIdx'), 3, None)] = error_index_modular()
            if c.name == n_('add'):
                m[(n_('isErrorTermInProblem'), 1, None)] = known_modular(cs)
            ts.append(Task('u', c, contracts=m, axioms=uses_axioms() + batch_axioms(), opts=dict(nosum=True) if c.name in NOSUM else {}))
        return ts
    def lemmas(self):
        w, v = z3.Consts('w v', AII)
        n, k, p = z3.Ints('n k p')
        unf = lambda x, h: If(h <= 0, ISUM(x, 0, h) == 0, ISUM(x, 0, h) == ISUM(x, 0, h - 1) + x[h - 1])
        ind = fa(lambda i: And(w[i] >= 0, w[i] <= 1), lambda i: w[i])
        mono = lambda lo, hi: ISUM(w, 0, hi) >= ISUM(w, 0, lo)
        some = lambda n: Imp(ISUM(w, 0, n) > 0, ex(lambda i: And(0 <= i, i < n, w[i] == 1)))
        L = [Lemma('count-positive', [ind, 0 <= k, k < n, w[k] == 1, mono(k + 1, n), mono(0, k), unf(w, 0 * n), unf(w, k + 1)], ISUM(w, 0, n) >= 1),
             Lemma('count-positive/no count is negative', [0 <= n, mono(0, n), unf(w, 0 * n)], ISUM(w, 0, n) >= 0),
             Lemma('counted variables are in a batch/base', [unf(w, 0 * n)], some(z3.IntVal(0))),
             Lemma('counted variables are in a batch/step', [ind, 0 <= n, some(n), unf(w, n + 1)], some(n + 1)),
             Lemma('count-appended', [0 <= n, fa(lambda i: Imp(And(0 <= i, i < n), v[i] == w[i])), ISUM(v, 0, n) == ISUM(w, 0, n), unf(v, n + 1)], ISUM(v, 0, n + 1) == ISUM(w, 0, n) + v[n])]
        # the numbering of the error terms, batch by batch, is one to one and onto [0, number of error terms)
        b, c, i, j, N = z3.Ints('b c i j N')
        pos = fa(lambda i: w[i] >= 0, lambda i: w[i])
        num = lambda b, i: ISUM(w, 0, b) + i
        inb = lambda b, i: And(0 <= b, b < N, 0 <= i, i < w[b])
        st = lambda b: ISUM(w, 0, b + 1) == ISUM(w, 0, b) + w[b]
        m2 = lambda lo, hi: Imp(And(0 <= lo, lo <= hi, hi <= N), mono(lo, hi))
        L += [Lemma('error terms numbered/in range', [pos, inb(b, i), st(b), m2(0, b), m2(b + 1, N), ISUM(w, 0, 0) == 0], And(0 <= num(b, i), num(b, i) < ISUM(w, 0, N))),
              Lemma('error terms numbered/one number each', [pos, inb(b, i), inb(c, j), num(b, i) == num(c, j), st(b), st(c), m2(b + 1, c), m2(c + 1, b)], And(b == c, i == j))]
        return lemmas() + numbering_lemmas() + L


PROPERTY = P()
