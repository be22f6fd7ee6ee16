from contracts.core import *

CODE = '''
#include <vector>
#include "$REPO/incremental_calibration/src/core/OptimizationProblem.cpp"
'''
CLS = 'OptimizationProblem'


class F(Fields):
    parts = ('L', 'D', 'E', 'ET', 'O')
    def locate(self, o):
        return dict(L=find(o, lambda v: isinstance(v, MapV) and isptr(v.K) and v.V.k == 'int', 'group of each variable'),
                    E=find(o, lambda v: isinstance(v, SetV) and isptr(v.K), 'set of error terms'),
                    ET=find(o, lambda v: isinstance(v, VecV) and isptr(v.T), 'list of error terms'))
    def grp(self, p):
        return self.L.val[p]


def inv(f, g):
    E, ET = f.E, f.ET
    return store_inv(f.view(), g) + [
        ('every held error term is listed', fa(lambda e: Imp(E.has(e), And(e != 0, 0 <= g.epos[e], g.epos[e] < ET.n, ET.a[g.epos[e]] == e)), lambda e: E.has(e))),
        ('every listed error term is held, once', fa(lambda i: Imp(And(0 <= i, i < ET.n), And(E.has(ET.a[i]), g.epos[ET.a[i]] == i)), lambda i: ET.a[i])),
        ('as many error terms as listed', And(E.size == ET.n, ET.n >= 0)),
        ('error terms refer to held variables only', fa(lambda e, i: Imp(And(E.has(e), 0 <= i, i < NDV(e)), f.L.has(DVA(e)[i])), lambda e, i: z3.MultiPattern(E.has(e), DVA(e)[i]), n=2)),
        ('only held variables are saved', fa(lambda p: Imp(f.BK.has(p), f.L.has(p)), lambda p: f.BK.has(p)))]


S = Shared(CLS, F, inv)
n_, pre, old, new, kept, con = S.n, S.pre, S.old, S.new, S.kept, S.con


# ---------------------------------------------------------------- loops
class DVLoop(Loop):
    """every variable of the error term seen so far is held"""
    def cands(self, lc):
        out = []
        for (nm_, cur) in lc.cursors():
            def q(t, cur=cur):
                f = F(lc.eng.read(t, LV(('obj', 'this'))))
                e = t.store[('ghost', 'arg')]
                return fa(lambda j: Imp(And(0 <= j, j < cur(t)), f.L.has(DVA(e)[j])), lambda j: DVA(e)[j])
            out.append(('variables seen so far are held', q))
        return out


class ErrLoop(Loop):
    """the set collected so far"""
    def cands(self, lc):
        out = []
        g = g0()
        for rp in lc.vars(lambda v: isinstance(v, SetV)):
            for (nm_, cur) in lc.cursors():
                def q(t, rp=rp, cur=cur):
                    f = F(lc.eng.read(t, LV(('obj', 'this'))))
                    o = lc.get(lc.entry, rp)
                    d = t.store[('ghost', 'arg')]
                    return fa(lambda e: lc.get(t, rp).has(e) == Or(o.has(e), And(f.E.has(e), g.epos[e] < cur(t), USES(e, d))), lambda e: [lc.get(t, rp).has(e), USES(e, d)])
                out.append(('collected so far', q))
        return out


def arg_ghost(i=0):
    return {'arg': lambda env: env.eng.read(env.st, env.vs[i]), 'params': params0}


# ---------------------------------------------------------------- contracts
def contracts():
    g = g0()
    out = []
    PG = {'params': params0}

    # construction and clearing
    def empty(cx, exc=None):
        f = new(cx)
        zero = f.L.size == 0
        return [('no variable', fa(lambda p: Not(f.L.has(p)))), ('no group', And(fa(lambda x: Not(f.D.has(x))), f.O.n == 0)), ('no error term', And(fa(lambda e: Not(f.E.has(e))), f.ET.n == 0)), ('counts are zero', And(zero, f.E.size == 0, f.D.size == 0))] + inv(f, g)
    out.append(K(n_('ctor'), (n_(CLS), 0), post=empty))
    out.append(con('clear', 0, empty, modifies=[FLD]))

    # adding a design variable
    def addDV(cx, exc):
        p, x = cx.old_args
        a = old(cx)
        if exc:
            return [('only null or held variables are rejected', Or(p == 0, a.L.has(p)))] + kept(cx)
        b = new(cx)
        was = a.D.has(x)
        n0 = If(was, vlen(a.D, x), 0)
        pos = nm(cx.st, z3.Store(g.pos, p, n0), 'pos')
        op = nm(cx.st, If(was, g.opos, z3.Store(g.opos, x, a.O.n)), 'opos')
        W = If(was, z3.Store(g.W, g.opos[x], n0 + 1), z3.Store(g.W, a.O.n, 1))
        for s in (z3.Store(g.W, g.opos[x], n0 + 1), z3.Store(g.W, a.O.n, 1)):
            for h in (a.O.n, a.O.n + 1):
                cx.st.assume(ISUM(s, 0, h) == ISUM(s, 0, h))
        Wn = nm(cx.st, W, 'W')
        cx.st.assume(And(Imp(was, ISUM(Wn, 0, a.O.n) == ISUM(z3.Store(g.W, g.opos[x], n0 + 1), 0, a.O.n)), Imp(Not(was), ISUM(Wn, 0, a.O.n + 1) == ISUM(z3.Store(g.W, a.O.n, 1), 0, a.O.n + 1))))
        r = [('only new variables are accepted', And(p != 0, Not(a.L.has(p)))),
             ('held afterwards: the old ones and the new one', fa(lambda q: b.L.has(q) == Or(a.L.has(q), q == p))),
             ('in the given group, the others in theirs', fa(lambda q: Imp(b.L.has(q), b.L.val[q] == If(q == p, x, a.L.val[q])))),
             ('one more', b.L.size == a.L.size + 1), ('error terms kept', And(eqv(a.E, b.E), eqv(a.ET, b.ET)))]
        return r + inv(b, g.but(pos=pos, opos=op, W=Wn))
    out.append(con('addDesignVariable', 2, addDV, exc=('NullPointerException', 'InvalidOperationException'), modifies=[FLD]))

    # adding an error term
    def addET(cx, exc):
        e = cx.old_args[0]
        a = old(cx)
        ok = fa(lambda j: Imp(And(0 <= j, j < NDV(e)), a.L.has(DVA(e)[j])), lambda j: DVA(e)[j])
        if exc:
            return [('only null, held or dangling error terms are rejected', Or(e == 0, a.E.has(e), Not(ok)))] + kept(cx)
        b = new(cx)
        return [('only new error terms are accepted', And(e != 0, Not(a.E.has(e)))), ('of held variables', ok),
                ('held afterwards: the old ones and the new one', fa(lambda q: b.E.has(q) == Or(a.E.has(q), q == e))), ('one more', b.E.size == a.E.size + 1),
                ('variables kept', And(eqv(a.L, b.L), eqv(a.D, b.D), eqv(a.O, b.O)))] + inv(b, g.but(epos=nm(cx.st, z3.Store(g.epos, e, a.ET.n), 'epos')))
    out.append(with_loop(con('addErrorTerm', 1, addET, exc=('NullPointerException', 'InvalidOperationException'), modifies=[FLD], ghosts=arg_ghost()), DVLoop()))

    out += S.queries()
    out.append(con('isErrorTermInProblem', 1, lambda cx, exc: [('held', cx.ret == old(cx).E.has(cx.old_args[0]))]))
    out.append(con('numErrorTermsImplementation', 0, lambda cx, exc: [('number of error terms', cx.ret == old(cx).ET.n)]))
    out.append(con('getErrorTerms', 0, lambda cx, exc: [('the error terms', eqv(cx.ret, old(cx).ET))]))
    def et(cx, exc):
        a = old(cx)
        i = cx.old_args[0]
        if exc:
            return [('only indices out of range are rejected', i >= a.ET.n)]
        return [('index in range', i < a.ET.n), ('the error term at the index', cx.ret == a.ET.a[i])]
    for sg in ('CONST', 'NONCONST'):
        out.append(con('errorTermImplementation', 1, et, sg, exc=('OutOfBoundException',), tag='errorTerm(%s)' % sg.lower()))
    def errs(cx, exc):
        a = old(cx)
        d, o = cx.old_args
        n = cx.new_args[1]
        return [('exactly the error terms of the variable are added', fa(lambda e: n.has(e) == Or(o.has(e), And(a.E.has(e), USES(e, d)))))]
    out.append(with_loop(con('getErrorsImplementation', 2, errs, modifies=[('arg', 1)], ghosts=arg_ghost()), ErrLoop()))

    out += S.reorder()
    # permutations
    def permET(cx, exc):
        a, p = old(cx), cx.old_args[0]
        valid = And(p.n == a.ET.n, fa(lambda x: Imp(And(0 <= x, x < p.n), And(0 <= p.a[x], p.a[x] < p.n)), lambda x: p.a[x]))
        if exc:
            return [('only invalid permutations are rejected', Not(valid))]
        b = new(cx)
        iv = pigeonhole(cx.st, p.a, p.n)
        ep = z3.Const(fname('epos'), AII)
        cx.st.assume(fa(lambda e: ep[e] == iv[g.epos[e]], lambda e: ep[e]))
        return [('a valid permutation', valid), ('the error term formerly at permutation[i] is at i', And(b.ET.n == a.ET.n, fa(lambda i: Imp(And(0 <= i, i < a.ET.n), b.ET.a[i] == a.ET.a[p.a[i]]), lambda i: b.ET.a[i]))),
                ('contents kept', And(eqv(a.L, b.L), eqv(a.D, b.D), eqv(a.E, b.E), eqv(a.O, b.O)))] + inv(b, g.but(epos=ep))
    out.append(con('permuteErrorTerms', 1, permET, exc=('OutOfBoundException',), modifies=[FLD], pre=lambda cc: pre(cc) + [('distinct entries', distinct(cc.args[0]))]))
    return out, S.gid_modular()


class P(Property):
    id = 'C01'
    units = {'u': dict(code=CODE)}
    harness = Harness('C01.cpp', ['$REPO/incremental_calibration/src/core/OptimizationProblem.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], quick=4, thorough=60, san=True)
    assumptions = ['aslam_backend is not installed: its DesignVariable, ErrorTerm and OptimizationProblemBase are stand-ins with the documented interface (/verif/stubs); the design variables and dimensions of an error term or variable do not change while the problem holds it',
                   'permutations passed to permuteDesignVariables and permuteErrorTerms have distinct entries (the precondition of permute)', 'capacity limits and allocation failure are not modelled; permute is used by the contract that C05 discharges on its body']
    def tasks(self, U):
        cs, gm = contracts()
        pm = permute_modular()
        M = dict(backend())
        M[('permute', 2, None)] = pm
        ts = []
        for c in cs:
            m = dict(M)
            if c.fn[0].endswith('designVariableImplementation'):
                m[(n_('getGroupId'), 3, None)] = gm
            ts.append(Task('u', c, contracts=m, axioms=uses_axioms()))
        return ts
    def lemmas(self):
        return lemmas() + numbering_lemmas()


PROPERTY = P()
