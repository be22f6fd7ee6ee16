"""Polynomial-identity back end: a goal that is a conjunction of equalities between real terms is decided by ideal
membership over the equality hypotheses (Groebner basis, sympy), with every non-arithmetic term an indeterminate.
Runs in a separate process under a time limit."""
import json, subprocess, sys, os
from fractions import Fraction
import z3

R = z3.RealSort()


class NotPoly(Exception):
    pass


class Conv:
    """z3 real term -> polynomial {monomial (sorted tuple of (atom, power)): Fraction}"""
    def __init__(self):
        self.atoms, self.terms, self.inv, self.memo, self.apps = {}, [], {}, {}, {}

    def atom(self, t):
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(c.sort() == R for c in t.children()):
            # equal arguments (as polynomials) give the same indeterminate
            key = (t.decl().name(), tuple(frozenset(self.conv(c).items()) for c in t.children()))
            if key in self.apps:
                return {((self.apps[key], 1),): Fraction(1)}
            self.apps[key] = len(self.terms)
            self.atoms[t.get_id()] = len(self.terms)
            self.terms.append(t)
            return {((self.apps[key], 1),): Fraction(1)}
        i = t.get_id()
        if i not in self.atoms:
            self.atoms[i] = len(self.terms)
            self.terms.append(t)
        return {((self.atoms[i], 1),): Fraction(1)}

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + k * c
            if r[m] == 0:
                del r[m]
        return r

    def mul(self, a, b):
        r = {}
        if len(a) * len(b) > 20000:
            raise NotPoly()
        for m, c in a.items():
            for n, d in b.items():
                w = dict(m)
                for v, p in n:
                    w[v] = w.get(v, 0) + p
                k = tuple(sorted(w.items()))
                r[k] = r.get(k, 0) + c * d
                if r[k] == 0:
                    del r[k]
        return r

    def conv(self, t):
        i = t.get_id()
        if i not in self.memo:
            self.memo[i] = (t, self.conv_(t))
        return self.memo[i][1]

    def conv_(self, t):
        if z3.is_rational_value(t):
            c = t.as_fraction()
            return {(): Fraction(c)} if c else {}
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        if not z3.is_app(t):
            raise NotPoly()
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.conv(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.conv(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.conv(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = self.mul(r, self.conv(c))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 <= ch[1].as_fraction() <= 8:
            r = {(): Fraction(1)}
            for _ in range(int(ch[1].as_fraction())):
                r = self.mul(r, self.conv(ch[0]))
            return r
        if k == z3.Z3_OP_DIV:
            d = ch[1]
            if z3.is_rational_value(d) and d.as_fraction() != 0:
                return self.mul(self.conv(ch[0]), {(): 1 / Fraction(d.as_fraction())})
            return self.mul(self.conv(ch[0]), self.invof(d))
        if k == z3.Z3_OP_TO_REAL:
            a = ch[0]
            ka = a.decl().kind() if z3.is_app(a) else None
            if z3.is_int_value(a):
                return {(): Fraction(a.as_long())} if a.as_long() else {}
            if ka in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                xs = [z3.ToReal(c) for c in a.children()]
                e = -xs[0] if ka == z3.Z3_OP_UMINUS else (z3.Sum(xs) if ka == z3.Z3_OP_ADD else z3.Product(xs) if ka == z3.Z3_OP_MUL else xs[0] - z3.Sum(xs[1:]))
                return self.conv(e)
        if t.num_args():
            u = z3.simplify(t)
            if not u.eq(t):
                i = u.get_id()
                if i not in self.memo and i not in self.atoms:
                    if u.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and not z3.is_rational_value(u):
                        self.memo[i] = (u, self.atom(u))
                return self.conv(u)
        return self.atom(t)

    def invof(self, d):
        """1/d as an indeterminate, shared between equal polynomials d"""
        p = self.conv(d)
        if len(p) == 1 and () not in p:
            # 1/(c * x^a * y^b) = 1/c * inv(x)^a * inv(y)^b
            (m, c), = p.items()
            r = {(): 1 / c}
            for (v, k) in m:
                key = frozenset({((v, 1),): Fraction(1)}.items())
                a = self.inv.get(key)
                if a is None:
                    a = self.inv[key] = (self.atom(1 / self.terms[v] if z3.is_expr(self.terms[v]) else z3.Real('inv%d' % v)), {((v, 1),): Fraction(1)})
                for _ in range(k):
                    r = self.mul(r, a[0])
            return r
        key = frozenset(p.items())
        a = self.inv.get(key)
        if a is None:
            a = self.inv[key] = (self.atom(z3.Real('inv_poly%d' % len(self.inv))), p)
        return a[0]


def flatten(f, out):
    if z3.is_and(f):
        for c in f.children():
            flatten(c, out)
    else:
        out.append(f)
    return out


def nonlinear(p):
    return any(sum(k for _, k in m) > 1 for m in p)


def export(hyps, goal):
    """-> dict for the worker, or None when the goal is not of the polynomial-equality kind"""
    # equal constants are identified first
    sub, fl = [], []
    for h in hyps:
        flatten(h, fl)
    cst = lambda x: z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
    rep = {}
    def find(x):
        while x.get_id() in rep:
            x = rep[x.get_id()]
        return x
    for h in fl:
        if z3.is_eq(h) and h.arg(0).sort() == R and cst(h.arg(0)) and cst(h.arg(1)):
            a, b = find(h.arg(0)), find(h.arg(1))
            if not a.eq(b):
                rep[a.get_id()] = b
                sub.append(a)
    if sub:
        sub = [(a, find(a)) for a in sub]
        goal = z3.substitute(goal, *sub)
        hyps = [z3.substitute(h, *sub) for h in hyps]
    gs = flatten(goal, [])
    cv = Conv()
    try:
        G = []
        for g in gs:
            if z3.is_true(g):
                continue
            if not (z3.is_eq(g) and g.arg(0).sort() == R):
                return None
            G.append(cv.add(cv.conv(g.arg(0)), cv.conv(g.arg(1)), -1))
        G = [g for g in G if g]
        if not G:
            return dict(goals=[], hyps=[])
        hs, nz = [], []
        for h in hyps:
            hs += flatten(h, [])
        H, facts = [], []
        for h in hs:
            if z3.is_eq(h) and h.arg(0).sort() == R:
                try:
                    p = cv.add(cv.conv(h.arg(0)), cv.conv(h.arg(1)), -1)
                    if p:
                        H.append(p)
                except NotPoly:
                    pass
            else:
                facts.append(h)
    except NotPoly:
        return None
    if not any(nonlinear(p) for p in G) and not any(nonlinear(p) for p in H):
        return None
    # inverses: d * (1/d) = 1 is used where the hypotheses show d != 0
    if cv.inv:
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*[f for f in hyps if not z3.is_quantifier(f)])
        for (a, p) in list(cv.inv.values()):
            t = z3.Sum([z3.RealVal(str(c)) * z3.Product([cv.terms[v] for v, k in m for _ in range(k)] + [z3.RealVal(1)]) for m, c in p.items()])
            from . import solve
            if solve.quick_check(s, t == 0) == z3.unsat:
                H.append(cv.add(cv.mul(a, p), {(): Fraction(1)}, -1))
    # relevance: hypotheses connected to the goal
    at = lambda p: {v for m in p for v, _ in m}
    rel = set().union(*[at(g) for g in G])
    keep, ch = [], True
    rest = list(H)
    while ch:
        ch = False
        for p in list(rest):
            if at(p) & rel:
                rel |= at(p)
                keep.append(p)
                rest.remove(p)
                ch = True
    if len(keep) > 120:
        return None
    defs = [i for i, t in enumerate(cv.terms) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    enc = lambda p: [[str(c), [list(x) for x in m]] for m, c in p.items()]
    return dict(goals=[enc(g) for g in G], hyps=[enc(p) for p in keep], consts=defs, n=len(cv.terms))


def run(d, timeout=15):
    """True when proved; None otherwise"""
    if not d['goals']:
        return True
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(d).encode(), capture_output=True, timeout=timeout)
        return True if p.stdout.strip() == b'proved' else None
    except subprocess.TimeoutExpired:
        return None


def p_add(a, b, k=1):
    return Conv.add(None, a, b, k)


def p_mul(a, b):
    return Conv.mul(None, a, b)


def p_subst(p, v, e):
    """p with indeterminate v replaced by polynomial e"""
    out, pw = {}, {0: {(): Fraction(1)}}
    for m, c in p.items():
        k = dict(m).get(v, 0)
        if not k:
            out = p_add(out, {m: c})
            continue
        for j in range(1, k + 1):
            if j not in pw:
                pw[j] = p_mul(pw[j - 1], e)
        rest = tuple(x for x in m if x[0] != v)
        out = p_add(out, p_mul({rest: c}, pw[k]))
    return out


def worker():
    d = json.load(sys.stdin)
    dec = lambda p: {tuple((v, k) for v, k in m): Fraction(c) for c, m in p}
    H = [dec(p) for p in d['hyps']]
    G = [dec(p) for p in d['goals']]
    vs = lambda p: {v for m in p for v, _ in m}
    # eliminate definitions: an equation in which an indeterminate occurs once, linearly, with a constant coefficient
    ch = True
    while ch:
        ch = False
        for h in sorted(H, key=len):
            for v in sorted(vs(h)):
                ms = [m for m in h if any(x == v for x, _ in m)]
                if ms == [((v, 1),)] and len(h) <= 60:
                    c = h[ms[0]]
                    e = {m: -x / c for m, x in h.items() if m != ms[0]}
                    H = [x for x in (p_subst(x, v, e) for x in H if x is not h) if x]
                    G = [x for x in (p_subst(x, v, e) for x in G) if x]
                    ch = True
                    break
            if ch:
                break
    if not G:
        print('proved')
        return
    def relevant(g):
        rel, keep, ch = set(vs(g)), [], True
        while ch:
            ch = False
            for h in H:
                if h not in keep and vs(h) & rel:
                    keep.append(h)
                    rel |= vs(h)
                    ch = True
        return rel, keep
    import sympy
    X = sympy.symbols('x0:%d' % d['n'])
    cache = {}
    for g in G:
        rel, keep = relevant(g)
        if not keep:
            return
        key = tuple(sorted(rel))
        gens = [X[v] for v in key]
        ix = {v: i for i, v in enumerate(key)}
        def mk(p):
            return sympy.Poly.from_dict({tuple(dict(m).get(v, 0) for v in key): sympy.Rational(c.numerator, c.denominator) for m, c in p.items()}, *gens, domain='QQ')
        if key not in cache:
            cache[key] = sympy.groebner([mk(h) for h in keep], *gens, order='grevlex', domain='QQ')
        if cache[key].reduce(mk(g).as_expr())[1] != 0:
            return
    print('proved')


if __name__ == '__main__':
    worker()
