"""Specification-level functions (recursive sums) and ground axiom instantiation.
The lemmas instantiated here are proved by induction in lemmas() on every run."""
import z3
from .values import *

AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
RSUM = z3.Function('rsum', AR, I, I, R)      # sum of a[lo..hi)
ISUM = z3.Function('isum', AI, I, I, I)


def rsum(st, a, lo, hi):
    return RSUM(a, lo, hi)


def isum(st, a, lo, hi):
    return ISUM(a, lo, hi)


def subterms(fs):
    """ground-ish sub-terms (de Bruijn-free) of the formulas"""
    seen, out = set(), []
    stack = [(f, False) for f in fs]
    while stack:
        t, _ = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append((t.body(), True))
            continue
        if z3.is_app(t):
            out.append(t)
            for c in t.children():
                stack.append((c, False))
    return out


_HV, _KEEP, _INT = {}, [], {}


def has_var(t, cache=None):
    """does the term contain a bound variable or a quantifier (results kept: the terms live as long as the table)"""
    i = t.get_id()
    r = _HV.get(i)
    if r is not None:
        return r
    if z3.is_app(t):
        r = any(has_var(c) for c in t.children())
    else:
        r = True
    _HV[i] = r
    _KEEP.append(t)
    return r


_NONE = ()


def interesting(t):
    """ground sums and real functions in a term or formula"""
    i = t.get_id()
    r = _INT.get(i)
    if r is not None:
        return r
    r = _NONE
    if z3.is_app(t):
        n = t.num_args()
        for k in range(n):
            q = interesting(t.arg(k))
            if q and q is not r:
                if not r:
                    r = q
                else:
                    have = {x.get_id() for x in r}
                    r = r + tuple(x for x in q if x.get_id() not in have)
        if n:
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nme = d.name()
                if (nme in ('rsum', 'isum') or (nme.startswith('m_') and n <= 2)) and not has_var(t):
                    r = (t,) + r
    elif z3.is_quantifier(t):
        r = interesting(t.body())
    _INT[i] = r
    _KEEP.append(t)
    return r


def ground(fs):
    seen, out = set(), []
    for f in fs:
        for t in interesting(f):
            i = t.get_id()
            if i not in seen:
                seen.add(i)
                out.append(t)
    return out


def sum_instances(fs):
    out = []
    done = set()
    for rnd in range(2):
        terms = [t for t in ground(fs + out) if t.decl().name() in ('rsum', 'isum')]
        new = []
        for t in terms:
            if ('u', t.get_id()) in done:
                continue
            done.add(('u', t.get_id()))
            F = t.decl()
            a, lo, hi = t.children()
            new.append(z3.Implies(hi <= lo, t == 0))
            new.append(z3.Implies(hi > lo, t == F(a, lo, hi - 1) + a[hi - 1]))
            if rnd == 0:
                new.append(z3.Implies(hi >= lo, F(a, lo, hi + 1) == t + a[hi]))
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                # point-update lemma
                b, k, v = a.children()
                new.append(t == F(b, lo, hi) + z3.If(z3.And(lo <= k, k < hi), v - b[k], 0))
        for x in range(len(terms)):
            for y in range(x + 1, len(terms)):
                t, u = terms[x], terms[y]
                if t.decl().name() != u.decl().name():
                    continue
                key = ('p', t.get_id(), u.get_id())
                if key in done:
                    continue
                done.add(key)
                a, l1, h1 = t.children()
                b, l2, h2 = u.children()
                F = t.decl()
                if a.eq(b):
                    # split lemma
                    new.append(z3.Implies(z3.And(l1 == l2, l1 <= h1, h1 <= h2), u == t + F(a, h1, h2)))
                    new.append(z3.Implies(z3.And(l1 == l2, l2 <= h2, h2 <= h1), t == u + F(a, h2, h1)))
                else:
                    # extensionality lemma
                    k = z3.Int(fname('sk'))
                    new.append(z3.Implies(z3.And(l1 == l2, h1 == h2, t != u), z3.And(l1 <= k, k < h1, a[k] != b[k])))
        if not new:
            break
        out += new
        if len(out) > 400:
            break
    return out


def sum_lemmas():
    """induction proofs of the split and extensionality lemmas: (name, hyps, goal)"""
    out = []
    for (F, AS, S) in ((RSUM, AR, R), (ISUM, AI, I)):
        a, b = z3.Consts('a b', AS)
        l, h, k, m = z3.Ints('l h k m')
        nm = F.name()
        unf = lambda x, i, j: z3.If(j <= i, F(x, i, j) == 0, F(x, i, j) == F(x, i, j - 1) + x[j - 1])
        out.append((nm + '-split/base', [unf(a, h, h)], F(a, l, h) == F(a, l, h) + F(a, h, h)))
        out.append((nm + '-split/step', [l <= h, h <= m, F(a, l, m) == F(a, l, h) + F(a, h, m), unf(a, l, m + 1), unf(a, h, m + 1)],
                    F(a, l, m + 1) == F(a, l, h) + F(a, h, m + 1)))
        out.append((nm + '-ext/base', [unf(a, l, h), unf(b, l, h), h <= l], F(a, l, h) == F(b, l, h)))
        out.append((nm + '-ext/step', [l <= h, F(a, l, h) == F(b, l, h), a[h] == b[h], unf(a, l, h + 1), unf(b, l, h + 1)],
                    F(a, l, h + 1) == F(b, l, h + 1)))
        v = z3.Const('v', S)
        up = lambda m: F(z3.Store(a, k, v), l, m) == F(a, l, m) + z3.If(z3.And(l <= k, k < m), v - a[k], 0)
        out.append((nm + '-update/base', [unf(a, l, h), unf(z3.Store(a, k, v), l, h), h <= l], up(h)))
        out.append((nm + '-update/step', [l <= h, up(h), unf(a, l, h + 1), unf(z3.Store(a, k, v), l, h + 1)], up(h + 1)))
    return out


def fun_instances(fs):
    """ground instances of the defining axioms of the real functions"""
    out = []
    terms = [t for t in ground(fs) if t.decl().name().startswith('m_')]
    by = {}
    for t in terms:
        by.setdefault(t.decl().name(), []).append(t)
    from .models import UF1, UF2
    for t in by.get('m_sqrt', []):
        x = t.arg(0)
        out += [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]
    args = {}
    for n in ('m_sin', 'm_cos'):
        for t in by.get(n, []):
            args[t.arg(0).get_id()] = t.arg(0)
    for x in args.values():
        s, c = UF1['sin'](x), UF1['cos'](x)
        out.append(s * s + c * c == 1)
    for t in by.get('m_exp', []):
        out.append(t > 0)
    for t in by.get('m_log', []):
        x = t.arg(0)
        out += [z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0)]
    for t in by.get('m_pow', []):
        out.append(z3.Implies(t.arg(0) > 0, t > 0))
    return out


def nonneg_instances(fs):
    return []
