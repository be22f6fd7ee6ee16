"""Helpers for writing contracts."""
import z3
from .values import *
from .contract import Contract
from .prop import Property, Task, Lemma, Harness


def fa(body, pats=None, n=1, sort=I, names='ijklm'):
    """for all: body is a python function of n bound Int variables"""
    vs = [z3.Const(fname('q' + names[i]), sort) for i in range(n)]
    b = body(*vs)
    p = None
    if pats is not None:
        p = pats(*vs)
        p = p if isinstance(p, list) else [p]
        p = [x for x in p if good_pat(x, vs)]
    return z3.ForAll(vs, b, patterns=p) if p else z3.ForAll(vs, b)


def ex(body, n=1, sort=I):
    vs = [z3.Const(fname('e'), sort) for i in range(n)]
    return z3.Exists(vs, body(*vs))


def good_pat(p, vs):
    """a usable trigger: no interpreted connectives on top"""
    bad = [False]
    def go(t):
        if z3.is_app(t):
            k = t.decl().kind()
            if k in (z3.Z3_OP_ITE, z3.Z3_OP_STORE) or z3.is_quantifier(t):
                bad[0] = True
            for c in t.children():
                go(c)
    go(p)
    return not bad[0]


def between(a, x, b):
    return z3.And(a <= x, x < b)


Imp, And, Or, Not, If = z3.Implies, z3.And, z3.Or, z3.Not, z3.If


def iff(a, b):
    return a == b


class Loop:
    """base class of loop-invariant templates"""
    def ghost_init(self, lc):
        pass
    def cands(self, lc):
        return []
    def ghost_step(self, lc, t):
        pass
    def variant(self, lc):
        return None


def only(cx, exc, name):
    return exc == name
