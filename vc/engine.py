"""Symbolic executor / verification-condition generator over the clang AST of the real code."""
import re, z3, time
from . import ast as A
from . import solve
from .values import *

MAXPATHS = 400


import os
DUMP = os.environ.get('VERIF_DUMP')      # directory for the rejected candidates' queries (debugging)


class State:
    __slots__ = ('store', 'pc', 'trace')
    def __init__(self, store=None, pc=None):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else []
    def fork(self):
        return State(dict(self.store), list(self.pc))
    def assume(self, f):
        if f is None:
            return self
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.pc.append(f)
        return self


class Oblig:
    def __init__(self, name, hyps, goal, kind, loc=None, opts=None):
        self.name, self.hyps, self.goal, self.kind, self.loc = name, hyps, goal, kind, loc
        self.opts = opts or {}
        self.status = None


class Exc:
    def __init__(self, cls):
        self.cls = cls


def conj(fs):
    fs = [f for f in fs if f is not None]
    return z3.And(fs) if len(fs) != 1 else fs[0]


class Engine:
    def __init__(self, unit, contracts=None, opts=None):
        self.u = unit
        self.contracts = {(A.norm_cls(k[0]),) + tuple(k[1:]): c for k, c in (contracts or {}).items()}
        self.opts = dict(safety=True, unsigned=True, fl=False, maxinline=40)
        self.opts.update(opts or {})
        self.obls = []
        self.mute = 0
        self.sink = []
        self.frame = 0
        self.frames = 0
        self.tmpn = 0
        self.prune_solver = None
        self.fn = '?'
        self.cur = None            # current Contract being verified
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.callstack = []
        self.houdini_log = []
        self.loops_seen = 0
        self.vnames = {}
        self.loopdepth = 0
        self.axioms = []           # global axioms (lemma library, proven separately)
        self.heap_cls = {}
        self.sfcount = {}
        from . import models
        self.models = models

    # -------------------------------------------------------------- utils
    def oblige(self, st, goal, name, kind='safety', hyps_extra=()):
        if self.mute:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if kind == 'safety' and not self.opts['safety']:
            return
        g = z3.simplify(goal)
        if z3.is_true(g) and kind == 'safety':
            self.sfcount['trivial'] = self.sfcount.get('trivial', 0) + 1
            return
        self.obls.append(Oblig(self.fn + '/' + name, list(st.pc) + list(hyps_extra), goal, kind, opts=dict(self.opts.get('solve', {}), nosum=self.opts.get('nosum') and kind != 'safety')))

    def feasible(self, st, extra=None):
        if extra is not None:
            s0 = z3.simplify(extra)
            if z3.is_false(s0):
                return False
            if z3.is_true(s0):
                return True
        s = z3.Solver()
        s.set('timeout', 250)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        for f in self.axioms:
            if not z3.is_quantifier(f):
                s.add(f)
        for f in st.pc:
            s.add(f)
        if extra is not None:
            s.add(extra)
        return solve.quick_check(s) != z3.unsat

    def new_tmp(self, st, v, tag='tmp'):
        self.tmpn += 1
        r = (tag, self.tmpn)
        st.store[r] = v
        return LV(r)

    def unsupported(self, e, why=''):
        loc = ''
        raise Unsupported('%s: %s %s %s' % (self.fn, e.get('kind') if isinstance(e, dict) else e, why, loc))

    # -------------------------------------------------------------- store access
    def read(self, st, x):
        if not isinstance(x, LV):
            return x
        if isinstance(x.root, tuple) and x.root[0] == 'heapobj' and not x.path:
            return x
        if x.root not in st.store:
            raise Unsupported('read of unbound root %r' % (x.root,))
        v = st.store[x.root]
        for p in x.path:
            v = self.getp(st, v, p)
            if isinstance(v, PtrTo) and p[0] == 'f' and v.lv is not None and getattr(v, 'isref', False):
                v = self.read(st, v.lv)
        return v

    def getp(self, st, v, p):
        k = p[0]
        if isinstance(v, Uninit) and k in ('el', 'blk'):
            v = self.uninit_fresh(v.T)
        if k == 'f':
            if isinstance(v, PairV):
                return v.first if p[1] == 'first' else v.second
            if isinstance(v, Rec):
                if p[1] not in v.f:
                    raise Unsupported('no field %s in %s' % (p[1], v.cls))
                return v.f[p[1]]
            for h in self.opts.get('hooks', ()):        # component of a value of an uninterpreted class
                r = getattr(h, 'value_component', lambda *a: None)(v, p[1])
                if r is not None:
                    return r
            raise Unsupported('field %s of %r' % (p[1], v))
        if k == 'at':
            if isinstance(v, MapV):
                return v[p[1]]
            if isinstance(v, VecV):
                return v[p[1]]
        if k == 'key':          # key of a map/set entry: read-only
            return p[1]
        if k == 'el':
            return self.models.mat_get(self, v, p[1], p[2])
        if k == 'blk':
            return self.models.mat_block(v, p[1], p[2], p[3], p[4])
        if k == 'view':
            return self.models.view_get(self, v, p[1])
        if k == 'entry':        # map entry as a pair(key, value)
            return PairV(p[1], v[p[1]], v.K, v.V)
        raise Unsupported('getp %r on %r' % (p, v))

    def write(self, st, lv, val):
        if not isinstance(lv, LV):
            raise Unsupported('write to non-lvalue %r' % (lv,))
        if isinstance(lv.root, tuple) and lv.root[0] == 'heapobj':
            raise Unsupported('write through opaque pointer')
        # follow reference members
        st.store[lv.root] = self.setp(st, st.store.get(lv.root), lv.path, val)

    def setp(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        k = p[0]
        if isinstance(v, Uninit) and k in ('el', 'blk', 'view'):
            v = self.uninit_fresh(v.T)
        if k == 'f':
            if isinstance(v, PairV):
                if p[1] == 'first':
                    return PairV(self.setp(st, v.first, path[1:], val), v.second, v.A, v.B)
                return PairV(v.first, self.setp(st, v.second, path[1:], val), v.A, v.B)
            if isinstance(v, Uninit) and v.T.k == 'cls' and v.T[1] in ('timeval', 'timespec'):
                v = Rec(v.T[1], {})
            if isinstance(v, Rec) and v.cls in ('timeval', 'timespec'):
                return Rec(v.cls, dict(v.f, **{p[1]: val}))
            if isinstance(v, Rec):
                if p[1] not in v.f:
                    raise Unsupported('no field %s in %s' % (p[1], v.cls))
                return v.with_(p[1], self.setp(st, v.f[p[1]], path[1:], val))
        if k == 'at':
            if isinstance(v, MapV):
                nv = self.setp(st, v[p[1]], path[1:], val)
                return MapV(v.dom, z3.Store(v.val, p[1], pack(nv, v.V)), v.size, v.K, v.V)
            if isinstance(v, VecV):
                nv = self.setp(st, v[p[1]], path[1:], val) if len(path) > 1 else val
                return VecV(v.n, z3.Store(v.a, p[1], pack(nv, v.T)), v.T)
        if k == 'entry':
            if len(path) > 1 and path[1] == ('f', 'second'):
                nv = self.setp(st, v[p[1]], path[2:], val)
                return MapV(v.dom, z3.Store(v.val, p[1], pack(nv, v.V)), v.size, v.K, v.V)
        if k == 'el' and z3.is_expr(v) and v.sort() == MATX:
            from . import eig
            return eig.dyn_set(st, v, p[1], p[2], val)
        if k == 'el':
            return self.models.mat_set(self, v, p[1], p[2], val)
        if k == 'blk':
            if len(path) > 1:
                sub = self.setp(st, self.getp(st, v, p), path[1:], val)
            else:
                sub = val
            return self.models.mat_setblock(v, p[1], p[2], p[3], p[4], sub)
        if k == 'view':
            if len(path) > 1:
                sub = self.setp(st, self.getp(st, v, p), path[1:], val)
            else:
                sub = val
            return self.models.view_set(self, v, p[1], sub)
        raise Unsupported('setp %r on %r' % (p, v))

    # -------------------------------------------------------------- fresh values
    def uninit_fresh(self, T):
        return self.fresh(T, 'uninit')

    def fresh(self, T, name, st=None):
        k = T.k
        if k == 'ref':
            return self.fresh(T[1], name, st)
        if k == 'vec':
            n = z3.Int(fname(name + '.n'))
            if st is not None:
                st.assume(n >= 0)
            a = z3.Const(fname(name + '.a'), z3.ArraySort(I, sort_of(T[1])))
            if st is not None and T[1].k == 'int' and not T[1][1]:
                j = z3.Int(fname('j'))
                st.assume(z3.ForAll([j], a[j] >= 0, patterns=[a[j]]))
            return VecV(n, a, T[1])
        if k == 'map':
            ks, vs = sort_of(T[1]), sort_of(T[2])
            n = z3.Int(fname(name + '.size'))
            if st is not None:
                st.assume(n >= 0)
            return MapV(z3.Const(fname(name + '.dom'), z3.ArraySort(ks, B)), z3.Const(fname(name + '.val'), z3.ArraySort(ks, vs)), n, T[1], T[2])
        if k == 'set':
            ks = sort_of(T[1])
            n = z3.Int(fname(name + '.size'))
            if st is not None:
                st.assume(n >= 0)
            return SetV(z3.Const(fname(name + '.dom'), z3.ArraySort(ks, B)), n, T[1])
        if k == 'pair':
            return PairV(self.fresh(T[1], name + '.1', st), self.fresh(T[2], name + '.2', st), T[1], T[2])
        if k == 'eig' and T[2] >= 0 and T[3] >= 0:
            es = []
            for i in range(T[2]):
                for j in range(T[3]):
                    es.append(z3.Const(fname('%s[%d,%d]' % (name, i, j)), sort_of(T[1])))
            return Mat(T[2], T[3], es, T[1])
        if k == 'cls':
            c = self.u.find_class(T[1])
            if c:
                return self.fresh_rec(c, name, st)
            r = self.models.fresh_cls(self, T, name, st)
            if r is not None:
                return r
        if k == 'arr':
            return VecV(z3.IntVal(T[2]), z3.Const(fname(name + '.a'), z3.ArraySort(I, sort_of(T[1]))), T[1])
        v = fresh_z3(T, name)
        if k == 'eig' and st is not None:
            from . import eig
            eig.dyn_shape(st, v, T)
        if k == 'int' and st is not None:
            if not T[1]:
                st.assume(v >= 0)
        if k == 'ptr' and st is not None:
            st.assume(v >= 0)
        return v

    def all_fields(self, cls, seen=None):
        """(name, type, fielddecl) for a class and its bases (in aslam::calibration)"""
        out = []
        for b in self.u.bases(cls):
            bc = self.u.find_class(b)
            if bc:
                out += self.all_fields(bc)
        n = self.u.classes[cls]
        for c in A.inner(n):
            if c.get('kind') == 'FieldDecl':
                out.append((c['name'], parse_type(A.qt(c)), c))
        return out

    def fresh_rec(self, cls, name, st=None):
        d = {}
        for (n, t, _) in self.all_fields(cls):
            d[n] = self.fresh(t, name + '.' + n, st)
        return Rec(cls, d)

    def default(self, T):
        """value-initialised / default-constructed value"""
        k = T.k
        if k in ('int', 'ptr'):
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'real':
            return z3.RealVal(0)
        if k == 'vec':
            return VecV(z3.IntVal(0), z3.Const(fname('emptyarr'), z3.ArraySort(I, sort_of(T[1]))), T[1])
        if k == 'map':
            ks, vs = sort_of(T[1]), sort_of(T[2])
            return MapV(z3.K(ks, z3.BoolVal(False)), z3.Const(fname('emptyval'), z3.ArraySort(ks, vs)), z3.IntVal(0), T[1], T[2])
        if k == 'set':
            return SetV(z3.K(sort_of(T[1]), z3.BoolVal(False)), z3.IntVal(0), T[1])
        if k == 'pair':
            return PairV(self.default(T[1]), self.default(T[2]), T[1], T[2])
        if k == 'eig':
            if T[2] < 0 or T[3] < 0:
                return z3.Const('MatX_empty', MATX)
            return Uninit(T)
        if k == 'str':
            return fresh_z3(T_STR, 'str')
        return Uninit(T)

    # -------------------------------------------------------------- statements
    def exec(self, s, st):
        """-> list of (state, outcome); outcome None | 'brk' | 'cont' | ('ret', v)"""
        k = s.get('kind')
        if k is None or k == 'NullStmt':
            return [(st, None)]
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(s, st)
        # expression statement
        return [(s2, None) for s2, _ in self.ev(s, st)]

    def x_CompoundStmt(self, s, st):
        return self.seq(A.inner(s), st)

    def seq(self, stmts, st):
        cur = [(st, None)]
        for c in stmts:
            nxt = []
            for (t, o) in cur:
                if o is not None:
                    nxt.append((t, o))
                else:
                    nxt += self.exec(c, t)
            cur = nxt
            if len(cur) > MAXPATHS:
                raise Unsupported('%s: path explosion' % self.fn)
        return cur

    def x_DeclStmt(self, s, st):
        cur = [st]
        for d in A.inner(s):
            if d.get('kind') != 'VarDecl':
                if d.get('kind') in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'TypeAliasDecl', 'CXXRecordDecl', 'EmptyDecl', 'NamespaceAliasDecl'):
                    continue
                self.unsupported(d)
            nxt = []
            for t in cur:
                nxt += self.decl_var(d, t)
            cur = nxt
        return [(t, None) for t in cur]

    def decl_var(self, d, st):
        T = parse_type(A.qt(d))
        root = ('v', d['id'], self.frame)
        self.vnames[d['id']] = d.get('name', 'v')
        if d.get('storageClass') == 'static' and not self.is_const(d):
            self.unsupported(d, 'static local')
        init = [c for c in A.inner(d) if c.get('kind') not in ('FullComment',) and not c.get('kind', '').endswith('Attr')]
        if not init:
            st.store[root] = self.default(T) if T.k in ('vec', 'map', 'set', 'str') else Uninit(T)
            return [st]
        out = []
        for (t, x) in self.ev(init[0], st, want=T):
            if T.k == 'ref':
                if not isinstance(x, LV):
                    x = self.new_tmp(t, x)
                t.store[root] = PtrTo(x)
            else:
                t.store[root] = self.coerce(t, self.read(t, x), T)
            out.append(t)
        return out

    @staticmethod
    def is_const(d):
        return (d.get('type', {}).get('qualType', '')).startswith('const') or d.get('constexpr')

    def coerce(self, st, v, T):
        if T.k in ('int', 'real', 'bool') and (z3.is_expr(v) or isinstance(v, (int, float, bool))):
            v = lift(v)
            if T.k == 'bool' and v.sort() == I:
                return v != 0
            return tosort(v, T)
        if T.k == 'eig' and isinstance(v, Mat):
            if T[2] >= 0 and T[3] >= 0:
                if (v.r, v.c) != (T[2], T[3]):
                    if v.r * v.c == T[2] * T[3] and 1 in (v.r, v.c):
                        return Mat(T[2], T[3], v.e, T[1])
                    raise Unsupported('matrix size mismatch %dx%d -> %dx%d' % (v.r, v.c, T[2], T[3]))
                return Mat(v.r, v.c, [tosort(x, T[1]) for x in v.e], T[1])
            if self.opts.get('fixdyn'):
                return v
            from . import eig
            return eig.dyn_of(st, v)
        if T.k == 'eig' and z3.is_expr(v) and v.sort() == MATX and T[2] >= 0 and T[3] >= 0:
            from . import eig
            return eig.fixed_of(self, st, v, T[2], T[3])
        return v

    def x_IfStmt(self, s, st):
        inn = list(A.inner(s))
        pre = []
        if s.get('hasInit'):
            pre.append(inn.pop(0))
        if s.get('hasVar'):
            pre.append(inn.pop(0))
        cond, then = inn[0], inn[1]
        els = inn[2] if len(inn) > 2 else None
        out = []
        for (t0, o) in self.seq(pre, st):
            for (t, c) in self.ev(cond, t0):
                c = self.boolv(t, c)
                a, b = self.branch(t, c)
                if a is not None:
                    out += self.exec(then, a)
                if b is not None:
                    if els is not None:
                        out += self.exec(els, b)
                    else:
                        out.append((b, None))
        return out

    def branch(self, t, c):
        """split state on condition; None if infeasible"""
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return t, None
        if z3.is_false(c):
            return None, t
        a, b = t.fork(), t.fork()
        fa = self.feasible(a, c)
        fb = self.feasible(b, z3.Not(c)) if fa else True
        if not fa:
            b.assume(z3.Not(c))
            return None, b
        a.assume(c)
        if not fb:
            return a, None
        b.assume(z3.Not(c))
        return a, b

    def x_ReturnStmt(self, s, st):
        inn = A.inner(s)
        if not inn:
            return [(st, ('ret', None))]
        out = []
        for (t, x) in self.ev(inn[0], st):
            if not self.ret_is_ref:
                x = self.read(t, x)
                x = self.coerce(t, x, self.ret_ty) if self.ret_ty is not None else x
            elif not isinstance(x, LV):
                x = self.new_tmp(t, x)
            out.append((t, ('ret', x)))
        return out

    ret_is_ref = False
    ret_ty = None

    def x_BreakStmt(self, s, st):
        return [(st, 'brk')]

    def x_ContinueStmt(self, s, st):
        return [(st, 'cont')]

    def x_ForStmt(self, s, st):
        init, cvar, cond, inc, bdy = A.inner(s)
        if cvar:
            self.unsupported(s, 'condition variable')
        out = []
        for (t, o) in self.exec(init, st) if init else [(st, None)]:
            out += self.loop(s, cond if cond else None, inc if inc else None, bdy, t, pre=True)
        return out

    def x_WhileStmt(self, s, st):
        inn = A.inner(s)
        if len(inn) != 2:
            self.unsupported(s, 'condition variable')
        return self.loop(s, inn[0], None, inn[1], st, pre=True)

    def x_DoStmt(self, s, st):
        bdy, cond = A.inner(s)
        return self.loop(s, cond, None, bdy, st, pre=False)

    def x_CXXForRangeStmt(self, s, st):
        inn = A.inner(s)
        # init?, range, begin, end, cond, inc, loopvar, body
        if len(inn) == 8:
            init, rng, beg, end, cond, inc, var, bdy = inn
        else:
            rng, beg, end, cond, inc, var, bdy = inn
            init = None
        out = []
        for (t, o) in self.seq([x for x in (init, rng, beg, end) if x], st):
            out += self.loop(s, cond, inc, {'kind': 'CompoundStmt', 'inner': [var, bdy]}, t, pre=True)
        return out

    def x_SwitchStmt(self, s, st):
        self.unsupported(s)

    def x_CXXTryStmt(self, s, st):
        inn = A.inner(s)
        save = self.sink
        self.sink = []
        try:
            res = self.exec(inn[0], st)
            thrown = self.sink
        finally:
            self.sink = save
        for (t, exc) in thrown:
            handled = False
            for h in inn[1:]:
                hv = [c for c in A.inner(h)]
                var = hv[0] if hv and hv[0].get('kind') == 'VarDecl' else None
                bdy = hv[-1]
                ty = None
                if var is not None:
                    ty = A.norm_cls(A.qt(var).replace('&', ''))
                if ty is None or ty == A.norm_cls(exc.cls) or ty in ('exception', 'Exception'):
                    if var is not None:
                        t.store[('v', var['id'], self.frame)] = Obj('exc', cls=exc.cls)
                    outer, self.handling = getattr(self, 'handling', None), exc
                    res += self.exec(bdy, t)
                    self.handling = outer
                    handled = True
                    break
            if not handled:
                self.sink.append((t, exc))
        return res

    # -------------------------------------------------------------- loops
    def cond_states(self, cond, st):
        """-> list of (state, z3 bool)"""
        if cond is None:
            return [(st, z3.BoolVal(True))]
        return [(t, self.boolv(t, c)) for (t, c) in self.ev(cond, st)]

    def loop(self, node, cond, inc, bdy, st, pre):
        # 1. concrete unrolling when the condition is decided syntactically
        if pre:
            probe = self.quiet(lambda: self.cond_states(cond, st.fork()))
            lits = [z3.simplify(c) for (_, c) in probe]
            endless = cond is None or self.bare(cond).get('kind') in ('CXXBoolLiteralExpr', 'IntegerLiteral')
            if all(z3.is_true(c) or z3.is_false(c) for c in lits) and not (endless and all(z3.is_true(c) for c in lits) and self.cur is not None and self.cur.loop is not None):
                return self.unroll(cond, inc, bdy, st, 0)
            return self.loop_inv(node, cond, inc, bdy, st)
        # do-while: body once, then while
        out = []
        for (t, o) in self.exec(bdy, st):
            if o in (None, 'cont'):
                out += self.loop(node, cond, inc, bdy, t, True)
            elif o == 'brk':
                out.append((t, None))
            else:
                out.append((t, o))
        return out

    @staticmethod
    def bare(n):
        while n.get('kind') in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr') and A.inner(n):
            n = A.inner(n)[0]
        return n

    def unroll(self, cond, inc, bdy, st, n):
        if n > self.opts.get('maxunroll', 64):
            raise Unsupported('%s: unrolling limit' % self.fn)
        out = []
        for (t, c) in self.cond_states(cond, st):
            c = z3.simplify(c)
            if z3.is_false(c):
                out.append((t, None))
                continue
            if not z3.is_true(c):
                raise Unsupported('%s: loop condition became symbolic during unrolling' % self.fn)
            for (t2, o) in self.exec(bdy, t):
                if o in (None, 'cont'):
                    nx = [t2] if inc is None else [x for x, _ in self.ev(inc, t2)]
                    for x in nx:
                        out += self.unroll(cond, inc, bdy, x, n + 1)
                elif o == 'brk':
                    out.append((t2, None))
                else:
                    out.append((t2, o))
        return out

    def quiet(self, f):
        save = self.sink
        self.sink = []
        self.mute += 1
        try:
            return f()
        finally:
            self.sink = save
            self.mute -= 1

    def diff_paths(self, a, b, path=()):
        """paths at which values a, b differ"""
        if same(a, b):
            return []
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
            out = []
            for n in a.f:
                out += self.diff_paths(a.f[n], b.f.get(n), path + (('f', n),))
            return out
        return [path]

    def getpath(self, v, path):
        for p in path:
            v = self.getp(None, v, p)
        return v

    def havoc_like(self, v, name, st):
        if isinstance(v, VecV):
            return self.fresh(Ty('vec', v.T), name, st)
        if isinstance(v, MapV):
            return self.fresh(Ty('map', v.K, v.V), name, st)
        if isinstance(v, SetV):
            return self.fresh(Ty('set', v.K), name, st)
        if isinstance(v, PairV):
            return PairV(self.havoc_like(v.first, name, st), self.havoc_like(v.second, name, st), v.A, v.B)
        if isinstance(v, Mat):
            return Mat(v.r, v.c, [self.havoc_like(lift(x), name, st) for x in v.e], v.T, v.array)
        if isinstance(v, Rec):
            return Rec(v.cls, {n: self.havoc_like(x, name + '.' + n, st) for n, x in v.f.items()})
        if isinstance(v, It):
            return It(v.lv, z3.Int(fname(name + '.idx')), v.kind, v.key)
        if isinstance(v, Uninit):
            return self.fresh(v.T, name, st)
        if z3.is_expr(v):
            return z3.Const(fname(name), v.sort())
        if isinstance(v, (int, bool, float)):
            return z3.Const(fname(name), lift(v).sort())
        if isinstance(v, Obj) and v.tag == 'ldlt':
            return Obj('ldlt', m=self.havoc_like(v.m, name, st), kind=v.kind)
        if isinstance(v, Obj) and v.tag == 'log':
            return Obj('log', items=())
        raise Unsupported('cannot havoc %r (%s)' % (v, name))

    def one_iter(self, cond, inc, bdy, h):
        """execute one arbitrary iteration from state h.
        -> (list of end-of-iteration states, list of loop-exit states, list of break states, list of return outcomes, cond pairs)"""
        ends, exits, brks, rets = [], [], [], []
        for (t, c) in self.cond_states(cond, h):
            a, b = self.branch(t, c)
            if b is not None:
                exits.append(b)
            if a is None:
                continue
            for (t2, o) in self.exec(bdy, a):
                if o in (None, 'cont'):
                    nx = [t2] if inc is None else [x for x, _ in self.ev(inc, t2)]
                    ends += nx
                elif o == 'brk':
                    brks.append(t2)
                else:
                    rets.append((t2, o))
        return ends, exits, brks, rets

    def loop_inv(self, node, cond, inc, bdy, st):
        self.loops_seen += 1
        spec = self.cur.loop if self.cur is not None else None
        depth = self.loopdepth
        self.loopdepth += 1
        try:
            return self._loop_inv(node, cond, inc, bdy, st, spec, depth)
        finally:
            self.loopdepth -= 1

    def _loop_inv(self, node, cond, inc, bdy, st, spec, depth):
        # --- modified set, by fixpoint of dry runs
        ghost0 = dict(st.store)
        mods = {}     # (root, path) -> None
        preroots = set(st.store)
        for _round in range(8):
            h = st.fork()
            for (root, path) in mods:
                v0 = self.getpath(h.store[root], path)
                h.store[root] = self.setp(h, h.store[root], path, self.havoc_like(v0, 'h', h))
            snap = dict(h.store)
            self.nohoudini = getattr(self, 'nohoudini', 0) + 1
            try:
                ends, exits, brks, rets = self.quiet(lambda: self.one_iter(cond, inc, bdy, h.fork()))
            finally:
                self.nohoudini -= 1
            new = set()
            for t in ends:
                for r in preroots:
                    if r in t.store and not same(snap[r], t.store[r]):
                        for p in self.diff_paths(snap[r], t.store[r]):
                            if (r, p) not in mods:
                                new.add((r, p))
            if not new:
                break
            for x in new:
                # drop longer paths subsumed
                mods[x] = None
            mods = {x: None for x in mods if not any(y != x and y[0] == x[0] and x[1][:len(y[1])] == y[1] for y in mods)}
        else:
            raise Unsupported('%s: loop frame does not stabilise' % self.fn)

        def havoc(base):
            h = base.fork()
            for (root, path) in sorted(mods, key=str):
                v0 = self.getpath(h.store[root], path)
                nm = self.root_name(root) + ''.join('.' + str(p[1]) for p in path if len(p) > 1)
                h.store[root] = self.setp(h, h.store[root], path, self.havoc_like(v0, nm, h))
            if spec is not None and getattr(spec, 'ghosts', None):
                pass
            return h

        modl = sorted(mods, key=str)
        ccond = {'kind': '&leaves', 'leaves': self.cond_cmps(cond) + self.break_cmps(bdy)}
        lc = LoopCtx(self, st, modl, depth, ccond)
        if spec is not None:
            spec.ghost_init(lc)
        # --- candidate invariants: (name, f(state) -> z3)
        cands = self.generic_cands(st, modl, ccond)
        if spec is not None:
            cands += spec.cands(lc)
        dry = getattr(self, 'nohoudini', 0)
        h = havoc(st)
        lc.havoc_ghosts(h)
        # initiation
        live = []
        for (nm, f) in cands:
            try:
                g = f(st)
            except Unsupported:
                continue
            if g is None:
                continue
            live.append((nm, f))
        if not dry:
            init_ok = []
            goals = [f(st) for (_, f) in live]
            res = self.check_many([(st.pc, g) for g in goals])
            prev = False
            for (c, g, ok) in zip(live, goals, res):
                if c[0] == 'cond-bound-or-entry' and prev:
                    continue                            # the plain bound holds at entry
                prev = ok
                if ok:
                    init_ok.append(c)
                else:
                    self.houdini_log.append((self.fn, 'drop-init', c[0]))
            live = init_ok
            # Houdini
            for _ in range(12):
                h2 = h.fork()
                for (nm, f) in live:
                    h2.assume(f(h2))
                ends, exits, brks, rets = self.quiet(lambda: self.one_iter(cond, inc, bdy, h2.fork()))
                qs, idx = [], []
                for t in ends:
                    if spec is not None:
                        spec.ghost_step(lc, t)
                    for ci, (nm, f) in enumerate(live):
                        qs.append((t.pc, f(t)))
                        idx.append(ci)
                res = self.check_many(qs)
                bad = {ci for ci, ok in zip(idx, res) if not ok}
                if DUMP and bad:
                    for k, (ci, ok, (pc, g)) in enumerate(zip(idx, res, qs)):
                        if not ok:
                            with open('%s/h_%d_%d_%s.smt2' % (DUMP, _, k, re.sub(r'\W+', '_', live[ci][0])[:40]), 'w') as fh:
                                fh.write(solve.smt2(solve.prepare(self.axioms, pc, g, self.opts.get('nosum'))))
                if not bad:
                    break
                for ci in bad:
                    self.houdini_log.append((self.fn, 'drop-step', live[ci][0]))
                live = [c for ci, c in enumerate(live) if ci not in bad]
            for (nm, f) in live:
                self.oblige(st, f(st), 'loop%d/init:%s' % (depth, nm), 'inv')
        else:
            live = []
        hf = h.fork()
        for (nm, f) in live:
            hf.assume(f(hf))
        hstart = hf.fork()
        ends, exits, brks, rets = self.one_iter(cond, inc, bdy, hf)
        for t in ends:
            if spec is not None:
                spec.ghost_step(lc, t)
            for (nm, f) in live:
                self.oblige(t, f(t), 'loop%d/step:%s' % (depth, nm), 'inv')
        # termination
        if not dry and not self.mute and ends and not self.opts.get('partial'):
            ms = None
            if spec is not None:
                ms = spec.variant(lc)
            if ms is None:
                ms = self.generic_variants(st, modl, ccond)
            self.term_oblig(hstart, ends, ms, depth)
        if not dry and not self.mute:
            self.loop_report = getattr(self, 'loop_report', [])
            self.loop_report.append((self.fn, depth, [n for n, _ in live]))
        out = [(t, None) for t in exits] + [(t, None) for t in brks] + rets
        return out

    def term_oblig(self, h, ends, ms, depth):
        if not ms:
            self.oblige(h, z3.BoolVal(False), 'loop%d/terminates:no-variant' % depth, 'term')
            return
        best = None
        for (nm, m) in ms:
            try:
                m0 = m(h)
                goals = [(t.pc, z3.And(m0 >= 0, m(t) < m0)) for t in ends]
            except Unsupported:
                continue
            if best is None:
                best = (nm, goals)
            if len(ms) > 1 and all(self.check_many(goals)):
                best = (nm, goals)
                break
        if best is None:
            self.oblige(h, z3.BoolVal(False), 'loop%d/terminates:no-variant' % depth, 'term')
            return
        for (pc, g) in best[1]:
            if not self.mute:
                self.obls.append(Oblig(self.fn + '/loop%d/terminates:%s' % (depth, best[0]), list(pc), g, 'term'))

    def root_name(self, root):
        if root[0] == 'v':
            return self.vnames.get(root[1]) or (self.u.by_id.get(root[1]) or {}).get('name', 'v')
        return str(root[0])

    def generic_cands(self, st, mods, cond):
        out = []
        lower = lambda r, p: (lambda s: self.getpath(s.store[r], p))
        for (r, p) in mods:
            v0 = self.getpath(st.store[r], p)
            nm = self.root_name(r) + ''.join('.' + str(x[1]) for x in p if len(x) > 1)
            if isinstance(v0, It):
                i0 = v0.idx
                out.append(('it-lb:' + nm, lambda s, r=r, p=p, i0=i0: self.getpath(s.store[r], p).idx >= i0))
                def ub(s, r=r, p=p):
                    it = self.getpath(s.store[r], p)
                    return it.idx <= self.models.container_size(self, s, it)
                out.append(('it-ub:' + nm, ub))
            elif z3.is_expr(v0) and v0.sort() == I:
                out.append(('lb:' + nm, lambda s, r=r, p=p, v0=v0: self.getpath(s.store[r], p) >= v0))
            elif isinstance(v0, VecV):
                out.append(('len>=0:' + nm, lambda s, r=r, p=p: self.getpath(s.store[r], p).n >= 0))
                out.append(('len-same:' + nm, lambda s, r=r, p=p, v0=v0: self.getpath(s.store[r], p).n == v0.n))
            elif isinstance(v0, (MapV, SetV)):
                out.append(('size>=0:' + nm, lambda s, r=r, p=p: self.getpath(s.store[r], p).size >= 0))
        # linear relations between loop counters / cursors
        cur = []
        for (r, p) in mods:
            v0 = self.getpath(st.store[r], p)
            if r[0] in ('v', 'tmp', 'arg') and (isinstance(v0, It) or (z3.is_expr(v0) and v0.sort() == I)):
                cur.append((r, p, v0))
        gi = lambda s, r, p: self.idxv(self.getpath(s.store[r], p))
        for x in range(len(cur)):
            for y in range(x + 1, len(cur)):
                (r1, p1, a0), (r2, p2, b0) = cur[x], cur[y]
                a0, b0 = self.idxv(a0), self.idxv(b0)
                nm = self.root_name(r1) + ',' + self.root_name(r2)
                out.append(('diff:' + nm, lambda s, r1=r1, p1=p1, r2=r2, p2=p2, a0=a0, b0=b0: gi(s, r1, p1) - gi(s, r2, p2) == a0 - b0))
                out.append(('sum:' + nm, lambda s, r1=r1, p1=p1, r2=r2, p2=p2, a0=a0, b0=b0: gi(s, r1, p1) + gi(s, r2, p2) == a0 + b0))
        # bound from the loop condition:  x < E  gives x <= E  (or the loop was not entered)
        def pair(s, l, r_):
            res = self.quiet(lambda: [(t, a, b) for (t, a) in self.ev(l, s.fork()) for (t, b) in self.ev(r_, t)])
            if len(res) != 1:
                raise Unsupported('cond')
            t, a, b = res[0]
            return self.idxv(self.read(t, a)), self.idxv(self.read(t, b))
        for (op, l, r_) in self.cond_cmps(cond):
            def f(s, l=l, r_=r_, op=op):
                a, b = pair(s, l, r_)
                if a.sort() == R and op in ('<=', '>='):
                    raise Unsupported('cond')
                return {'<': lambda: a <= b, '!=': lambda: a <= b, '>': lambda: b <= a, '<=': lambda: a <= b + 1, '>=': lambda: b <= a + 1}[op]()
            def f2(s, l=l, r_=r_, f=f):
                a0, b0 = pair(st, l, r_)
                a, b = pair(s, l, r_)
                if a.sort() == R:
                    raise Unsupported('cond')
                return z3.Or(z3.And(a == a0, b == b0), f(s))
            if op in ('<', '!=', '<=', '>=', '>'):
                out.append(('cond-bound', f))
                out.append(('cond-bound-or-entry', f2))
        return out

    def idxv(self, a):
        if isinstance(a, It):
            return a.idx
        if z3.is_expr(a) and a.sort() in (I, R):
            return a
        raise Unsupported('idx')

    def cond_cmps(self, cond, neg=False):
        """comparison leaves of the condition"""
        if not cond:
            return []
        if cond.get('kind') == '&leaves':
            return cond['leaves']
        k = cond.get('kind')
        inn = A.inner(cond)
        if k in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
            return self.cond_cmps(inn[0], neg)
        if k == 'UnaryOperator' and cond.get('opcode') == '!':
            return self.cond_cmps(inn[0], not neg)
        op = None
        if k == 'BinaryOperator':
            op = cond.get('opcode')
            if op == ('||' if neg else '&&'):
                return self.cond_cmps(inn[0], neg) + self.cond_cmps(inn[1], neg)
            l, r = inn[0], inn[1]
        if k == 'CXXOperatorCallExpr' and len(inn) == 3:
            nm = self.callee_name(inn[0]) or ''
            op = nm[8:] if nm.startswith('operator') else None
            l, r = inn[1], inn[2]
        if neg:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}.get(op)
        if op in ('<', '>', '!=', '<=', '>='):
            return [(op, l, r)]
        return []

    def break_cmps(self, bdy):
        """comparison leaves of the conditions under which the body goes on instead of breaking"""
        out = []
        for s in (A.inner(bdy) if bdy and bdy.get('kind') == 'CompoundStmt' else [bdy] if bdy else []):
            if s.get('kind') == 'IfStmt':
                inn = A.inner(s)
                then = A.inner(inn[1]) if len(inn) > 1 and inn[1].get('kind') == 'CompoundStmt' else inn[1:2]
                if then and then[-1].get('kind') in ('BreakStmt', 'ReturnStmt'):
                    out += self.cond_cmps(inn[0], True)
        return out

    def generic_variants(self, st, mods, cond):
        out = []
        for (op, l, r_) in self.cond_cmps(cond):
            def m(s, l=l, r_=r_, op=op):
                res = self.quiet(lambda: [(t, a, b) for (t, a) in self.ev(l, s.fork()) for (t, b) in self.ev(r_, t)])
                if len(res) != 1:
                    raise Unsupported('cond')
                t, a, b = res[0]
                a, b = self.idxv(self.read(t, a)), self.idxv(self.read(t, b))
                if a.sort() == R or b.sort() == R:
                    raise Unsupported('real variant')
                return b - a if op in ('<', '!=', '<=') else a - b
            out.append(('%s' % op, m))
            if op == '!=':
                out.append(('!=r', lambda s, m=m: -m(s)))
        return out

    def check_many(self, qs):
        """quick validity checks used for candidate filtering -> list of bool"""
        from . import solve
        return solve.check_many(self, qs)

    # -------------------------------------------------------------- expressions
    def boolv(self, st, x):
        x = self.read(st, x)
        x = lift(x)
        if z3.is_expr(x):
            if x.sort() == B:
                return x
            return x != 0
        raise Unsupported('boolean value of %r' % (x,))

    def ev(self, e, st, want=None):
        k = e.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.unsupported(e)
        return m(e, st)

    def ev_list(self, es, st):
        """evaluate expressions left to right -> list of (state, [values])"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for (t, vs) in cur:
                for (t2, v) in self.ev(e, t):
                    nxt.append((t2, vs + [v]))
            cur = nxt
        return cur

    def rv(self, e, st):
        return [(t, self.read(t, x)) for (t, x) in self.ev(e, st)]

    def e_passthrough(self, e, st):
        return self.ev(A.inner(e)[0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_passthrough

    def e_SubstNonTypeTemplateParmExpr(self, e, st):
        return self.ev(A.inner(e)[-1], st)      # (a declaration of the parameter may come first)

    e_CXXStdInitializerListExpr = e_FullExpr = e_passthrough

    def e_MaterializeTemporaryExpr(self, e, st):
        out = []
        for (t, x) in self.ev(A.inner(e)[0], st):
            out.append((t, x if isinstance(x, LV) else self.new_tmp(t, x)))
        return out

    def e_IntegerLiteral(self, e, st):
        return [(st, z3.IntVal(int(e['value'])))]

    def e_CharacterLiteral(self, e, st):
        return [(st, z3.IntVal(int(e['value'])))]

    def e_FloatingLiteral(self, e, st):
        from fractions import Fraction
        fr = Fraction(repr(float(e['value'])))          # the shortest decimal that denotes the same double: what was written
        return [(st, z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)))]

    def e_CXXBoolLiteralExpr(self, e, st):
        return [(st, z3.BoolVal(bool(e['value'])))]

    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get('name') == 'sizeof':
            T = e['argType'].get('desugaredQualType') or e['argType'].get('qualType') if 'argType' in e else A.qt(A.inner(e)[0])
            m = re.match(r'(?:const )?([a-z ]+?) *(?:\[(\d+)\])?$', T)
            sz = {'char': 1, 'bool': 1, 'int': 4, 'unsigned int': 4, 'short': 2, 'unsigned short': 2, 'unsigned char': 1, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
            if m and m.group(1) in sz:
                return [(st, z3.IntVal(sz[m.group(1)] * int(m.group(2) or 1)))]
        self.unsupported(e)

    def e_StringLiteral(self, e, st):
        return [(st, Obj('str', s=e.get('value')))]

    e_PredefinedExpr = e_StringLiteral

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return [(st, z3.IntVal(0))]

    def e_GNUNullExpr(self, e, st):
        return [(st, z3.IntVal(0))]

    def e_CXXDefaultArgExpr(self, e, st):
        raise Unsupported('default argument')

    def e_CXXThisExpr(self, e, st):
        return [(st, st.store[('this', self.frame)])]

    def e_ImplicitValueInitExpr(self, e, st):
        return [(st, self.default(parse_type(A.qt(e))))]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_InitListExpr(self, e, st):
        T = parse_type(A.qt(e))
        inn = [c for c in A.inner(e)]
        if T.k in ('vec', 'arr'):
            out = []
            for (t, vs) in self.ev_list(inn, st):
                arr = z3.Const(fname('il'), z3.ArraySort(I, sort_of(T[1])))
                n = T[2] if T.k == 'arr' else len(vs)
                for i, v in enumerate(vs):
                    arr = z3.Store(arr, i, pack(self.coerce(t, self.read(t, v), T[1]), T[1]))
                if T.k == 'arr' and 'array_filler' in e:
                    for i in range(len(vs), n):
                        arr = z3.Store(arr, i, pack(self.default(T[1]), T[1]))
                out.append((t, VecV(z3.IntVal(n), arr, T[1])))
            return out
        if T.k == 'cls':
            c = self.u.find_class(T[1])
            if c:
                fs = self.all_fields(c)
                out = []
                for (t, vs) in self.ev_list(inn, st):
                    d = {}
                    for i, (n, ft, _) in enumerate(fs):
                        d[n] = self.coerce(t, self.read(t, vs[i]), ft) if i < len(vs) else self.default(ft)
                    out.append((t, Rec(c, d)))
                return out
            m = self.models.init_list(self, T, inn, st)
            if m is not None:
                return m
        if len(inn) == 1:
            return self.ev(inn[0], st)
        if not inn:
            return [(st, self.default(T))]
        self.unsupported(e, A.qt(e))

    def e_DeclRefExpr(self, e, st):
        r = e['referencedDecl']
        k = r['kind']
        if k in ('ParmVarDecl', 'VarDecl', 'DecompositionDecl'):
            root = ('v', r['id'], self.frame)
            if root not in st.store:
                # captured from an enclosing frame (lambda) or a global
                for f in reversed(self.lambda_frames):
                    if ('v', r['id'], f) in st.store:
                        root = ('v', r['id'], f)
                        break
                else:
                    return self.global_var(e, r, st)
            v = st.store[root]
            T = parse_type(r['type'].get('desugaredQualType') or r['type']['qualType'])
            if isinstance(v, PtrTo) and T.k == 'ref':
                return [(st, v.lv)]
            return [(st, LV(root))]
        if k == 'EnumConstantDecl':
            return [(st, self.models.enum_const(self, e, r))]
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, Obj('fn', decl=r))]
        if k == 'NonTypeTemplateParmDecl':
            self.unsupported(e, 'template parameter')
        self.unsupported(e, k)

    lambda_frames = ()

    def global_var(self, e, r, st):
        d = self.u.by_id.get(r['id'])
        if d is not None:
            init = [c for c in A.inner(d) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            if init and self.is_const(d):
                out = []
                for (t, x) in self.ev(init[-1], st):
                    out.append((t, self.new_tmp(t, self.read(t, x)) if not isinstance(x, LV) else x))
                return out
        v = self.models.global_var(self, e, r, st)
        if v is None:
            self.unsupported(e, 'global ' + str(r.get('name')))
        return [(st, v)]

    def e_MemberExpr(self, e, st):
        inn = A.inner(e)
        name = e.get('name')
        d = self.u.by_id.get(e.get('referencedMemberDecl'))
        if d is not None and d.get('kind') == 'VarDecl':       # static member
            return self.global_var(e, d, st)
        out = []
        for (t, b) in self.ev(inn[0], st):
            lv = self.deref(t, b) if e.get('isArrow') else b
            if isinstance(lv, LV):
                if isinstance(lv.root, tuple) and lv.root[0] == 'heapobj':
                    out += self.models.heap_field(self, e, t, lv, name)
                    continue
                # iterator-entry pair access
                x = lv.sub(('f', name))
                v = self.read(t, lv)
                if isinstance(v, Rec) and name in v.f and isinstance(v.f[name], PtrTo) and getattr(v.f[name], 'isref', False):
                    out.append((t, v.f[name].lv))
                else:
                    out.append((t, x))
            elif isinstance(lv, (Rec, PairV)):
                out.append((t, self.getp(t, lv, ('f', name))))
            else:
                r = self.models.member_field(self, e, t, lv, name)
                if r is None:
                    self.unsupported(e, 'member %s of %r' % (name, lv))
                out += r
        return out

    def deref(self, st, p):
        """pointer value -> LV"""
        p = self.read(st, p)
        if isinstance(p, PtrTo):
            return p.lv
        if isinstance(p, It):
            return self.models.it_deref(self, st, p)
        if z3.is_expr(p) and p.sort() == I:
            return LV(('heapobj', p))
        raise Unsupported('deref of %r' % (p,))

    def e_UnaryOperator(self, e, st):
        op = e['opcode']
        sub = A.inner(e)[0]
        T = parse_type(A.qt(e))
        out = []
        if op == '&':
            for (t, x) in self.ev(sub, st):
                if not isinstance(x, LV):
                    self.unsupported(e, 'address of rvalue')
                if x.root[0] == 'heapobj' and not x.path:
                    out.append((t, x.root[1]))
                else:
                    out.append((t, PtrTo(x)))
            return out
        if op == '*':
            for (t, x) in self.ev(sub, st):
                out.append((t, self.deref(t, x)))
            return out
        if op in ('++', '--'):
            for (t, x) in self.ev(sub, st):
                v = self.read(t, x)
                nv = self.arith(t, '+' if op == '++' else '-', v, z3.IntVal(1), T)
                self.write(t, x, nv)
                out.append((t, v if e.get('isPostfix') else x))
            return out
        for (t, v) in self.rv(sub, st):
            if op == '!':
                out.append((t, z3.Not(self.boolv(t, v))))
            elif op == '-':
                v = lift(v)
                if v.sort() == B:
                    v = tosort(v, T_INT)
                out.append((t, self.fl(t, -v) if False else -v))
            elif op == '+':
                out.append((t, v))
            else:
                self.unsupported(e, op)
        return out

    def fl(self, st, x):
        """rounding of a floating-point result (identity unless opts['fl'])"""
        if self.opts['fl']:
            from . import models
            return models.FL(x)
        return x

    def arith(self, st, op, a, b, T):
        a, b = lift(a), lift(b)
        if isinstance(a, (PtrTo,)) and isinstance(a.lv, LV) and a.lv.path and a.lv.path[-1][0] == 'at' and op in '+-':
            p = a.lv.path[-1]
            return PtrTo(LV(a.lv.root, a.lv.path[:-1] + (('at', p[1] + b if op == '+' else p[1] - b),)))
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('arith on %r %s %r' % (a, op, b))
        if T.k == 'real':
            a, b = tosort(a, T_REAL), tosort(b, T_REAL)
            if op == '+':
                return self.fl(st, a + b)
            if op == '-':
                return self.fl(st, a - b)
            if op == '*':
                return self.fl(st, a * b)
            if op == '/':
                if self.opts.get('divzero', True):
                    self.oblige(st, b != 0, 'safety:division-by-nonzero')
                return self.fl(st, a / b)
        if T.k in ('int', 'ptr', 'bool'):
            a, b = tosort(a, T_INT), tosort(b, T_INT)
            if op == '+':
                return z3.simplify(a + b) if z3.is_int_value(a) and z3.is_int_value(b) else a + b
            if op == '-':
                if T.k == 'int' and not T[1] and self.opts['unsigned']:
                    self.oblige(st, a >= b, 'safety:unsigned-subtraction')
                return z3.simplify(a - b) if z3.is_int_value(a) and z3.is_int_value(b) else a - b
            if op == '*':
                return a * b
            if op in '/%':
                self.oblige(st, b != 0, 'safety:division-by-nonzero')
                nonneg = (T.k == 'int' and not T[1])
                if op == '/':
                    if nonneg:
                        return a / b
                    q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                    return z3.simplify(q) if z3.is_int_value(a) and z3.is_int_value(b) else q
                if nonneg:
                    return a % b
                ab = z3.If(b > 0, b, -b)
                return z3.If(a >= 0, a % ab, -((-a) % ab))
            if op == '<<' and z3.is_int_value(b):
                return a * (2 ** b.as_long())
            if op == '>>' and z3.is_int_value(b):
                return a / (2 ** b.as_long())
        raise Unsupported('arith %s on %r' % (op, T))

    def compare(self, st, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            a, b = a.idx, b.idx
        if isinstance(a, PtrTo) or isinstance(b, PtrTo):
            return self.ptr_cmp(st, op, a, b)
        a, b = lift(a), lift(b)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            r = eqv(a, b)
            return r if op == '==' else z3.Not(r)
        if a.sort() == B and b.sort() == B:
            return a == b if op == '==' else (a != b)
        if a.sort() == R or b.sort() == R:
            a, b = tosort(a, T_REAL), tosort(b, T_REAL)
        elif a.sort() == I or b.sort() == I:
            a, b = tosort(a, T_INT), tosort(b, T_INT)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b,
                '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()

    def ptr_cmp(self, st, op, a, b):
        def key(x):
            if isinstance(x, PtrTo):
                return x
            return None
        if isinstance(a, PtrTo) and isinstance(b, PtrTo):
            if a.lv.root == b.lv.root and len(a.lv.path) == len(b.lv.path):
                fs = []
                for p, q in zip(a.lv.path, b.lv.path):
                    if p[0] != q[0]:
                        r = z3.BoolVal(False)
                        break
                    for u, v in zip(p[1:], q[1:]):
                        if z3.is_expr(u) or z3.is_expr(v):
                            fs.append(lift(u) == lift(v))
                        elif u != v:
                            fs.append(z3.BoolVal(False))
                else:
                    r = z3.And(fs) if fs else z3.BoolVal(True)
            else:
                r = self.alias.get(frozenset((str(a.lv.root), str(b.lv.root))), z3.BoolVal(False))
        else:
            o = b if isinstance(a, PtrTo) else a
            if z3.is_int_value(o) and o.as_long() == 0:
                r = z3.BoolVal(False)
            else:
                raise Unsupported('pointer comparison %r %r' % (a, b))
        if op == '==':
            return r
        if op == '!=':
            return z3.Not(r)
        raise Unsupported('pointer order')

    alias = {}

    def e_BinaryOperator(self, e, st):
        op = e['opcode']
        l, r = A.inner(e)
        T = parse_type(A.qt(e))
        out = []
        if op == ',':
            for (t, _) in self.ev(l, st):
                out += self.ev(r, t)
            return out
        if op == '=':
            for (t, y) in self.ev(r, st):          # value first, then target
                y = self.read(t, y)
                for (t2, x) in self.ev(l, t):
                    LT = parse_type(A.qt(l))
                    self.write(t2, x, self.coerce(t2, y, LT))
                    out.append((t2, x))
            return out
        if op in ('&&', '||'):
            for (t, a) in self.rv(l, st):
                a = self.boolv(t, a)
                sa = z3.simplify(a)
                if z3.is_true(sa) or z3.is_false(sa):
                    if z3.is_true(sa) == (op == '&&'):
                        out += [(t2, self.boolv(t2, b)) for (t2, b) in self.rv(r, t)]
                    else:
                        out.append((t, sa))
                    continue
                t1 = t.fork()
                g = a if op == '&&' else z3.Not(a)
                t1.assume(g)
                npc, keys = len(t1.pc), dict(t1.store)
                res = self.rv(r, t1)
                if len(res) == 1 and len(res[0][0].pc) == npc and all(res[0][0].store.get(q) is keys[q] for q in keys):
                    b = self.boolv(res[0][0], res[0][1])
                    out.append((t, z3.And(a, b) if op == '&&' else z3.Or(a, b)))
                else:
                    for (t2, b) in res:
                        out.append((t2, self.boolv(t2, b)))
                    t3 = t.fork()
                    t3.assume(z3.Not(g))
                    out.append((t3, z3.BoolVal(op == '||')))
            return out
        for (t, vs) in self.ev_list([l, r], st):
            a, b = self.read(t, vs[0]), self.read(t, vs[1])
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((t, self.compare(t, op, a, b)))
            else:
                if isinstance(a, PtrTo) and isinstance(b, PtrTo) and op == '-':
                    out.append((t, a.lv.path[-1][1] - b.lv.path[-1][1]))
                    continue
                out.append((t, self.arith(t, op, a, b, T)))
        return out

    def e_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        l, r = A.inner(e)
        CT = parse_type((e.get('computeResultType') or e['type']).get('desugaredQualType') or (e.get('computeResultType') or e['type']).get('qualType'))
        LT = parse_type(A.qt(l))
        out = []
        for (t, y) in self.rv(r, st):
            for (t2, x) in self.ev(l, t):
                v = self.read(t2, x)
                nv = self.arith(t2, op, v, y, CT)
                if CT.k == 'real' and LT.k == 'int':
                    nv = self.models.trunc(nv)
                self.write(t2, x, nv)
                out.append((t2, x))
        return out

    def e_ConditionalOperator(self, e, st):
        c, a, b = A.inner(e)
        out = []
        for (t, cv) in self.ev(c, st):
            cv = self.boolv(t, cv)
            x, y = self.branch(t, cv)
            if x is not None:
                out += self.ev(a, x)
            if y is not None:
                out += self.ev(b, y)
        return out

    def e_ArraySubscriptExpr(self, e, st):
        b, i = A.inner(e)
        out = []
        for (t, vs) in self.ev_list([b, i], st):
            p, ix = self.read(t, vs[0]), self.read(t, vs[1])
            if isinstance(vs[0], LV) and isinstance(p, VecV):
                lv = vs[0]
            elif isinstance(p, PtrTo):
                lv = p.lv
                if lv.path and lv.path[-1][0] == 'at':
                    base = LV(lv.root, lv.path[:-1])
                    cont = self.read(t, base)
                    k = lv.path[-1][1] + ix
                    self.oblige(t, z3.And(0 <= k, k < cont.n), 'safety:array-bounds')
                    out.append((t, base.sub(('at', k))))
                    continue
            else:
                self.unsupported(e)
            cont = self.read(t, lv)
            if not isinstance(cont, VecV):
                self.unsupported(e, 'subscript')
            self.oblige(t, z3.And(0 <= ix, ix < cont.n), 'safety:array-bounds')
            out.append((t, lv.sub(('at', ix))))
        return out

    # casts
    def e_ImplicitCastExpr(self, e, st):
        return self.cast(e, st)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def cast(self, e, st):
        ck = e.get('castKind')
        sub = A.inner(e)[-1] if len(A.inner(e)) == 1 else [c for c in A.inner(e)][-1]
        T = parse_type(A.qt(e))
        out = []
        if ck == 'LValueToRValue':
            for (t, x) in self.ev(sub, st):
                v = self.read(t, x)
                if isinstance(v, Uninit) and v.T.k in ('int', 'real', 'bool', 'ptr'):
                    self.oblige(t, z3.BoolVal(False), 'safety:read-of-uninitialised')
                    v = self.fresh(v.T, 'uninit')
                out.append((t, v))
            return out
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion',
                  'FunctionToPointerDecay', 'BitCast', 'BuiltinFnToFnPtr', 'ToVoid', 'Dynamic', 'LValueBitCast'):
            return self.ev(sub, st)
        if ck == 'ArrayToPointerDecay':
            for (t, x) in self.ev(sub, st):
                if isinstance(x, LV) and isinstance(self.read(t, x), VecV):
                    out.append((t, PtrTo(x.sub(('at', z3.IntVal(0))))))
                else:
                    out.append((t, x))
            return out
        if ck == 'NullToPointer':
            return [(st, z3.IntVal(0))]
        for (t, v) in self.rv(sub, st):
            if ck == 'IntegralCast':
                v = lift(v)
                FT = parse_type(A.qt(sub))
                if v.sort() == B:
                    v = tosort(v, T_INT)
                if T.k == 'int' and not T[1] and FT.k == 'int' and FT[1]:
                    if z3.is_int_value(v):
                        n = v.as_long()
                        v = z3.IntVal(n if n >= 0 else n + 2 ** T[2])
                    elif not self.known_nonneg(t, v):
                        v = z3.If(v >= 0, v, v + 2 ** T[2])
                out.append((t, v))
            elif ck in ('IntegralToFloating',):
                out.append((t, tosort(lift(v), T_REAL)))
            elif ck == 'FloatingToIntegral':
                out.append((t, self.models.trunc(lift(v))))
            elif ck == 'FloatingCast':
                out.append((t, v))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                if isinstance(v, PtrTo):
                    out.append((t, z3.BoolVal(True)))
                else:
                    v = lift(v)
                    out.append((t, v if v.sort() == B else v != 0))
            elif ck in ('BooleanToSignedIntegral',):
                out.append((t, tosort(v, T_INT)))
            else:
                self.unsupported(e, str(ck))
        return out

    def known(self, st, c):
        """is c known to hold (False: not known)"""
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        s = z3.Solver()
        s.set('timeout', 150)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.add(*(list(self.axioms) + list(st.pc)))
        s.add(z3.Not(c))
        return solve.quick_check(s) == z3.unsat

    def known_nonneg(self, st, v):
        s = z3.Solver()
        s.set('timeout', 200)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.add(*[f for f in st.pc])
        s.add(v < 0)
        return solve.quick_check(s) == z3.unsat

    # -------------------------------------------------------------- calls
    def e_CXXThrowExpr(self, e, st):
        sub = A.inner(e)
        cls = '?'
        if sub:
            cls = A.qt(sub[0])
        elif True:
            cls = self.handling.cls if getattr(self, 'handling', None) else 'rethrow'
        self.sink.append((st, Exc(cls)))
        return []

    def callee_name(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            n = A.inner(n)[0]
        if n.get('kind') == 'DeclRefExpr':
            return n['referencedDecl'].get('name')
        if n.get('kind') == 'MemberExpr':
            return n.get('name')
        return None

    def callee_ref(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            n = A.inner(n)[0]
        return n

    def find_def(self, did):
        return self.u.defs.get(did)

    def e_CallExpr(self, e, st):
        inn = A.inner(e)
        ref = self.callee_ref(inn[0])
        args = inn[1:]
        if ref.get('kind') == 'DeclRefExpr':
            d = self.find_def(ref['referencedDecl']['id'])
            name = ref['referencedDecl'].get('name')
            if d is not None and name not in self.opts.get('assumed', ()):
                return self.call_def(e, d, None, args, st)
            d2 = self.u.by_id.get(ref['referencedDecl']['id'])
            return self.models.call_function(self, e, ref, name, args, st)
        if ref.get('kind') == 'MemberExpr':     # static member called through object
            d = self.find_def(ref.get('referencedMemberDecl'))
            if d is not None:
                return self.call_def(e, d, None, args, st)
        self.unsupported(e, 'callee')

    def e_CXXMemberCallExpr(self, e, st):
        inn = A.inner(e)
        me = inn[0]
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            me = A.inner(me)[0]
        if me.get('kind') != 'MemberExpr':
            self.unsupported(e, 'callee ' + str(me.get('kind')))
        name = me.get('name')
        args = inn[1:]
        bexp = A.inner(me)[0]
        did = me.get('referencedMemberDecl')
        out = []
        assumed = name in self.opts.get('assumed', ())
        # call of a member of a base class on the current object
        if not assumed and bexp.get('kind') == 'ImplicitCastExpr' and bexp.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase') and \
                A.inner(bexp)[0].get('kind') == 'CXXThisExpr' and self.callstack and self.callstack[-1].split('::')[-1] == name:
            d = self.find_def(did)
            for (t, b) in self.ev(bexp, st):
                lv = self.deref(t, b)
                if d is not None:
                    out += self.call_def(e, d, lv, args, t)
                elif name == 'operator=' and self.u.by_id.get(did) is None:
                    for (t2, _) in self.ev_list(args, t):
                        out.append((t2, lv))
                else:
                    self.unsupported(e, 'base member ' + str(name))
            return out
        for (t, b) in self.ev(bexp, st):
            if me.get('isArrow'):
                lv = self.deref(t, b)
            else:
                lv = b if isinstance(b, LV) else self.new_tmp(t, b)
            d = None if assumed else self.find_def(did)
            obj = None
            if not (isinstance(lv.root, tuple) and lv.root[0] == 'heapobj'):
                obj = self.read(t, lv)
            if isinstance(obj, Rec) and not assumed:
                d = self.dispatch(obj, d, did, name, args) or d
            if d is None and isinstance(obj, Rec):        # pure virtual member: by its contract
                dec = self.u.by_id.get(did)
                if dec is not None and dec.get('pure'):
                    dec = dict(dec, _owner=dec.get('_owner') or obj.cls)
                    if self.find_contract(dec) is not None:
                        d = dec
            if d is not None and (obj is None or isinstance(obj, Rec)):
                out += self.call_def(e, d, lv, args, t)
            else:
                out += self.models.call_member(self, e, me, t, lv, obj, name, args)
        return out

    def dispatch(self, obj, d, did, name, args):
        """virtual dispatch: most derived definition of a virtual method for obj.cls"""
        dec = self.u.by_id.get(did)
        if dec is not None and not dec.get('virtual') and not (d or {}).get('virtual'):
            # overriding functions need not repeat 'virtual' but the root decl has it
            return d
        cand = self.find_override(obj.cls, name, dec, args)
        return cand or d

    def find_override(self, cls, name, dec, args):
        ms = self.u.methods.get(cls, {}).get(name, [])
        sig = None
        if dec is not None:
            sig = dec['type']['qualType']
        for m in ms:
            if sig is None or m['type']['qualType'] == sig:
                return m
        if sig is not None:
            for m in ms:
                if len(A.params(m)) == len(args) and ('const' == m['type']['qualType'].split()[-1]) == ('const' == sig.split()[-1]):
                    return m
        for b in self.u.bases(cls):
            bc = self.u.find_class(b)
            if bc:
                r = self.find_override(bc, name, dec, args)
                if r is not None:
                    return r
        return None

    def qname(self, d):
        o = d.get('_owner')
        return (o + '::' if o else '') + d.get('name', '?')

    def arg_exprs(self, d, args, st):
        """evaluate call arguments against parameters, default arguments from the declaration"""
        ps = A.params(d)
        cur = [(st, [])]
        for i, p in enumerate(ps):
            nxt = []
            T = parse_type(A.qt(p))
            for (t, vs) in cur:
                if i < len(args) and args[i].get('kind') != 'CXXDefaultArgExpr':
                    r = self.ev(args[i], t, want=T)
                else:
                    dflt = self.default_arg(d, i)
                    if dflt is None:
                        raise Unsupported('default argument of %s' % self.qname(d))
                    r = self.ev(dflt, t)
                for (t2, x) in r:
                    if T.k == 'ref':
                        if not isinstance(x, LV):
                            x = self.new_tmp(t2, x)
                        nxt.append((t2, vs + [x]))
                    else:
                        nxt.append((t2, vs + [self.coerce(t2, self.read(t2, x), T)]))
            cur = nxt
        return cur

    def default_arg(self, d, i):
        decls = [d]
        r = d.get('_root')
        if r and r in self.u.by_id:
            decls.append(self.u.by_id[r])
        for x in decls:
            ps = A.params(x)
            if i < len(ps):
                init = [c for c in A.inner(ps[i]) if not c.get('kind', '').endswith(('Attr', 'Comment'))]
                if init:
                    return init[-1]
        return None

    def call_def(self, e, d, this_lv, args, st):
        out = []
        q = self.qname(d)
        for (t, vs) in self.arg_exprs(d, args, st):
            out += self.invoke(d, this_lv, vs, t)
        return out

    def invoke(self, d, this_lv, vs, t):
        con = self.find_contract(d)
        if con is not None and con is not self.cur_root and con.modular:
            return self.call_contract(con, d, this_lv, vs, t)
        return self.inline(d, this_lv, vs, t)

    cur_root = None

    def find_contract(self, d):
        k = (A.norm_cls(self.qname(d)), len(A.params(d)))
        cst = 'CONST' if d['type']['qualType'].rstrip().endswith('const') else 'NONCONST'
        return self.contracts.get(k + (self.sigtag(d),)) or self.contracts.get(k + (cst,)) or self.contracts.get(k + (None,))

    def sigtag(self, d):
        return d['type']['qualType']

    def inline(self, d, this_lv, vs, st):
        q = self.qname(d)
        if self.callstack.count(q) >= 2 or len(self.callstack) > self.opts['maxinline']:
            raise Unsupported('recursion in %s' % q)
        if self.callstack:
            self.inlined.add(q)
        save = (self.frame, self.ret_is_ref, self.ret_ty)
        self.frames += 1
        fr = self.frames
        if this_lv is not None:
            st.store[('this', fr)] = PtrTo(this_lv)
        for p, v in zip(A.params(d), vs):
            T = parse_type(A.qt(p))
            st.store[('v', p['id'], fr)] = PtrTo(v) if T.k == 'ref' else v
        rt = d['type']['qualType']
        rett = self.ret_type(d)
        self.frame = fr
        self.ret_is_ref = rett.k == 'ref'
        self.ret_ty = rett if rett.k not in ('ref', 'cls', 'void') else None
        self.callstack.append(q)
        try:
            if d['kind'] == 'CXXConstructorDecl':
                res = self.run_ctor(d, this_lv, st)
            else:
                res = self.exec(A.body(d), st)
        finally:
            self.callstack.pop()
            self.frame, self.ret_is_ref, self.ret_ty = save
        out = []
        for (t, o) in res:
            if o is None:
                out.append((t, None))
            elif isinstance(o, tuple) and o[0] == 'ret':
                out.append((t, o[1]))
            else:
                raise Unsupported('break outside loop')
        return out

    def ret_type(self, d):
        q = d['type']['qualType']
        # strip parameter list: return type is before the matching '('
        depth = 0
        for i, ch in enumerate(q):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == '(' and depth == 0:
                r = q[:i].strip()
                break
        else:
            r = q
        r = d.get('_ret') or r
        T = parse_type(r)
        if T.k == 'cls':
            # typedef return: look for a desugared type on return statements is unreliable; keep ref-ness only
            pass
        if r.endswith('&'):
            return Ty('ref', parse_type(r[:-1]))
        return T

    # ------------------------------------------------------------ constructors
    def run_ctor(self, d, this_lv, st):
        cls = d.get('_owner')
        cur = [st]
        inits = [c for c in A.inner(d) if c.get('kind') == 'CXXCtorInitializer']
        done = set()
        for c in inits:
            nxt = []
            for t in cur:
                if 'anyInit' in c:
                    n = c['anyInit'].get('name')
                    FT = parse_type((c['anyInit'].get('type') or {}).get('desugaredQualType') or (c['anyInit'].get('type') or {}).get('qualType', ''))
                    ex = A.inner(c)[0]
                    if ex.get('kind') == 'CXXDefaultInitExpr':
                        fd = [f for (fn_, ft, f) in self.all_fields(cls) if fn_ == n][0]
                        ex = [x for x in A.inner(fd)][-1]
                    for (t2, x) in self.ev(ex, t, want=FT):
                        if FT.k == 'ref':
                            p = PtrTo(x if isinstance(x, LV) else self.new_tmp(t2, x))
                            p.isref = True
                            self.write(t2, this_lv.sub(('f', n)), p)
                        else:
                            self.write(t2, this_lv.sub(('f', n)), self.coerce(t2, self.read(t2, x), FT))
                        nxt.append(t2)
                elif 'baseInit' in c:
                    ex = A.inner(c)[0]
                    nxt += self.base_ctor(ex, c, this_lv, t)
                elif 'delegatingInit' in c:
                    ex = A.inner(c)[0]
                    nxt += self.base_ctor(ex, c, this_lv, t, key='delegatingInit')
                else:
                    self.unsupported(c)
            cur = nxt
        out = []
        for t in cur:
            out += self.exec(A.body(d), t)
        return out

    def base_ctor(self, ex, c, this_lv, st, key='baseInit'):
        while ex.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr'):
            ex = A.inner(ex)[0]
        T = c[key].get('desugaredQualType') or c[key].get('qualType')
        cls = self.u.find_class(T)
        if cls is None:
            return self.models.base_ctor(self, T, ex, this_lv, st)
        d = self.match_ctor(cls, ex)
        args = A.inner(ex)
        if d is None:
            if not args:
                return [st]
            if len(args) == 1:       # implicit copy/move of a base
                out = []
                for (t, x) in self.ev(args[0], st):
                    v = self.read(t, x)
                    for (n, ft, _) in self.all_fields(cls):
                        self.write(t, this_lv.sub(('f', n)), v.f[n])
                    out.append(t)
                return out
            self.unsupported(ex, 'no constructor definition for ' + cls)
        return [t for (t, _) in self.call_def(ex, d, this_lv, args, st)]

    def match_ctor(self, cls, ex):
        want = (ex.get('ctorType') or {}).get('qualType')
        short = self.u.classes[cls].get('name')
        for m in self.u.methods.get(cls, {}).get(short, []):
            if m['kind'] == 'CXXConstructorDecl' and m['type']['qualType'] == want:
                return m
        ms = [m for m in self.u.methods.get(cls, {}).get(short, []) if m['kind'] == 'CXXConstructorDecl']
        w = A.norm_cls(want or '')
        for m in ms:
            if A.norm_cls(m['type']['qualType']) == w:
                return m
        return None

    def new_rec(self, cls):
        d = {}
        for (n, t, _) in self.all_fields(cls):
            d[n] = self.default(t) if t.k in ('vec', 'map', 'set', 'str') or (t.k == 'eig' and -1 in (t[2], t[3])) else Uninit(t)
            if t.k == 'cls':
                c = self.u.find_class(t[1])
                if c:
                    d[n] = self.new_rec(c)
        return Rec(cls, d)

    def e_CXXConstructExpr(self, e, st):
        T = parse_type(A.qt(e))
        args = A.inner(e)
        if T.k == 'cls':
            cls = self.u.find_class(T[1])
            if cls is not None and not any(cls.startswith(a) for a in self.opts.get('assumed', ())):
                return self.construct_cls(e, cls, args, st)
        return self.models.construct(self, e, T, args, st)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_cls(self, e, cls, args, st):
        d = self.match_ctor(cls, e)
        if d is None:
            if len(args) == 1:
                return self.rv(args[0], st)      # implicit copy / move
            if not args:
                return [(st, self.new_rec(cls))]
            # implicit ctor
            self.unsupported(e, 'constructor of ' + cls)
        if len(args) == 1 and d.get('isImplicit'):
            return self.rv(args[0], st)
        lv = self.new_tmp(st, self.new_rec(cls), 'obj')
        out = []
        for (t, _) in self.call_def(e, d, lv, args, st):
            out.append((t, self.read(t, lv)))
        return out

    def e_CXXOperatorCallExpr(self, e, st):
        inn = A.inner(e)
        name = self.callee_name(inn[0])
        ref = self.callee_ref(inn[0])
        did = ref.get('referencedDecl', {}).get('id')
        d = self.find_def(did) if did else None
        args = inn[1:]
        if name == 'operator<<' and self.opts.get('mute') and self.console_output(e):
            return [(st, Obj('stream'))]
        if d is not None:
            if d['kind'] == 'CXXMethodDecl':
                out = []
                for (t, b) in self.ev(args[0], st):
                    lv = b if isinstance(b, LV) else self.new_tmp(t, b)
                    obj = self.read(t, lv)
                    if isinstance(obj, Obj):        # modelled object: not by the body
                        out += self.models.call_operator(self, e, name, args, st)
                        continue
                    d2 = self.dispatch(obj, d, did, name, args[1:]) if isinstance(obj, Rec) else d
                    out += self.call_def(e, d2, lv, args[1:], t)
                return out
            return self.call_def(e, d, None, args, st)
        return self.models.call_operator(self, e, name, args, st)

    PURE_CALLS = ('row', 'col', 'norm', 'transpose', 'size', 'rows', 'cols', 'getParameters', 'head', 'tail', 'segment', 'diagonal')
    def console_output(self, e):
        """text written to the console, of expressions that cannot change anything"""
        a = e
        while a.get('kind') == 'CXXOperatorCallExpr' and self.callee_name(A.inner(a)[0]) == 'operator<<':
            a = A.inner(a)[1]
            while a.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                a = A.inner(a)[0]
        if a.get('kind') != 'DeclRefExpr' or a.get('referencedDecl', {}).get('name') not in ('cout', 'cerr', 'clog'):
            return False
        def pure(x):
            k = x.get('kind')
            if k in ('CompoundAssignOperator', 'CXXNewExpr', 'CXXDeleteExpr', 'LambdaExpr', 'CallExpr') or k == 'BinaryOperator' and x.get('opcode') == '=' or k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                return False
            if k == 'CXXMemberCallExpr' and A.inner(x)[0].get('name') not in self.PURE_CALLS:
                return False
            if k == 'CXXOperatorCallExpr' and self.callee_name(A.inner(x)[0]) not in ('operator<<', 'operator*', 'operator->', 'operator[]', 'operator()', 'operator+', 'operator-', 'operator/'):
                return False
            return all(pure(y) for y in A.inner(x) if isinstance(y, dict))
        return pure(e)

    def e_LambdaExpr(self, e, st):
        # closure: reference the operator() body; captures by reference to the current frame (default), by copy unsupported if mutated
        rec = [c for c in A.inner(e) if c.get('kind') == 'CXXRecordDecl']
        op = None
        if rec:
            for m in A.inner(rec[0]):
                if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                    op = m
        if op is None:
            self.unsupported(e)
        if A.body(op) is None:
            b = [c for c in A.inner(e) if c.get('kind') == 'CompoundStmt']
            if not b:
                self.unsupported(e, 'lambda body')
            op = dict(op)
            op['inner'] = list(A.inner(op)) + b
        thisp = st.store.get(('this', self.frame))
        return [(st, Obj('lambda', op=op, frame=self.frame, thisp=thisp))]

    def call_lambda(self, lam, vs, st):
        """vs: list of LV or values"""
        d = lam.op
        save = (self.frame, self.ret_is_ref, self.ret_ty, self.lambda_frames)
        self.frames += 1
        fr = self.frames
        if lam.thisp is not None:
            st.store[('this', fr)] = lam.thisp
        for p, v in zip(A.params(d), vs):
            T = parse_type(A.qt(p))
            if T.k == 'ref':
                if not isinstance(v, LV):
                    v = self.new_tmp(st, v)
                st.store[('v', p['id'], fr)] = PtrTo(v)
            else:
                st.store[('v', p['id'], fr)] = self.coerce(st, self.read(st, v), T)
        self.lambda_frames = tuple(self.lambda_frames) + (lam.frame,)
        self.frame = fr
        self.ret_is_ref = False
        self.ret_ty = None
        try:
            res = self.exec(A.body(d), st)
        finally:
            self.frame, self.ret_is_ref, self.ret_ty, self.lambda_frames = save
        return [(t, None if o is None else o[1]) for (t, o) in res]

    # ------------------------------------------------------------ contracts
    def call_contract(self, con, d, this_lv, vs, st):
        """check precondition, havoc the frame, assume postconditions (normal and exceptional exits)"""
        self.used_contracts.add(con.name)
        cc = CallCtx(self, con, d, this_lv, vs, st)
        for (n, f) in con.pre(cc):
            self.oblige(st, f, 'call %s/requires:%s' % (con.name, n), 'call')
        out = []
        for exc in con.throws_at_call(cc):
            t = st.fork()
            cx = cc.exit(t, exc)
            for (n, f) in con.post(cx, exc):
                t.assume(f)
            if self.feasible(t):
                self.sink.append((t, Exc(exc)))
        t = st.fork()
        cx = cc.exit(t, None)
        for (n, f) in con.post(cx, None):
            t.assume(f)
        out.append((t, cx.ret))
        return out


class Ctx:
    """View used by contracts: old/new object values, arguments, result."""
    def __init__(self, eng):
        self.eng = eng


class CallCtx(Ctx):
    def __init__(self, eng, con, d, this_lv, vs, st):
        self.eng, self.con, self.d, self.this_lv, self.vs, self.st = eng, con, d, this_lv, vs, st
        self.old = eng.read(st, this_lv) if this_lv is not None and this_lv.root[0] != 'heapobj' else None
        self.this_id = this_lv.root[1] if this_lv is not None and this_lv.root[0] == 'heapobj' else None
        self.args = [eng.read(st, v) for v in vs]
        self.argl = vs
        self.old_args = self.args
        self.old_store = dict(st.store)
        self.new = self.old
        self.ret = None
        self.retlv = None
        self.new_store = self.old_store
    def ghost(self, name):
        return self.new_store.get(('ghost', name))
    def old_ghost(self, name):
        return self.old_store.get(('ghost', name))
    def exit(self, t, exc):
        c = CallCtx.__new__(CallCtx)
        c.__dict__.update(self.__dict__)
        eng = self.eng
        for m in self.con.modifies(self, exc):
            # m: ('this', field) | ('arg', i) | ('ghost', name)
            if m[0] == 'this':
                lv = self.this_lv if m[1] is None else self.this_lv.sub(('f', m[1]))
                eng.write(t, lv, eng.havoc_like(eng.read(t, lv), str(m[1]), t))
            elif m[0] == 'arg':
                eng.write(t, self.vs[m[1]], eng.havoc_like(eng.read(t, self.vs[m[1]]), 'arg%d' % m[1], t))
            elif m[0] == 'ghost':
                r = ('ghost', m[1])
                t.store[r] = eng.havoc_like(t.store[r], m[1], t)
            elif m[0] == 'path':
                eng.write(t, m[1], eng.havoc_like(eng.read(t, m[1]), 'p', t))
        c.new = eng.read(t, self.this_lv) if self.old is not None else None
        c.new_args = [eng.read(t, v) for v in self.vs]
        c.st = t
        c.new_store = t.store
        if exc is None:
            c.ret = self.con.make_ret(c, t)
        return c


class LoopCtx:
    """View of one loop for the invariant templates."""
    def __init__(self, eng, entry, mods, depth, cond):
        self.eng, self.entry, self.mods, self.depth, self.cond = eng, entry, mods, depth, cond
        self.ghostroots = []
    def get(self, s, rp):
        return self.eng.getpath(s.store[rp[0]], rp[1])
    def vars(self, pred):
        """modified (root,path) whose entry value satisfies pred"""
        out = []
        for rp in self.mods:
            v = self.get(self.entry, rp)
            if pred(v):
                out.append(rp)
        return out
    def ints(self):
        return self.vars(lambda v: z3.is_expr(v) and v.sort() == I)
    def reals(self):
        return self.vars(lambda v: z3.is_expr(v) and v.sort() == R)
    def bools(self):
        return self.vars(lambda v: z3.is_expr(v) and v.sort() == B)
    def iters(self):
        return self.vars(lambda v: isinstance(v, It))
    def name(self, rp):
        return self.eng.root_name(rp[0]) + ''.join('.' + str(x[1]) for x in rp[1] if len(x) > 1)
    def cursors(self):
        """functions state -> z3 Int giving the progress of the loop"""
        out = []
        for rp in self.iters():
            out.append((self.name(rp), lambda s, rp=rp: self.get(s, rp).idx))
        for rp in self.ints():
            if rp[0][0] in ('v', 'tmp'):
                out.append((self.name(rp), lambda s, rp=rp: self.get(s, rp)))
        return out
    def add_ghost(self, name, val):
        r = ('ghost', name)
        self.entry.store[r] = val
        if r not in self.ghostroots:
            self.ghostroots.append(r)
    def havoc_ghosts(self, h):
        for r in self.ghostroots:
            h.store[r] = self.eng.havoc_like(self.entry.store[r], r[1], h)
