"""Contracts and the function-by-function verification driver."""
import time, z3
from . import ast as A
from .values import *
from .engine import Engine, State, Exc, CallCtx, Oblig
from . import solve


class Contract:
    """fn=(qualified name, number of parameters[, function type string])"""
    modular = False
    loop = None
    ghosts = {}
    def __init__(self, name, fn, **kw):
        self.name, self.fn = name, fn
        self._pre = kw.pop('pre', None)
        self._post = kw.pop('post', None)
        self._mod = kw.pop('modifies', None)
        self.exc = kw.pop('exc', ())                 # exception types allowed
        self.setup = kw.pop('setup', None)           # f(env) adjusts the symbolic pre-state
        self.opts = {}
        for k, v in kw.items():
            setattr(self, k, v)
    def key(self):
        return (self.fn[0], self.fn[1], self.fn[2] if len(self.fn) > 2 else None)
    def pre(self, cc):
        return (self._pre(cc) if self._pre else []) or []
    def post(self, cx, exc):
        return (self._post(cx, exc) if self._post else []) or []
    def throws_at_call(self, cc):
        return list(self.exc)
    def modifies(self, cc, exc):
        m = self._mod
        if callable(m):
            m = m(cc, exc)
        return list(m or [])
    def make_ret(self, cx, t):
        rt = cx.eng.ret_type(cx.d)
        if rt.k == 'void' or cx.d['kind'] == 'CXXConstructorDecl':
            return None
        if getattr(self, 'retf', None):
            return self.retf(cx, t)
        return cx.eng.fresh(rt, 'ret_' + self.name.split('::')[-1], t)


def short(cls):
    return A.norm_cls(cls or '?').split('<')[0].split('::')[-1]


class Env:
    """symbolic pre-state of one verification task"""
    def __init__(self, eng, d, st, this_lv, vs):
        self.eng, self.d, self.st, self.this_lv, self.vs = eng, d, st, this_lv, vs


class Result:
    def __init__(self, name):
        self.name = name
        self.status = None      # proved / failed / unreachable
        self.obls = []
        self.why = ''
        self.inlined, self.used, self.trusted = set(), set(), set()
        self.loops = 0
        self.time = 0.0
        self.failed = []
        self.paths = 0
        self.loc = None
        self.houdini = []
        self.vacuous = False
        self.bounded = False


def find_fn(unit, fn):
    """definition of the real function named by a contract"""
    q, n = fn[0], fn[1]
    sig = fn[2] if len(fn) > 2 else None
    ds = []
    if '::' in q:
        cls, m = q.rsplit('::', 1)
        c = unit.find_class(cls)
        if c:
            short_ = unit.classes[c].get('name')
            ds = list(unit.methods.get(c, {}).get(m, []))
        else:
            ds = list(unit.funcs.get(m, []))
    else:
        ds = list(unit.funcs.get(q, []))
    ds = [d for d in ds if len(A.params(d)) == n and not d.get('isImplicit')]
    if sig:
        s2 = [d for d in ds if sig(d['type']['qualType'])] if callable(sig) else [d for d in ds if (d['type']['qualType'].rstrip().endswith('const') == (sig == 'CONST') if sig in ('CONST', 'NONCONST') else sig in d['type']['qualType'])]
        ds = s2
    return ds


def generate(unit, con, contracts, opts=None, axioms=()):
    """symbolically execute the function under contract; returns (engine, list of obligations)"""
    ds = find_fn(unit, con.fn)
    if not ds:
        raise Unsupported('no definition found for %s/%s' % (con.fn[0], con.fn[1]))
    if len(ds) > 1:
        uniq = {d.get('mangledName'): d for d in ds}
        if len(uniq) > 1:
            raise Unsupported('ambiguous definition of %s: %s' % (con.fn[0], [d['type']['qualType'] for d in ds]))
    d = ds[0]
    o = dict(opts or {})
    o.update(con.opts)
    eng = Engine(unit, contracts, o)
    eng.axioms = list(axioms)
    eng.cur, eng.cur_root, eng.fn = con, con, con.name
    eng.d = d
    st = State()
    this_lv = None
    ctor = d['kind'] == 'CXXConstructorDecl'
    if d['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and d.get('_owner') and d.get('storageClass') != 'static':
        this_lv = LV(('obj', 'this'))
        cls = getattr(con, 'cls', None) or d['_owner']
        st.store[('obj', 'this')] = eng.new_rec(cls) if ctor else eng.fresh_rec(cls, 'this', st)
    vs = []
    for i, p in enumerate(A.params(d)):
        T = parse_type(A.qt(p))
        nm = p.get('name', 'arg%d' % i)
        if T.k in ('ref',) or (T.k == 'ptr' and getattr(con, 'ptrargs', False)):
            r = ('obj', 'arg%d' % i)
            st.store[r] = eng.fresh(T[1], nm, st)
            vs.append(LV(r))
        else:
            vs.append(eng.fresh(T, nm, st))
    env = Env(eng, d, st, this_lv, vs)
    if con.setup:
        con.setup(env)
        vs = env.vs
    for (gn, gf) in (con.ghosts or {}).items():
        st.store[('ghost', gn)] = gf(env)
    cc = CallCtx(eng, con, d, this_lv, vs, st)
    for (n, f) in con.pre(cc):
        st.assume(f)
    eng.entry_pc = list(st.pc)
    vs_in = [v for v in vs]
    eng.sink = []
    rets = eng.inline(d, this_lv, list(vs), st)
    thrown = eng.sink
    eng.npaths = len(rets) + len(thrown)

    def exit_ctx(t, exc, ret):
        c = CallCtx.__new__(CallCtx)
        c.__dict__.update(cc.__dict__)
        c.new = eng.read(t, this_lv) if cc.old is not None else None
        c.new_args = [eng.read(t, v) if not (isinstance(v, LV) and v.root[0] == 'heapobj') else v for v in vs]
        c.st, c.new_store = t, t.store
        c.retlv = ret if isinstance(ret, LV) else None
        c.ret = eng.read(t, ret) if isinstance(ret, LV) else ret
        return c

    def frame(cx, exc, tag):
        mods = con.modifies(cx, exc)
        if any(m == ('this', None) for m in mods) or ctor:
            pass
        elif cx.old is not None:
            ok = {m[1] for m in mods if m[0] == 'this'}
            for f in cx.old.f:
                if f not in ok and not same(cx.old.f[f], cx.new.f[f]):
                    eng.oblige(cx.st, eqv(cx.old.f[f], cx.new.f[f]), '%s/frame:%s' % (tag, f), 'frame')
        for i, v in enumerate(vs):
            if isinstance(v, LV) and v.root[0] != 'heapobj' and ('arg', i) not in mods and v.root != ('obj', 'this'):
                a, b = cx.old_args[i], cx.new_args[i]
                if not same(a, b):
                    eng.oblige(cx.st, eqv(a, b), '%s/frame:arg%d' % (tag, i), 'frame')
    for (t, ret) in rets:
        cx = exit_ctx(t, None, ret)
        frame(cx, None, 'normal')
        for (n, f) in con.post(cx, None):
            eng.oblige(t, f, 'ensures:' + n, 'post')
    allowed = {short(x) for x in con.exc}
    for (t, ex) in thrown:
        if short(ex.cls) not in allowed:
            eng.oblige(t, z3.BoolVal(False), 'exceptional:never throws %s' % short(ex.cls), 'exc')
            continue
        cx = exit_ctx(t, ex.cls, None)
        frame(cx, ex.cls, 'throw')
        for (n, f) in con.post(cx, short(ex.cls)):
            eng.oblige(t, f, 'exceptional(%s):%s' % (short(ex.cls), n), 'post')
    if not rets and not thrown:
        raise Unsupported('no exit path')
    return eng


def verify(unit, con, contracts, opts=None, axioms=(), stages=None):
    r = Result(con.name)
    t0 = time.time()
    try:
        eng = generate(unit, con, contracts, opts, axioms)
    except Unsupported as ex:
        r.status, r.why = 'unreachable', str(ex)
        r.time = time.time() - t0
        return r
    except RecursionError as ex:
        r.status, r.why = 'unreachable', 'recursion'
        return r
    except (z3.Z3Exception, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError) as ex:
        import traceback
        r.status, r.why = 'unreachable', 'front end: %s %s' % (type(ex).__name__, traceback.format_exc()[-600:])
        return r
    r.loc = eng.d.get('loc', {}).get('line')
    # vacuity: precondition satisfiable
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add(*(list(eng.axioms) + eng.entry_pc))
    r.vacuous = solve.quick_check(s) == z3.unsat
    solve.discharge(eng.obls, eng.axioms, stages)
    r.obls = eng.obls
    r.inlined, r.used, r.trusted, r.loops = eng.inlined, eng.used_contracts, eng.trusted, eng.loops_seen
    r.paths = eng.npaths
    r.houdini = eng.houdini_log
    r.loop_report = getattr(eng, 'loop_report', [])
    r.failed = [o for o in eng.obls if o.status != 'proved']
    r.status = 'proved' if not r.failed and not r.vacuous else 'failed'
    r.time = time.time() - t0
    return r
