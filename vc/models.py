"""Assumed contracts (trusted base): C++ standard library, boost::shared_ptr, Eigen.
Every model used in a run is recorded in engine.trusted."""
import re
import zlib
import z3
from . import ast as A
from .values import *

# ---------------------------------------------------------------- functions on reals
FL = z3.Function('fl', R, R)
UF1 = {n: z3.Function('m_' + n, R, R) for n in
       ('sqrt', 'log', 'exp', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'lgamma', 'digamma', 'log2', 'log10', 'tgamma', 'erf', 'erfc', 'sinh', 'cosh', 'tanh', 'log1p', 'expm1')}
UF2 = {n: z3.Function('m_' + n, R, R, R) for n in ('pow', 'atan2', 'fmod', 'hypot', 'gamma_p', 'gamma_q')}
INF = z3.Real('INF')
NANC = z3.Real('NAN')
REAL_MAX = z3.Real('DBL_MAX')


def trunc(x):
    if x.sort() == I:
        return x
    if z3.is_rational_value(x):
        f = x.as_fraction()
        return z3.IntVal(int(f))
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def absv(x):
    return z3.If(x >= 0, x, -x)


def forall(vs, body, pats=()):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


def trust(eng, name):
    eng.trusted.add(name)


# ---------------------------------------------------------------- constants
EIGEN_ENUM = {'Success': 0, 'NumericalIssue': 1, 'NoConvergence': 2, 'InvalidInput': 3}


def enum_const(eng, e, r):
    d = eng.u.by_id.get(r['id'])
    if d is not None:
        for c in A.inner(d):
            if c.get('kind') == 'ConstantExpr' and 'value' in c:
                return z3.IntVal(int(c['value']))
    if r.get('name') in EIGEN_ENUM and 'ComputationInfo' in r.get('type', {}).get('qualType', ''):
        return z3.IntVal(EIGEN_ENUM[r['name']])
    return z3.IntVal(zlib.crc32(r.get('name', '').encode()) % 100000)


def global_var(eng, e, r, st):
    n = r.get('name')
    if n in ('cout', 'cerr', 'clog', 'endl', 'piecewise_construct', 'nullopt'):
        return Obj('stream')
    return None


def fresh_cls(eng, T, name, st):
    m = re.match(r'Eigen::(L[DL]*LT)<(.*?)(?:, \d+)?>$', T[1])
    if m:
        return Obj('ldlt', m=eng.fresh(parse_type(m.group(2)), name, st), kind=m.group(1))
    if eng.opts.get('opaque_classes', True):
        return z3.Const(fname(name), opq(T[1]))
    return None


# ---------------------------------------------------------------- containers
def cont_read(eng, st, lv):
    return eng.read(st, lv)


def keyseq(K):
    """ghost enumeration of an unordered container's key set (iteration order)"""
    ks = sort_of(K)
    return z3.Function('keyseq_' + str(ks), z3.ArraySort(ks, B), I, ks)


def keypos(K):
    ks = sort_of(K)
    return z3.Function('keypos_' + str(ks), z3.ArraySort(ks, B), ks, I)


def keyseq_axioms(m):
    """iteration visits every key of the container exactly once"""
    ks = sort_of(m.K)
    S, P = keyseq(m.K), keypos(m.K)
    i = z3.Int('i')
    k = z3.Const('k', ks)
    return [forall([i], z3.Implies(z3.And(0 <= i, i < m.size), z3.And(z3.Select(m.dom, S(m.dom, i)), P(m.dom, S(m.dom, i)) == i)), [S(m.dom, i)]),
            forall([k], z3.Implies(z3.Select(m.dom, k), z3.And(0 <= P(m.dom, k), P(m.dom, k) < m.size, S(m.dom, P(m.dom, k)) == k)), [z3.Select(m.dom, k)]) if True else None]


def container_size(eng, st, it):
    c = eng.read(st, it.lv)
    if isinstance(c, VecV):
        return c.n
    return c.size


def it_deref(eng, st, it):
    c = eng.read(st, it.lv)
    if isinstance(c, VecV):
        eng.oblige(st, z3.And(0 <= it.idx, it.idx < c.n), 'safety:iterator-dereference')
        return it.lv.sub(('at', it.idx))
    if isinstance(c, MapV):
        if it.key is not None:
            eng.oblige(st, c.has(it.key), 'safety:iterator-dereference')
            return it.lv.sub(('entry', it.key))
        eng.oblige(st, z3.And(0 <= it.idx, it.idx < c.size), 'safety:iterator-dereference')
        k = keyseq(c.K)(c.dom, it.idx)
        for f in keyseq_axioms(c):
            st.assume(f)
        return it.lv.sub(('entry', k))
    if isinstance(c, SetV):
        eng.oblige(st, z3.And(0 <= it.idx, it.idx < c.size), 'safety:iterator-dereference')
        k = it.key if it.key is not None else keyseq(c.K)(c.dom, it.idx)
        for f in keyseq_axioms(c):
            st.assume(f)
        return eng.new_tmp(st, k)
    if isinstance(c, Mat):
        eng.oblige(st, z3.And(0 <= it.idx, it.idx < c.r * c.c), 'safety:iterator-dereference')
        return it.lv.sub(('el', it.idx, 0))
    raise Unsupported('iterator into %r' % (c,))


def vec_erase(eng, st, v, i, tag='er'):
    """v without element i"""
    na = z3.Const(fname(tag), v.a.sort())
    j = z3.Int('j')
    # positions before and after the removal, as functions so that matching terms closes off
    bk, sh = z3.Function(fname('er.bk'), I, I), z3.Function(fname('er.sh'), I, I)
    st.assume(forall([j], z3.Implies(z3.And(0 <= j, j < v.n - 1), z3.And(na[j] == v.a[bk(j)], bk(j) == z3.If(j < i, j, j + 1), sh(bk(j)) == j)), [na[j]]))
    if has_pat(v.a):
        st.assume(forall([j], z3.Implies(z3.And(0 <= j, j < v.n, j != i), z3.And(na[sh(j)] == v.a[j], sh(j) == z3.If(j < i, j, j - 1), bk(sh(j)) == j)), [v.a[j]]))
    return VecV(v.n - 1, na, v.T)


def named(eng, st, v):
    """give the array of a VecV a name so that quantifier patterns are simple"""
    if has_pat(v.a):
        return v
    na = z3.Const(fname('na'), v.a.sort())
    st.assume(na == v.a)
    return VecV(v.n, na, v.T)


def map_insert_default(eng, st, m, k):
    has = m.has(k)
    sh = z3.simplify(has)
    dv = eng.default(m.V)
    if isinstance(dv, Uninit) or (m.V.k == 'eig'):
        dv = eng.default(m.V) if not isinstance(dv, Uninit) else eng.fresh(m.V, 'dflt')
    pd = pack(dv, m.V)
    return MapV(z3.Store(m.dom, k, z3.BoolVal(True)), z3.Store(m.val, k, z3.If(has, z3.Select(m.val, k), pd)),
                z3.If(has, m.size, m.size + 1), m.K, m.V)


def throw_split(eng, st, cond_ok, cls):
    """fork: cond_ok continues, otherwise a library exception is thrown; returns list of continuing states"""
    a, b = eng.branch(st, cond_ok)
    if b is not None:
        from .engine import Exc
        eng.sink.append((b, Exc(cls)))
    return [] if a is None else [a]


def key_of(eng, st, x, K):
    x = eng.read(st, x)
    if isinstance(x, PtrTo):
        raise Unsupported('address as key')
    return pack(x, K)


def assign_like(eng, st, lv, v, T=None):
    eng.write(st, lv, v)


# ---------------------------------------------------------------- member calls
def call_member(eng, e, me, st, lv, obj, name, args):
    trust_name = None
    # conversion operators / shared_ptr / plain values
    if isinstance(obj, VecV):
        for h in eng.opts.get('hooks', ()):
            r = getattr(h, 'vector', lambda *a: None)(eng, st, lv, name, args)
            if r is not None:
                return r
        trust(eng, 'std::vector / std::array operations')
        return vec_member(eng, e, st, lv, obj, name, args)
    if isinstance(obj, MapV):
        trust(eng, 'std::unordered_map / std::map operations')
        return map_member(eng, e, st, lv, obj, name, args)
    if isinstance(obj, SetV):
        trust(eng, 'std::unordered_set / std::set operations')
        return set_member(eng, e, st, lv, obj, name, args)
    if isinstance(obj, (Mat, Uninit)) or (isinstance(obj, Obj) and obj.tag in ('comma', 'ldlt', 'cmp', 'dynbool')) or (z3.is_expr(obj) and obj.sort() == MATX):
        from . import eig
        trust(eng, 'Eigen fixed-size matrix operations')
        return eig.member(eng, e, st, lv, obj, name, args)
    if isinstance(obj, It) and name == 'base':
        return [(st, obj)]
    for h in eng.opts.get('hooks', ()):
        r = h.member(eng, e, me, st, lv, obj, name, args)
        if r is not None:
            return r
    if isinstance(obj, Obj) and obj.tag in ('stream', 'str', 'exc', 'sstream'):
        out = []
        for (t, vs) in eng.ev_list(args, st):
            out.append((t, Obj('str', s=None) if name in ('str', 'c_str', 'what') else lv))
        return out
    if obj is None and isinstance(lv, LV) and isinstance(lv.root, tuple) and lv.root[0] == 'heapobj':
        # object of a class outside the library (or behind a pointer): by the contract of its member
        con = contract_by_name(eng, me, name, args)
        if con is not None:
            d = {'kind': 'CXXMethodDecl', 'name': name, 'type': {'qualType': (A.qt(e) or 'void') + ' ()'}}
            out = []
            for (t, vs) in eng.ev_list(args, st):
                out += eng.call_contract(con, d, lv, list(vs), t)
            return out
    if z3.is_expr(obj) and obj.sort() == I:
        # shared_ptr / raw pointer held as an identifier
        if name == 'get':
            return [(st, obj)]
        if name in ('operator bool', 'operator boost::shared_ptr::unspecified_bool_type'):
            return [(st, obj != 0)]
        if name == 'reset' and not args:
            eng.write(st, lv, z3.IntVal(0))
            return [(st, None)]
        if name in ('length', 'size', 'empty', 'c_str'):
            return [(st, z3.Const(fname('strprop'), B if name == 'empty' else I))]
    if isinstance(obj, PtrTo):
        if name == 'get':
            return [(st, obj)]
        if name == 'operator bool':
            return [(st, z3.BoolVal(True))]
    if isinstance(obj, z3.BoolRef) and name == 'operator bool':      # the proxy of an element of std::vector<bool>
        return [(st, obj)]
    raise Unsupported('%s: member call %s on %r' % (eng.fn, name, obj if obj is not None else lv))


def contract_by_name(eng, me, name, args):
    q = A.norm_cls(A.qt(A.inner(me)[0])).rstrip('*&').split('<')[0].split('::')[-1]
    if A.qt(A.inner(me)[0]).rstrip().endswith('>'):      # shared_ptr<X>
        q = A.norm_cls(A.qt(A.inner(me)[0]))[:-1].split('<')[-1].split('::')[-1]
    n = len([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'])
    k = ('%s::%s' % (q, name), n)
    tag = 'first:' + ('int' if parse_type(A.qt(args[0])).k == 'int' else 'obj') if n else None
    return eng.contracts.get(k + (tag,)) or eng.contracts.get(k + (None,))


def vec_member(eng, e, st, lv, v, name, args):
    if name == 'size':
        return [(st, v.n)]
    if name == 'empty':
        return [(st, v.n == 0)]
    if name in ('begin', 'cbegin'):
        return [(st, It(lv, z3.IntVal(0), 'vec'))]
    if name in ('end', 'cend'):
        return [(st, It(lv, v.n, 'vec'))]
    if name in ('front', 'back'):
        eng.oblige(st, v.n > 0, 'safety:front/back-of-nonempty')
        return [(st, lv.sub(('at', z3.IntVal(0) if name == 'front' else v.n - 1)))]
    if name in ('reserve', 'shrink_to_fit'):
        return [(t, None) for (t, _) in eng.ev_list(args, st)]
    if name == 'data':
        return [(st, PtrTo(lv.sub(('at', z3.IntVal(0)))))]
    if name in ('clear',):
        eng.write(st, lv, VecV(z3.IntVal(0), v.a, v.T))
        return [(st, None)]
    if name == 'pop_back':
        eng.oblige(st, v.n > 0, 'safety:pop_back-of-nonempty')
        eng.write(st, lv, VecV(v.n - 1, v.a, v.T))
        return [(st, None)]
    out = []
    for (t, vs) in eng.ev_list(args, st):
        v = eng.read(t, lv)
        if name in ('push_back', 'emplace_back'):
            x = eng.coerce(t, eng.read(t, vs[0]), v.T)
            eng.write(t, lv, VecV(v.n + 1, z3.Store(v.a, v.n, pack(x, v.T)), v.T))
            out.append((t, None))
        elif name in ('operator[]', 'at'):
            i = eng.read(t, vs[0])
            if name == 'at':
                for t2 in throw_split(eng, t, z3.And(0 <= i, i < v.n), 'std::out_of_range'):
                    out.append((t2, lv.sub(('at', i))))
            else:
                eng.oblige(t, z3.And(0 <= i, i < v.n), 'safety:vector-index')
                out.append((t, lv.sub(('at', i))))
        elif name == 'resize':
            n = eng.read(t, vs[0])
            dflt = eng.default(v.T) if len(vs) == 1 else eng.read(t, vs[1])
            if isinstance(dflt, Uninit):
                dflt = eng.fresh(v.T, 'dflt')
            na = z3.Const(fname('rs'), v.a.sort())
            j = z3.Int('j')
            t.assume(forall([j], z3.Implies(z3.And(0 <= j, j < n), na[j] == z3.If(j < v.n, v.a[j], pack(dflt, v.T))), [na[j]]))
            eng.write(t, lv, VecV(n, na, v.T))
            out.append((t, None))
        elif name == 'assign' and len(vs) == 2 and not isinstance(eng.read(t, vs[0]), It):
            n = eng.read(t, vs[0])
            na = z3.Const(fname('as'), v.a.sort())
            j = z3.Int('j')
            t.assume(forall([j], z3.Implies(z3.And(0 <= j, j < n), na[j] == pack(eng.read(t, vs[1]), v.T)), [na[j]]))
            eng.write(t, lv, VecV(n, na, v.T))
            out.append((t, None))
        elif name == 'assign' and len(vs) == 2:
            a, b = eng.read(t, vs[0]), eng.read(t, vs[1])
            eng.write(t, lv, vec_from_range(eng, t, a, b, v.T))
            out.append((t, None))
        elif name == 'erase' and len(vs) == 1:
            it = eng.read(t, vs[0])
            eng.oblige(t, z3.And(0 <= it.idx, it.idx < v.n), 'safety:erase-valid-iterator')
            eng.write(t, lv, vec_erase(eng, t, named(eng, t, v), it.idx))
            out.append((t, It(lv, it.idx, 'vec')))
        elif name == 'swap':
            w = eng.read(t, vs[0])
            eng.write(t, vs[0], v)
            eng.write(t, lv, w)
            out.append((t, None))
        elif name == 'operator=':
            w = eng.read(t, vs[0])
            eng.write(t, lv, w)
            out.append((t, lv))
        elif name == 'insert' and len(vs) == 3:
            p, a, b = [eng.read(t, x) for x in vs]
            w = vec_from_range(eng, t, a, b, v.T)
            eng.oblige(t, z3.And(0 <= p.idx, p.idx <= v.n), 'safety:insert-valid-iterator')
            na = z3.Const(fname('ins'), v.a.sort())
            j = z3.Int('j')
            t.assume(forall([j], na[j] == z3.If(j < p.idx, v.a[j], z3.If(j < p.idx + w.n, w.a[j - p.idx], v.a[j - w.n])), [na[j]]))
            eng.write(t, lv, VecV(v.n + w.n, na, v.T))
            out.append((t, It(lv, p.idx, 'vec')))
        elif name == 'insert' and len(vs) == 2:
            p = eng.read(t, vs[0])
            x = eng.coerce(t, eng.read(t, vs[1]), v.T)
            eng.oblige(t, z3.And(0 <= p.idx, p.idx <= v.n), 'safety:insert-valid-iterator')
            na = z3.Const(fname('ins'), v.a.sort())
            j = z3.Int('j')
            t.assume(forall([j], na[j] == z3.If(j < p.idx, v.a[j], z3.If(j == p.idx, pack(x, v.T), v.a[j - 1])), [na[j]]))
            eng.write(t, lv, VecV(v.n + 1, na, v.T))
            out.append((t, It(lv, p.idx, 'vec')))
        else:
            raise Unsupported('vector::' + name)
    return out


def vec_from_range(eng, st, a, b, T):
    src = eng.read(st, a.lv)
    na = z3.Const(fname('rng'), z3.ArraySort(I, sort_of(T)))
    j = z3.Int('j')
    if isinstance(src, VecV):
        st.assume(forall([j], z3.Implies(z3.And(0 <= j, j < b.idx - a.idx), na[j] == src.a[j + a.idx]), [na[j]]))
    else:
        raise Unsupported('range of %r' % src)
    n = z3.simplify(b.idx - a.idx)
    return VecV(n, na, T)


def map_member(eng, e, st, lv, m, name, args):
    if name == 'size':
        return [(st, m.size)]
    if name == 'empty':
        return [(st, m.size == 0)]
    if name in ('begin', 'cbegin'):
        for f in keyseq_axioms(m):
            st.assume(f)
        return [(st, It(lv, z3.IntVal(0), 'map'))]
    if name in ('end', 'cend'):
        return [(st, It(lv, m.size, 'map'))]
    if name == 'clear':
        eng.write(st, lv, MapV(z3.K(sort_of(m.K), z3.BoolVal(False)), m.val, z3.IntVal(0), m.K, m.V))
        return [(st, None)]
    if name in ('reserve', 'rehash'):
        return [(t, None) for (t, _) in eng.ev_list(args, st)]
    out = []
    for (t, vs) in eng.ev_list(args, st):
        m = eng.read(t, lv)
        if name == 'count':
            k = key_of(eng, t, vs[0], m.K)
            out.append((t, z3.If(m.has(k), z3.IntVal(1), z3.IntVal(0))))
        elif name == 'contains':
            out.append((t, m.has(key_of(eng, t, vs[0], m.K))))
        elif name == 'at':
            k = key_of(eng, t, vs[0], m.K)
            for t2 in throw_split(eng, t, m.has(k), 'std::out_of_range'):
                out.append((t2, lv.sub(('at', k))))
        elif name == 'operator[]':
            k = key_of(eng, t, vs[0], m.K)
            if not eng.known(t, m.has(k)):
                eng.write(t, lv, map_insert_default(eng, t, m, k))
            out.append((t, lv.sub(('at', k))))
        elif name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if len(vs) == 1:
                p = eng.read(t, vs[0])
                k, v = pack(eng.coerce(t, p.first, m.K), m.K), p.second
            else:
                k, v = key_of(eng, t, vs[0], m.K), eng.read(t, vs[1])
            has = m.has(k)
            pv = pack(eng.coerce(t, coerce_pair(eng, t, v, m.V), m.V), m.V)
            if name == 'insert_or_assign':
                nval = z3.Store(m.val, k, pv)
            else:
                nval = z3.Store(m.val, k, z3.If(has, z3.Select(m.val, k), pv))
            eng.write(t, lv, MapV(z3.Store(m.dom, k, z3.BoolVal(True)), nval,
                                  z3.If(has, m.size, m.size + 1), m.K, m.V))
            out.append((t, PairV(It(lv, z3.Int(fname('insidx')), 'map', key=k), z3.Not(has), Ty('it'), T_BOOL)))
        elif name == 'erase':
            a = eng.read(t, vs[0])
            if isinstance(a, It):
                if a.key is None:
                    k = keyseq(m.K)(m.dom, a.idx)
                    eng.oblige(t, z3.And(0 <= a.idx, a.idx < m.size), 'safety:erase-valid-iterator')
                else:
                    k = a.key
                    eng.oblige(t, m.has(k), 'safety:erase-valid-iterator')
            else:
                k = key_of(eng, t, vs[0], m.K)
            has = m.has(k)
            t.assume(z3.Implies(has, m.size >= 1))
            sure = eng.known(t, has)
            eng.write(t, lv, MapV(z3.Store(m.dom, k, z3.BoolVal(False)), m.val, m.size - 1 if sure else z3.If(has, m.size - 1, m.size), m.K, m.V))
            out.append((t, z3.IntVal(1) if sure else z3.If(has, z3.IntVal(1), z3.IntVal(0))))
        elif name == 'find':
            k = key_of(eng, t, vs[0], m.K)
            for f in keyseq_axioms(m):
                t.assume(f)
            idx = z3.If(m.has(k), keypos(m.K)(m.dom, k), m.size)
            out.append((t, It(lv, idx, 'map', key=k)))
        elif name == 'operator=':
            eng.write(t, lv, eng.read(t, vs[0]))
            out.append((t, lv))
        elif name == 'swap':
            w = eng.read(t, vs[0])
            eng.write(t, vs[0], m)
            eng.write(t, lv, w)
            out.append((t, None))
        else:
            raise Unsupported('map::' + name)
    return out


def coerce_pair(eng, st, v, T):
    if isinstance(v, PairV) and T.k == 'pair':
        return PairV(eng.coerce(st, coerce_pair(eng, st, v.first, T[1]), T[1]), eng.coerce(st, coerce_pair(eng, st, v.second, T[2]), T[2]), T[1], T[2])
    return v


def set_member(eng, e, st, lv, m, name, args):
    if name == 'size':
        return [(st, m.size)]
    if name == 'empty':
        return [(st, m.size == 0)]
    if name in ('begin', 'cbegin'):
        for f in keyseq_axioms(m):
            st.assume(f)
        return [(st, It(lv, z3.IntVal(0), 'set'))]
    if name in ('end', 'cend'):
        return [(st, It(lv, m.size, 'set'))]
    if name == 'clear':
        eng.write(st, lv, SetV(z3.K(sort_of(m.K), z3.BoolVal(False)), z3.IntVal(0), m.K))
        return [(st, None)]
    if name in ('reserve', 'rehash'):
        return [(t, None) for (t, _) in eng.ev_list(args, st)]
    out = []
    for (t, vs) in eng.ev_list(args, st):
        m = eng.read(t, lv)
        if name == 'operator=':
            eng.write(t, lv, eng.read(t, vs[0]))
            out.append((t, lv))
            continue
        if name == 'insert' and len(vs) != 1:
            raise Unsupported('set::insert range')
        a = eng.read(t, vs[0])
        if name == 'erase' and isinstance(a, It):
            k = a.key if a.key is not None else keyseq(m.K)(m.dom, a.idx)
        else:
            k = key_of(eng, t, vs[0], m.K)
        has = m.has(k)
        if name == 'count':
            out.append((t, z3.If(has, z3.IntVal(1), z3.IntVal(0))))
        elif name == 'contains':
            out.append((t, has))
        elif name in ('insert', 'emplace'):
            eng.write(t, lv, SetV(z3.Store(m.dom, k, z3.BoolVal(True)), z3.If(has, m.size, m.size + 1), m.K))
            out.append((t, PairV(It(lv, z3.Int(fname('insidx')), 'set', key=k), z3.Not(has), Ty('it'), T_BOOL)))
        elif name == 'erase':
            t.assume(z3.Implies(has, m.size >= 1))
            eng.write(t, lv, SetV(z3.Store(m.dom, k, z3.BoolVal(False)), z3.If(has, m.size - 1, m.size), m.K))
            out.append((t, z3.If(has, z3.IntVal(1), z3.IntVal(0))))
        elif name == 'find':
            for f in keyseq_axioms(m):
                t.assume(f)
            idx = z3.If(has, keypos(m.K)(m.dom, k), m.size)
            out.append((t, It(lv, idx, 'set', key=k)))
        else:
            raise Unsupported('set::' + name)
    return out


# ---------------------------------------------------------------- operators
def call_operator(eng, e, name, args, st):
    op = (name or '')[8:]
    out = []
    if op == '()' :
        for (t, vs) in eng.ev_list(args, st):
            f = eng.read(t, vs[0])
            if isinstance(f, Obj) and f.tag == 'lambda':
                out += eng.call_lambda(f, vs[1:], t)
            elif isinstance(f, VecV):
                raise Unsupported('call of vector')
            else:
                from . import eig
                trust(eng, 'Eigen fixed-size matrix operations')
                out += eig.index(eng, e, t, vs[0], f, vs[1:], '()')
        return out
    for (t, vs) in eng.ev_list(args, st):
        a = vs[0]
        av = eng.read(t, a)
        bv = eng.read(t, vs[1]) if len(vs) > 1 else None
        hooked = False
        for h in eng.opts.get('hooks', ()):
            r = h.operator(eng, e, t, op, vs, av, bv)
            if r is not None:
                out += r
                hooked = True
                break
        if hooked:
            continue
        if isinstance(av, It):
            out += it_op(eng, e, t, op, a, av, bv, len(vs))
            continue
        if isinstance(av, VecV):
            trust(eng, 'std::vector / std::array operations')
            if op == '[]':
                eng.oblige(t, z3.And(0 <= bv, bv < av.n), 'safety:vector-index')
                out.append((t, a.sub(('at', bv)) if isinstance(a, LV) else av[bv]))
                continue
            if op == '=':
                eng.write(t, a, bv)
                out.append((t, a))
                continue
            if op in ('==', '!='):
                q = eqv(av, bv)
                out.append((t, q if op == '==' else z3.Not(q)))
                continue
        if isinstance(av, MapV):
            trust(eng, 'std::unordered_map / std::map operations')
            if op == '[]':
                k = pack(bv, av.K)
                if not z3.is_true(z3.simplify(av.has(k))):
                    eng.write(t, a, map_insert_default(eng, t, av, k))
                out.append((t, a.sub(('at', k))))
                continue
            if op == '=':
                eng.write(t, a, bv)
                out.append((t, a))
                continue
        if isinstance(av, SetV) and op == '=':
            eng.write(t, a, bv)
            out.append((t, a))
            continue
        if isinstance(av, PairV):
            if op == '=':
                eng.write(t, a, coerce_pair(eng, t, bv, Ty('pair', av.A, av.B)))
                out.append((t, a))
                continue
            if op in ('==', '!='):
                q = eqv(av, bv)
                out.append((t, q if op == '==' else z3.Not(q)))
                continue
        if isinstance(av, Rec) and op == '=':
            # implicit copy assignment
            eng.write(t, a, bv)
            out.append((t, a))
            continue
        if isinstance(av, Obj) and av.tag in ('stream', 'str', 'sstream', 'exc') or isinstance(bv, Obj) and bv.tag in ('str', 'stream', 'sstream'):
            if op == '<<':
                out.append((t, a))
                continue
            if op in ('+', '=', '+='):
                out.append((t, Obj('str', s=None) if op == '+' else a))
                continue
        if isinstance(av, PtrTo) and op in ('*', '->'):
            out.append((t, av.lv if op == '*' else av))
            continue
        if isinstance(av, PtrTo) and op in ('==', '!='):
            out.append((t, eng.ptr_cmp(t, op, av, bv)))
            continue
        if z3.is_expr(av) and av.sort() == I and (parse_type(A.qt(args[0])).k in ('ptr',) or op in ('->', '!')):
            # boost::shared_ptr
            trust(eng, 'boost::shared_ptr (identity semantics; pointees not destroyed while referenced)')
            if op == '->':
                eng.oblige(t, av != 0, 'safety:null-dereference')
                out.append((t, av))
            elif op == '*':
                eng.oblige(t, av != 0, 'safety:null-dereference')
                out.append((t, LV(('heapobj', av))))
            elif op == '=':
                eng.write(t, a, bv)
                out.append((t, a))
            elif op in ('==', '!='):
                out.append((t, av == bv if op == '==' else av != bv))
            elif op == '<':
                out.append((t, av < bv))
            elif op == '!':
                out.append((t, av == 0))
            else:
                raise Unsupported('shared_ptr operator' + op)
            continue
        from . import eig
        if eig.is_eig(av) or eig.is_eig(bv) or isinstance(av, Uninit):
            trust(eng, 'Eigen fixed-size matrix operations')
            out += eig.operator(eng, e, t, op, vs, av, bv)
            continue
        if op == '=' and z3.is_expr(av) and z3.is_expr(bv) and av.sort() == bv.sort():
            eng.write(t, a, bv)
            out.append((t, a))
            continue
        if op in ('==', '!=', '<') and z3.is_expr(av) and z3.is_expr(bv):
            out.append((t, eng.compare(t, op, av, bv)))
            continue
        raise Unsupported('%s: operator%s on %r, %r' % (eng.fn, op, av, bv))
    return out


def it_op(eng, e, t, op, a, av, bv, n):
    if op == '++' or op == '--':
        d = 1 if op == '++' else -1
        nv = It(av.lv, av.idx + d, av.kind)
        if op == '++' and av.kind in ('map', 'set') and av.key is not None:
            nv = It(av.lv, av.idx + d, av.kind)
        eng.write(t, a, nv)
        return [(t, av if n == 2 else a)]
    if op == '*':
        return [(t, it_deref(eng, t, av))]
    if op == '->':
        return [(t, PtrTo(it_deref(eng, t, av)))]
    if op in ('==', '!=', '<', '>', '<=', '>='):
        return [(t, eng.compare(t, op, av, bv))]
    if op == '+':
        return [(t, It(av.lv, av.idx + bv, av.kind))]
    if op == '-':
        if isinstance(bv, It):
            return [(t, av.idx - bv.idx)]
        return [(t, It(av.lv, av.idx - bv, av.kind))]
    if op in ('+=', '-='):
        nv = It(av.lv, av.idx + bv if op == '+=' else av.idx - bv, av.kind)
        eng.write(t, a, nv)
        return [(t, a)]
    if op == '=':
        eng.write(t, a, bv)
        return [(t, a)]
    if op == '[]':
        return [(t, it_deref(eng, t, It(av.lv, av.idx + bv, av.kind)))]
    raise Unsupported('iterator operator' + op)


# ---------------------------------------------------------------- free functions
def call_function(eng, e, ref, name, args, st):
    for h in eng.opts.get('hooks', ()):
        r = h.function(eng, e, ref, name, args, st)
        if r is not None:
            return r
    out = []
    if name in ('move', 'forward', 'ref', 'cref', 'as_const', '__addressof', 'addressof'):
        return eng.ev(args[0], st)
    from . import eig
    r = eig.function(eng, e, ref, name, args, st)
    if r is not None:
        trust(eng, 'Eigen fixed-size matrix operations')
        return r
    T = parse_type(A.qt(e))
    if name in ('max', 'min', 'infinity', 'epsilon', 'quiet_NaN', 'lowest') and not args:
        return [(st, numeric_limit(eng, ref, name, T))]
    for (t, vs) in eng.ev_list(args, st):
        xs = [eng.read(t, v) for v in vs]
        if name == 'make_pair':
            A_, B_ = T[1], T[2]
            out.append((t, PairV(eng.coerce(t, xs[0], A_), eng.coerce(t, xs[1], B_), A_, B_)))
        elif name == 'swap' and len(vs) == 2:
            trust(eng, 'std::swap')
            eng.write(t, vs[0], xs[1])
            # the second target may alias the first only if identical
            eng.write(t, vs[1], xs[0])
            out.append((t, None))
        elif name == 'iter_swap':
            l0, l1 = it_deref(eng, t, xs[0]), it_deref(eng, t, xs[1])
            a, b = eng.read(t, l0), eng.read(t, l1)
            eng.write(t, l0, b)
            eng.write(t, l1, a)
            out.append((t, None))
        elif name == 'distance':
            trust(eng, 'std::distance / next / prev / advance')
            out.append((t, xs[1].idx - xs[0].idx))
        elif name in ('next', 'prev'):
            trust(eng, 'std::distance / next / prev / advance')
            n = xs[1] if len(xs) > 1 else z3.IntVal(1)
            out.append((t, It(xs[0].lv, xs[0].idx + n if name == 'next' else xs[0].idx - n, xs[0].kind)))
        elif name == 'advance':
            eng.write(t, vs[0], It(xs[0].lv, xs[0].idx + xs[1], xs[0].kind))
            out.append((t, None))
        elif name in ('begin', 'end', 'cbegin', 'cend'):
            c = xs[0]
            n = c.n if isinstance(c, VecV) else c.size
            out.append((t, It(vs[0], z3.IntVal(0) if 'begin' in name else n, 'vec' if isinstance(c, VecV) else 'map')))
        elif name == 'find' and len(vs) == 3:
            trust(eng, 'std::find')
            b, en, x = xs
            c = eng.read(t, b.lv)
            x = pack(x, c.T)
            r = z3.Int(fname('find'))
            j = z3.Int('j')
            t.assume(z3.And(b.idx <= r, r <= en.idx))
            t.assume(forall([j], z3.Implies(z3.And(b.idx <= j, j < r), c.a[j] != x), [c.a[j]] if has_pat(c.a) else []))
            t.assume(z3.Implies(r < en.idx, c.a[r] == x))
            out.append((t, It(b.lv, r, b.kind)))
        elif name == 'count' and len(vs) == 3:
            trust(eng, 'std::count')
            b, en, x = xs
            c = eng.read(t, b.lv)
            x = pack(x, c.T)
            r, w, j = z3.Int(fname('count')), z3.Int(fname('cw')), z3.Int('j')
            t.assume(r >= 0)
            t.assume(z3.Implies(r > 0, z3.And(b.idx <= w, w < en.idx, c.a[w] == x)))
            t.assume(z3.Implies(r == 0, forall([j], z3.Implies(z3.And(b.idx <= j, j < en.idx), c.a[j] != x), [c.a[j]] if has_pat(c.a) else [])))
            out.append((t, r))
        elif name == 'accumulate' and len(vs) == 3:
            trust(eng, 'std::accumulate')
            b, en, x = xs
            c = eng.read(t, b.lv)
            from . import spec
            x = lift(x)
            if c.T.k == 'real' and T.k == 'real':
                out.append((t, tosort(x, T_REAL) + spec.rsum(t, c.a, b.idx, en.idx)))
            elif c.T.k == 'int' and T.k == 'int':
                out.append((t, x + spec.isum(t, c.a, b.idx, en.idx)))
            else:
                raise Unsupported('accumulate')
        elif name in ('any_of', 'all_of', 'none_of', 'find_if', 'for_each', 'transform', 'copy', 'fill', 'sort', 'reverse', 'max_element', 'min_element', 'rotate', 'remove', 'remove_if', 'iota', 'count_if', 'equal'):
            out += algorithm(eng, e, t, name, vs, xs)
        elif name in ('max', 'min') and len(vs) == 2:
            a, b = lift(xs[0]), lift(xs[1])
            ET = parse_type(A.qt(e))
            c = (a < b) if name == 'max' else (b < a)
            out.append((t, eng.new_tmp(t, z3.If(c, b, a))))
        elif name in UF1 and len(vs) == 1:
            trust(eng, '<cmath>/boost special functions as uninterpreted functions with their defining axioms')
            out.append((t, eng.fl(t, UF1[name](tosort(xs[0], T_REAL)))))
        elif name in UF2 and len(vs) == 2:
            trust(eng, '<cmath>/boost special functions as uninterpreted functions with their defining axioms')
            out.append((t, mk_pow(tosort(xs[0], T_REAL), tosort(xs[1], T_REAL)) if name == 'pow' else UF2[name](tosort(xs[0], T_REAL), tosort(xs[1], T_REAL))))
        elif name in ('fabs', 'abs', 'labs', 'fabsf'):
            x = lift(xs[0])
            out.append((t, absv(x)))
        elif name in ('ceil', 'floor', 'round', 'trunc', 'lround', 'rint', 'llround', 'lrint'):
            x = tosort(xs[0], T_REAL)
            r = {'ceil': lambda: -z3.ToInt(-x), 'floor': lambda: z3.ToInt(x), 'trunc': lambda: trunc(x),
                 'round': lambda: z3.If(x >= 0, z3.ToInt(x + z3.RealVal('1/2')), -z3.ToInt(-x + z3.RealVal('1/2')))}.get(name.lstrip('l') if name in ('lround', 'llround') else name)
            if r is None:
                raise Unsupported(name)
            out.append((t, z3.ToReal(r()) if T.k == 'real' else r()))
        elif name in ('isfinite',):
            out.append((t, z3.BoolVal(True)))
        elif name in ('isnan', 'isinf'):
            out.append((t, z3.BoolVal(False)))
        elif name == 'copysign':
            x, y = tosort(xs[0], T_REAL), tosort(xs[1], T_REAL)
            out.append((t, z3.If(y >= 0, absv(x), -absv(x))))
        elif name == 'make_shared' or name == 'allocate_shared':
            v = z3.Int(fname('newobj'))
            t.assume(v > 0)
            out.append((t, v))
        elif name in ('getline', 'to_string'):
            out.append((t, Obj('str', s=None)))
        elif name in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
            out.append((t, xs[0]))
        elif name == 'get' and len(vs) == 1:
            raise Unsupported('std::get')
        else:
            raise Unsupported('%s: call of %s' % (eng.fn, name))
    return out


def mk_pow(a, b):
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        f = b.as_fraction()
        if f.denominator == 1 and 0 <= f.numerator <= 8:
            r = z3.RealVal(1)
            for _ in range(int(f.numerator)):
                r = r * a
            return r if f.numerator else z3.RealVal(1)
    return UF2['pow'](a, b)


def numeric_limit(eng, ref, name, T):
    if T.k == 'real':
        f32 = 'float' in (ref.get('type') or {}).get('qualType', '')
        r = {'infinity': INF, 'max': REAL_MAX, 'quiet_NaN': NANC, 'lowest': -REAL_MAX, 'epsilon': z3.Q(1, 2 ** (23 if f32 else 52)), 'min': z3.Q(1, 2 ** (126 if f32 else 1022))}.get(name)
        if r is None:
            raise Unsupported('numeric_limits::' + name)
        return r
    if T.k == 'int':
        w = T[2]
        if name == 'max':
            return z3.IntVal(2 ** (w - 1) - 1 if T[1] else 2 ** w - 1)
        if name in ('min', 'lowest'):
            return z3.IntVal(-2 ** (w - 1) if T[1] else 0)
    raise Unsupported('numeric_limits::' + name)


def algorithm(eng, e, t, name, vs, xs):
    """algorithms with predicate/lambda arguments, specified by their std contract where the lambda body
    is pure and single-path; otherwise out of reach."""
    j = z3.Int(fname('aj'))
    def pure(lam, c, idx):
        el = eng.new_tmp(t, c[idx])
        t2 = t.fork()
        t2.store[el.root] = c[idx]
        n0 = len(t2.pc)
        res = eng.quiet(lambda: eng.call_lambda(lam, [el], t2))
        if len(res) != 1 or len(res[0][0].pc) != n0:
            raise Unsupported('algorithm with branching lambda')
        return eng.boolv(res[0][0], res[0][1])
    if name in ('any_of', 'all_of', 'none_of', 'find_if', 'count_if') and isinstance(xs[2], Obj) and xs[2].tag == 'lambda':
        trust(eng, 'std::any_of / all_of / none_of / find_if')
        c = eng.read(t, xs[0].lv)
        if not isinstance(c, VecV):
            raise Unsupported('algorithm over map')
        b, en = xs[0].idx, xs[1].idx
        P = lambda i: pure(xs[2], c, i)
        if name == 'find_if':
            r = z3.Int(fname('find'))
            t.assume(z3.And(b <= r, r <= en))
            t.assume(forall([j], z3.Implies(z3.And(b <= j, j < r), z3.Not(P(j)))))
            t.assume(z3.Implies(r < en, P(r)))
            return [(t, It(xs[0].lv, r, 'vec'))]
        w = z3.Int(fname('aw'))
        if name == 'count_if':
            raise Unsupported('count_if')
        neg = name == 'all_of'
        Q = (lambda i: z3.Not(P(i))) if neg else P
        ex = z3.Bool(fname('ex'))
        t.assume(z3.Implies(ex, z3.And(b <= w, w < en, Q(w))))
        t.assume(z3.Implies(z3.Not(ex), forall([j], z3.Implies(z3.And(b <= j, j < en), z3.Not(Q(j))))))
        return [(t, ex if name == 'any_of' else z3.Not(ex))]
    if name == 'fill':
        c = eng.read(t, xs[0].lv)
        if isinstance(c, VecV):
            na = z3.Const(fname('fill'), c.a.sort())
            t.assume(forall([j], na[j] == z3.If(z3.And(xs[0].idx <= j, j < xs[1].idx), pack(eng.coerce(t, xs[2], c.T), c.T), c.a[j]), [na[j]]))
            eng.write(t, xs[0].lv, VecV(c.n, na, c.T))
            return [(t, None)]
    if name == 'copy':
        s, d = eng.read(t, xs[0].lv), eng.read(t, xs[2].lv)
        if isinstance(s, VecV) and isinstance(d, VecV):
            na = z3.Const(fname('copy'), d.a.sort())
            n = xs[1].idx - xs[0].idx
            eng.oblige(t, z3.And(xs[2].idx >= 0, xs[2].idx + n <= d.n), 'safety:copy-bounds')
            t.assume(forall([j], na[j] == z3.If(z3.And(xs[2].idx <= j, j < xs[2].idx + n), s.a[j - xs[2].idx + xs[0].idx], d.a[j]), [na[j]]))
            eng.write(t, xs[2].lv, VecV(d.n, na, d.T))
            return [(t, It(xs[2].lv, xs[2].idx + n, 'vec'))]
    raise Unsupported('std::' + name)


# ---------------------------------------------------------------- construction
def construct(eng, e, T, args, st):
    for h in eng.opts.get('hooks', ()):
        r = h.construct(eng, e, T, args, st)
        if r is not None:
            return r
    q = A.qt(e)
    if T.k in ('ptr', 'int', 'real', 'bool'):
        if not args:
            return [(st, eng.default(T))]
        return eng.rv(args[0], st)
    if T.k == 'str':
        out = []
        for (t, vs) in eng.ev_list([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], st):
            out.append((t, Obj('str', s=None)))
        return out
    if T.k == 'pair':
        out = []
        for (t, vs) in eng.ev_list(args, st):
            xs = [eng.read(t, v) for v in vs]
            if len(xs) == 1 and isinstance(xs[0], PairV):
                out.append((t, coerce_pair(eng, t, xs[0], T)))
            elif len(xs) == 2:
                out.append((t, PairV(eng.coerce(t, xs[0], T[1]), eng.coerce(t, xs[1], T[2]), T[1], T[2])))
            elif not xs:
                out.append((t, eng.default(T)))
            else:
                raise Unsupported('pair ctor')
        return out
    if T.k in ('vec', 'map', 'set'):
        real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if not real:
            return [(st, eng.default(T))]
        out = []
        for (t, vs) in eng.ev_list(real, st):
            xs = [eng.read(t, v) for v in vs]
            if len(xs) == 1 and isinstance(xs[0], (VecV, MapV, SetV)):
                out.append((t, xs[0]))
            elif T.k == 'vec' and len(xs) in (1, 2) and z3.is_expr(xs[0]) and xs[0].sort() == I:
                v = eng.default(T)
                dflt = eng.default(T[1]) if len(xs) == 1 else eng.coerce(t, xs[1], T[1])
                if isinstance(dflt, Uninit):
                    dflt = eng.fresh(T[1], 'dflt')
                na = z3.Const(fname('vc'), v.a.sort())
                j = z3.Int('j')
                t.assume(forall([j], z3.Implies(z3.And(0 <= j, j < xs[0]), na[j] == pack(dflt, T[1])), [na[j]]))
                out.append((t, VecV(xs[0], na, T[1])))
            elif T.k == 'vec' and len(xs) == 2 and isinstance(xs[0], It):
                out.append((t, vec_from_range(eng, t, xs[0], xs[1], T[1])))
            else:
                raise Unsupported('container ctor %s' % q)
        return out
    if 'iterator' in q or '_Node' in q:
        out = []
        if not args:
            return [(st, Uninit(Ty('it')))]
        return eng.rv(args[0], st)
    from . import eig
    r = eig.construct(eng, e, T, args, st)
    if r is not None:
        trust(eng, 'Eigen fixed-size matrix operations')
        return r
    if any(s in q for s in ('stringstream', 'basic_string', 'std::allocator', 'ostream')):
        return [(st, Obj('sstream'))]
    if T.k == 'cls' and len(args) == 1:
        return eng.rv(args[0], st)
    if T.k == 'cls' and not args:
        v = z3.Const(fname('newobj'), opq(T[1]))
        return [(st, v)]
    raise Unsupported('%s: construct %s' % (eng.fn, q))


def init_list(eng, T, inn, st):
    return None


def base_ctor(eng, T, ex, this_lv, st):
    """base class outside aslam::calibration (Serializable-like or aslam backend): no modelled state"""
    for h in eng.opts.get('hooks', ()):
        r = getattr(h, 'base_ctor', lambda *a: None)(eng, T, ex, this_lv, st)
        if r is not None:
            return r
    return [st]


def heap_field(eng, e, st, lv, name):
    for h in eng.opts.get('hooks', ()):
        r = h.heap_field(eng, e, st, lv, name)
        if r is not None:
            return r
    raise Unsupported('field %s through opaque pointer' % name)


def member_field(eng, e, st, v, name):
    for h in eng.opts.get('hooks', ()):
        r = getattr(h, 'value_field', lambda *a: None)(eng, e, st, v, name)
        if r is not None:
            return r
    return None


# matrix element access used by engine.getp/setp
def mat_get(eng, v, i, j):
    from . import eig
    return eig.get(v, i, j)


def mat_set(eng, v, i, j, x):
    from . import eig
    return eig.set_el(eng, v, i, j, x)


def mat_block(v, r0, c0, nr, nc):
    return Mat(nr, nc, [v.at(r0 + i, c0 + j) for i in range(nr) for j in range(nc)], v.T)


def mat_setblock(v, r0, c0, nr, nc, x):
    e = list(v.e)
    for i in range(nr):
        for j in range(nc):
            e[(r0 + i) * v.c + c0 + j] = x.at(i, j)
    return Mat(v.r, v.c, e, v.T)


def view_get(eng, v, f):
    return f[0](v)


def view_set(eng, v, f, x):
    return f[1](v, x)


class Hook:
    """project-specific models (aslam backend objects); subclasses override"""
    def member(self, eng, e, me, st, lv, obj, name, args):
        return None
    def operator(self, eng, e, st, op, vs, av, bv):
        return None
    def function(self, eng, e, ref, name, args, st):
        return None
    def construct(self, eng, e, T, args, st):
        return None
    def heap_field(self, eng, e, st, lv, name):
        return None
