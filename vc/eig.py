"""Assumed contracts of Eigen on fixed-size matrices, vectors and arrays (value semantics, exact element
arithmetic), plus opaque dynamic-size matrices."""
import re
import z3
from . import ast as A
from .values import *

MRE = re.compile(r'Eigen::(Matrix|Array)<\s*([\w: ]+?)\s*,\s*(-?\d+)[UL]*\s*,\s*(-?\d+)')
FUNS = ('Zero', 'Ones', 'Identity', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Unit')


def And_(fs):
    return z3.And(fs)


def is_eig(v):
    if isinstance(v, Mat):
        return True
    if isinstance(v, Obj) and v.tag in ('comma', 'ldlt', 'llt', 'diag', 'lu'):
        return True
    return z3.is_expr(v) and v.sort() == MATX


def mkT(T):
    return T


def elemT(xs):
    for x in xs:
        x = lift(x)
        if z3.is_expr(x):
            if x.sort() == R:
                return T_REAL
            if x.sort() == B:
                return T_BOOL
    return T_INT


def is_num0(v, x):
    return False


def simp(x):
    return x


def isconst(i):
    return isinstance(i, int) or z3.is_int_value(z3.simplify(i))


def cint(i):
    return i if isinstance(i, int) else z3.simplify(i).as_long()


def get(v, i, j):
    """element access (in-bounds is obliged at the access)"""
    if z3.is_expr(v) and v.sort() == MATX:
        return MX_EL(v, i, j)
    if not isinstance(v, Mat):
        raise Unsupported('element of %r' % (v,))
    if isconst(i) and isconst(j):
        a, b = cint(i), cint(j)
        if not (0 <= a < v.r and 0 <= b < v.c):
            raise Unsupported('constant index out of range')
        return lift(v.at(a, b))
    r = None
    for a in range(v.r):
        for b in range(v.c):
            x = lift(v.at(a, b))
            if r is None:
                r = x
            else:
                r = z3.If(z3.And(lift(i) == a, lift(j) == b), x, r)
    return r


def set_(v, i, j, x, *_):
    pass


def get_(eng, v, i, j):
    return get(v, i, j)


def set_el(eng, v, i, j, x):
    if isinstance(v, Uninit):
        v = eng.uninit_fresh(v.T)
    x = tosort(x, v.T)
    if isconst(i) and isconst(j):
        e = list(v.e)
        e[cint(i) * v.c + cint(j)] = x
        return Mat(v.r, v.c, e, v.T, v.array)
    e = []
    for a in range(v.r):
        for b in range(v.c):
            e.append(z3.If(z3.And(lift(i) == a, lift(j) == b), x, tosort(v.at(a, b), v.T)))
    return Mat(v.r, v.c, e, v.T, v.array)


def asmat(eng, v):
    if isinstance(v, Uninit) and v.T.k == 'eig':
        return eng.uninit_fresh(v.T)
    if isinstance(v, Obj) and v.tag == 'diag':
        n = len(v.d)
        z = z3.RealVal(0)
        return Mat(n, n, [v.d[i] if i == j else z for i in range(n) for j in range(n)], T_REAL)
    if isinstance(v, Obj) and v.tag == 'comma':
        return v.val
    return v


def ew(eng, st, op, a, b):
    T = elemT([a, b])
    if T.k == 'bool':
        T = T_INT
    return eng.arith(st, op, lift(a), lift(b), Ty('int', True, 64) if T.k == 'int' else T)


def index(eng, e, t, a, f, idx, op):
    ix = [eng.read(t, i) for i in idx]
    if isinstance(f, Uninit):
        f = eng.uninit_fresh(f.T)
    if isinstance(f, VecV) or (z3.is_expr(f) and f.sort() == MATX):
        return dyn_index(eng, e, t, a, f, ix)
    if not isinstance(f, Mat):
        raise Unsupported('index into %r' % (f,))
    if len(ix) == 1:
        i = ix[0]
        eng.oblige(t, z3.And(0 <= i, i < f.r * f.c), 'safety:eigen-index')
        if f.c == 1:
            p = (i, z3.IntVal(0))
        elif f.r == 1:
            p = (z3.IntVal(0), i)
        elif isconst(i):
            k = cint(i)
            p = (z3.IntVal(k % f.r), z3.IntVal(k // f.r))     # column major
        else:
            p = (i % f.r, i / f.r)
    else:
        eng.oblige(t, z3.And(0 <= ix[0], ix[0] < f.r, 0 <= ix[1], ix[1] < f.c), 'safety:eigen-index')
        p = (ix[0], ix[1])
    if isinstance(a, LV):
        return [(t, a.sub(('el', p[0], p[1])))]
    return [(t, get(f, p[0], p[1]))]


MX_R = z3.Function('matx_rows', MATX, I)
MX_C = z3.Function('matx_cols', MATX, I)
MX_S = z3.Function('matx_size', MATX, I)


def size_law(m):
    v = MX_S(m)
    return z3.And(v >= 0, z3.Implies(MX_C(m) == 1, v == MX_R(m)), z3.Implies(MX_R(m) == 1, v == MX_C(m)), z3.Implies(z3.And(MX_R(m) > 0, MX_C(m) > 0), v > 0),
                  z3.Implies(z3.Or(MX_R(m) == 0, MX_C(m) == 0), v == 0))

MX_EL = z3.Function('matx_el', MATX, I, I, R)
MX_COL = z3.Function('matx_col', MATX, z3.ArraySort(I, R))      # first column


def dyn_new(st, r, c, elf, name='matx'):
    """fresh dynamic-size matrix with the given shape and element function"""
    m = z3.Const(fname(name), MATX)
    st.assume(z3.And(MX_R(m) == r, MX_C(m) == c))
    if elf is not None:
        p, q = z3.Ints(fname('p') + ' ' + fname('q'))
        st.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < r, 0 <= q, q < c), MX_EL(m, p, q) == elf(p, q)), patterns=[MX_EL(m, p, q)]))
    return m


def dyn_shape(st, m, T=None):
    st.assume(z3.And(MX_R(m) >= 0, MX_C(m) >= 0, size_law(m)))
    if T is not None and T.k == 'eig':
        if T[2] >= 0:
            st.assume(MX_R(m) == T[2])
        if T[3] >= 0:
            st.assume(MX_C(m) == T[3])
    return m


def dyn_of(st, m):
    """dynamic-size copy of a fixed-size matrix"""
    x = z3.Const(fname('matx'), MATX)
    st.assume(z3.And([MX_R(x) == m.r, MX_C(x) == m.c] + [MX_EL(x, i, j) == tosort(lift(m.at(i, j)), T_REAL) for i in range(m.r) for j in range(m.c)]))
    return x


def fixed_of(eng, st, m, r, c):
    eng.oblige(st, z3.And(MX_R(m) == r, MX_C(m) == c), 'safety:eigen-fixed-from-dynamic-size')
    return Mat(r, c, [MX_EL(m, i, j) for i in range(r) for j in range(c)], T_REAL)


def dyn_eq(a, b):
    p, q = z3.Ints(fname('p') + ' ' + fname('q'))
    return z3.And(MX_R(a) == MX_R(b), MX_C(a) == MX_C(b),
                  z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < MX_R(a), 0 <= q, q < MX_C(a)), MX_EL(a, p, q) == MX_EL(b, p, q)), patterns=[MX_EL(a, p, q), MX_EL(b, p, q)]))


def dyn_index(eng, e, t, a, f, ix):
    if isinstance(f, VecV):
        raise Unsupported('index into vector as matrix')
    if len(ix) == 1:
        # vectors only: a column vector unless its type says row vector
        i = ix[0]
        row = False
        eng.oblige(t, z3.And(MX_C(f) == 1, 0 <= i, i < MX_R(f)), 'safety:eigen-index')
        p = (i, z3.IntVal(0))
    else:
        p = (ix[0], ix[1])
        eng.oblige(t, z3.And(0 <= p[0], p[0] < MX_R(f), 0 <= p[1], p[1] < MX_C(f)), 'safety:eigen-index')
    if isinstance(a, LV):
        return [(t, a.sub(('el', p[0], p[1])))]
    return [(t, MX_EL(f, p[0], p[1]))]


def dyn_set(st, m, i, j, x):
    return dyn_new(st, MX_R(m), MX_C(m), lambda p, q: z3.If(z3.And(p == i, q == j), tosort(lift(x), T_REAL), MX_EL(m, p, q)))


def matmul(eng, st, a, b):
    if a.c != b.r:
        raise Unsupported('matrix product sizes %dx%d * %dx%d' % (a.r, a.c, b.r, b.c))
    es = []
    for i in range(a.r):
        for j in range(b.c):
            s = None
            for k in range(a.c):
                p = ew(eng, st, '*', a.at(i, k), b.at(k, j))
                s = p if s is None else ew(eng, st, '+', s, p)
            es.append(s)
    return Mat(a.r, b.c, es, elemT(es))


def cw(eng, st, op, a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.r, a.c) != (b.r, b.c):
            raise Unsupported('size mismatch')
        es = [ew(eng, st, op, x, y) for x, y in zip(a.e, b.e)]
        return Mat(a.r, a.c, es, elemT(es), a.array)
    if isinstance(a, Mat):
        es = [ew(eng, st, op, x, b) for x in a.e]
        return Mat(a.r, a.c, es, elemT(es), a.array)
    es = [ew(eng, st, op, a, y) for y in b.e]
    return Mat(b.r, b.c, es, elemT(es), b.array)


def ccmp(eng, st, op, a, b):
    def one(x, y):
        return eng.compare(st, op, lift(x), lift(y))
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(a.r, a.c, [one(x, y) for x, y in zip(a.e, b.e)], T_BOOL, True)
    if isinstance(a, Mat):
        return Mat(a.r, a.c, [one(x, b) for x in a.e], T_BOOL, True)
    return Mat(b.r, b.c, [one(a, y) for y in b.e], T_BOOL, True)


def operator(eng, e, t, op, vs, av, bv):
    a = vs[0]
    if op in ('<<',) and isinstance(a, LV):
        tgt = av
        if isinstance(tgt, Uninit):
            tgt = eng.uninit_fresh(tgt.T)
        if isinstance(tgt, Mat):
            return [(t, comma_put(eng, t, a, tgt, 0, 0, 0, bv))]
    if op == ',' and isinstance(av, Obj) and av.tag == 'comma':
        return [(t, comma_put(eng, t, av.lv, av.val, av.r, av.c, av.h, bv))]
    if op == '=':
        cur = av
        if isinstance(bv, Obj) and bv.tag in ('ldlt', 'llt', 'lu'):
            eng.write(t, a, bv)
            return [(t, a)]
        bv = asmat(eng, bv)
        if isinstance(cur, Uninit) and cur.T.k == 'eig':
            eng.write(t, a, eng.coerce(t, bv, cur.T))
        elif isinstance(cur, Mat) and isinstance(bv, Mat):
            if (cur.r, cur.c) != (bv.r, bv.c):
                if cur.r * cur.c == bv.r * bv.c and 1 in (bv.r, bv.c):
                    bv = Mat(cur.r, cur.c, bv.e, bv.T)
                else:
                    raise Unsupported('assignment of mismatched sizes')
            eng.write(t, a, Mat(bv.r, bv.c, [tosort(x, cur.T) for x in bv.e], cur.T))
        elif isinstance(cur, Mat) and z3.is_expr(bv) and bv.sort() == MATX:
            eng.write(t, a, fixed_of(eng, t, bv, cur.r, cur.c))
        elif z3.is_expr(cur) and cur.sort() == MATX and isinstance(bv, Mat):
            eng.write(t, a, dyn_of(t, bv))
        else:
            eng.write(t, a, bv)
        return [(t, a)]
    av, bv = asmat(eng, av), asmat(eng, bv)
    if any(z3.is_expr(x) and x.sort() == MATX for x in (av, bv)):
        return dyn_operator(eng, e, t, op, vs, av, bv)
    if bv is None and len(vs) == 1:
        if op == '-':
            return [(t, Mat(av.r, av.c, [-lift(x) for x in av.e], av.T, av.array))]
        if op == '*':
            raise Unsupported('unary *')
    if op in ('[]',):
        return index(eng, e, t, a, av, [bv], op)
    if op in ('+', '-'):
        return [(t, cw(eng, t, op, av, bv))]
    if op in ('*', '/'):
        if isinstance(av, Mat) and isinstance(bv, Mat):
            if av.array or bv.array:
                return [(t, cw(eng, t, op, av, bv))]
            return [(t, matmul(eng, t, av, bv))]
        return [(t, cw(eng, t, op, av, bv))]
    if op in ('+=', '-=', '*=', '/='):
        o = op[0]
        if isinstance(av, Mat) and isinstance(bv, Mat):
            r = matmul(eng, t, av, bv) if o == '*' and not av.array else cw(eng, t, o, av, bv)
        else:
            r = cw(eng, t, o, av, bv)
        eng.write(t, a, Mat(r.r, r.c, r.e, av.T))
        return [(t, a)]
    if op in ('==', '!=', '<', '>', '<=', '>='):
        if op in ('==', '!=') and not (av.array if isinstance(av, Mat) else False):
            q = eqv(av, bv)
            return [(t, q if op == '==' else z3.Not(q))]
        return [(t, ccmp(eng, t, op, av, bv))]
    if op in ('&&', '||'):
        f = z3.And if op == '&&' else z3.Or
        return [(t, Mat(av.r, av.c, [f(x, y) for x, y in zip(av.e, bv.e)], T_BOOL, True))]
    raise Unsupported('eigen operator' + op)


def dyn_operator(eng, e, t, op, vs, av, bv):
    if isinstance(av, Mat):
        av = dyn_of(t, av)
    if isinstance(bv, Mat):
        bv = dyn_of(t, bv)
    isM = lambda x: z3.is_expr(x) and x.sort() == MATX
    sc = lambda x: tosort(lift(x), T_REAL)
    o = op[0] if op in ('+=', '-=', '*=', '/=') else op
    if bv is None and op == '-':
        return [(t, dyn_new(t, MX_R(av), MX_C(av), lambda p, q: -MX_EL(av, p, q)))]
    if op in ('==', '!=') and isM(av) and isM(bv):
        r = dyn_eq(av, bv)
        return [(t, r if op == '==' else z3.Not(r))]
    if o in ('+', '-') and isM(av) and isM(bv):
        eng.oblige(t, z3.And(MX_R(av) == MX_R(bv), MX_C(av) == MX_C(bv)), 'safety:eigen-same-size')
        r = dyn_new(t, MX_R(av), MX_C(av), lambda p, q: MX_EL(av, p, q) + MX_EL(bv, p, q) if o == '+' else MX_EL(av, p, q) - MX_EL(bv, p, q))
    elif o in ('*', '/') and isM(av) and not isM(bv):
        r = dyn_new(t, MX_R(av), MX_C(av), lambda p, q: MX_EL(av, p, q) * sc(bv) if o == '*' else MX_EL(av, p, q) / sc(bv))
    elif o == '*' and isM(bv) and not isM(av):
        r = dyn_new(t, MX_R(bv), MX_C(bv), lambda p, q: sc(av) * MX_EL(bv, p, q))
    elif o == '*' and isM(av) and isM(bv):
        eng.oblige(t, MX_C(av) == MX_R(bv), 'safety:eigen-product-size')
        r = dyn_new(t, MX_R(av), MX_C(bv), None)
        p, q = z3.Ints(fname('p') + ' ' + fname('q'))
        t.assume(z3.Implies(MX_C(av) == 1, z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < MX_R(av), 0 <= q, q < MX_C(bv)),
                 MX_EL(r, p, q) == MX_EL(av, p, 0) * MX_EL(bv, 0, q)), patterns=[MX_EL(r, p, q)])))
    elif op in ('<', '>', '<=', '>=', '==', '!=') and isM(av) and not isM(bv):
        y = sc(bv)
        rel = {'<': lambda x: x < y, '>': lambda x: x > y, '<=': lambda x: x <= y, '>=': lambda x: x >= y, '==': lambda x: x == y, '!=': lambda x: x != y}[op]
        return [(t, Obj('dynbool', m=av, rel=rel))]
    else:
        raise Unsupported('operator%s on dynamic-size matrix' % op)
    if op != o:
        eng.write(t, vs[0], r)
        return [(t, vs[0])]
    return [(t, r)]


def comma_put(eng, t, lv, m, r, c, h, x):
    x = asmat(eng, x)
    if isinstance(x, Mat):
        br, bc = x.r, x.c
    else:
        br, bc = 1, 1
    if c >= m.c:
        r, c, h = r + h, 0, 0
    if r + br > m.r or c + bc > m.c:
        raise Unsupported('comma initialiser overflow')
    e = list(m.e)
    for i in range(br):
        for j in range(bc):
            v = x.at(i, j) if isinstance(x, Mat) else x
            e[(r + i) * m.c + c + j] = tosort(v, m.T)
    nm = Mat(m.r, m.c, e, m.T)
    eng.write(t, lv, nm)
    return Obj('comma', lv=lv, val=nm, r=r, c=c + bc, h=br)


def shape_of(q):
    """dimensions of the plain matrix type named in a type string"""
    ms = MRE.findall(q)
    return ms


def block_dims(q):
    m = re.search(r'VectorBlock<.*,\s*(-?\d+)>\s*$', q)
    if m:
        return int(m.group(1))
    m = re.search(r'Block<.*?>,\s*(-?\d+),\s*(-?\d+),\s*(?:true|false|\d)>\s*$', q)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r',\s*(-?\d+),\s*(-?\d+)(?:,\s*(?:true|false|\d))?>\s*$', q)
    if m:
        return int(m.group(1)), int(m.group(2))
    return None


def det(eng, st, m):
    n = m.r
    if n == 1:
        return m.at(0, 0)
    s = None
    for j in range(n):
        minor = Mat(n - 1, n - 1, [m.at(i, k) for i in range(1, n) for k in range(n) if k != j], m.T)
        p = tosort(m.at(0, j), T_REAL) * det(eng, st, minor)
        p = p if j % 2 == 0 else -p
        s = p if s is None else s + p
    return s


def pd(m):
    """leading principal minors positive (symmetric positive definite)"""
    fs = []
    for k in range(1, m.r + 1):
        sub = Mat(k, k, [m.at(i, j) for i in range(k) for j in range(k)], m.T)
        fs.append(det(None, None, sub) > 0)
    return z3.And(fs)


def lower(m):
    return Mat(m.r, m.c, [m.at(max(i, j), min(i, j)) for i in range(m.r) for j in range(m.c)], m.T)


def psd(m):
    """all principal minors non-negative (symmetric positive semidefinite)"""
    import itertools
    fs = []
    for k in range(1, m.r + 1):
        for ix in itertools.combinations(range(m.r), k):
            fs.append(det(None, None, Mat(k, k, [m.at(i, j) for i in ix for j in ix], m.T)) >= 0)
    return z3.And(fs)


def is_sym(m):
    return z3.And([m.at(i, j) == m.at(j, i) for i in range(m.r) for j in range(i)] + [z3.BoolVal(True)])


def inv_of(m):
    n = m.r
    xs = [tosort(lift(x), T_REAL) for x in m.e]
    if n == 1:
        return Mat(1, 1, [1 / xs[0]], T_REAL)
    return Mat(n, n, [z3.Function('inv%d_%d' % (n, i), *([R] * (n * n + 1)))(*xs) for i in range(n * n)], T_REAL)


def inverse(eng, st, m):
    """inverse as X with M X = I and X M = I whenever det(M) != 0"""
    if m.r == 1:
        return Mat(1, 1, [eng.arith(st, '/', z3.RealVal(1), m.at(0, 0), T_REAL)], T_REAL)
    n = m.r
    if eng.opts.get('inv') == 'opaque':        # the inverse as a function of the entries
        return inv_of(m)
    X = Mat(n, n, [z3.Real(fname('inv[%d,%d]' % (i, j))) for i in range(n) for j in range(n)], T_REAL)
    d = det(eng, st, m)
    p1, p2 = matmul(eng, st, m, X), matmul(eng, st, X, m)
    eye = [z3.RealVal(1 if i == j else 0) for i in range(n) for j in range(n)]
    st.assume(z3.Implies(d != 0, z3.And([x == y for x, y in zip(p1.e, eye)] + [x == y for x, y in zip(p2.e, eye)])))
    return X


def member(eng, e, st, lv, obj, name, args):
    if isinstance(obj, Uninit) and obj.T.k == 'eig':
        obj = eng.uninit_fresh(obj.T)
        eng.write(st, lv, obj)
    if isinstance(obj, Uninit):
        raise Unsupported('member %s of uninitialised %r' % (name, obj.T))
    out = []
    for (t, vs) in eng.ev_list([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], st):
        xs = [eng.read(t, v) for v in vs]
        out += member1(eng, e, t, lv, obj, name, xs, vs)
    return out


CWF = {'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'sin': 'sin', 'cos': 'cos', 'cwiseSqrt': 'sqrt'}


def member1(eng, e, t, lv, m, name, xs, vs):
    from . import models
    if isinstance(m, Obj):
        return obj_member(eng, e, t, lv, m, name, xs)
    if z3.is_expr(m) and m.sort() == MATX:
        return dyn_member(eng, e, t, lv, m, name, xs)
    q = A.qt(e)
    n = m.r * m.c
    if name in ('size',):
        return [(t, z3.IntVal(n))]
    if name in ('rows', 'innerSize'):
        return [(t, z3.IntVal(m.r))]
    if name == 'cols':
        return [(t, z3.IntVal(m.c))]
    if name in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        return index(eng, e, t, lv, m, xs, name)
    if name in ('x', 'y', 'z', 'w'):
        k = 'xyzw'.index(name)
        return index(eng, e, t, lv, m, [z3.IntVal(k)], name)
    if name == 'value':
        return [(t, lift(m.at(0, 0)))]
    if name in ('resize', 'conservativeResize'):
        eng.oblige(t, And_([lift(xs[0]) == n] if len(xs) == 1 else [lift(xs[0]) == m.r, lift(xs[1]) == m.c]), 'safety:eigen-fixed-dimension')
        return [(t, None)]
    if name.startswith('operator ') :
        return [(t, lift(m.at(0, 0)) if n == 1 else m)]
    if name in ('derived', 'eval', 'const_cast_derived', 'noalias', 'real', 'matrix', 'array', 'finished', 'nestedExpression', 'lazyProduct'):
        arr = True if name == 'array' else (False if name == 'matrix' else m.array)
        if name in ('noalias', 'derived', 'const_cast_derived'):
            return [(t, lv)]
        if name == 'array' and isinstance(lv, LV) and False:
            return [(t, lv)]
        return [(t, Mat(m.r, m.c, m.e, m.T, arr))]
    if name in ('transpose', 'adjoint'):
        return [(t, Mat(m.c, m.r, [m.at(i, j) for j in range(m.c) for i in range(m.r)], m.T, m.array))]
    if name == 'operator=':
        return operator(eng, e, t, '=', [lv] + vs, m, xs[0])
    if name == 'swap':
        eng.write(t, lv, asmat(eng, xs[0]))
        eng.write(t, vs[0], m)
        return [(t, None)]
    if name in ('transposeInPlace', 'adjointInPlace'):
        if m.r != m.c:
            raise Unsupported(name)
        eng.write(t, lv, Mat(m.r, m.c, [m.at(j, i) for i in range(m.r) for j in range(m.c)], m.T, m.array))
        return [(t, None)]
    if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'setLinSpaced'):
        if name == 'setIdentity':
            es = [tosort(z3.IntVal(1 if i == j else 0), m.T) for i in range(m.r) for j in range(m.c)]
        elif name in ('setConstant', 'fill'):
            es = [tosort(xs[0], m.T)] * n
        elif name == 'setLinSpaced':
            raise Unsupported(name)
        else:
            es = [tosort(z3.IntVal(0 if name == 'setZero' else 1), m.T)] * n
        eng.write(t, lv, Mat(m.r, m.c, es, m.T))
        return [(t, lv)]
    if name == 'any':
        return [(t, z3.Or([lift(x) if lift(x).sort() == B else lift(x) != 0 for x in m.e]))]
    if name == 'all':
        return [(t, z3.And([lift(x) if lift(x).sort() == B else lift(x) != 0 for x in m.e]))]
    if name == 'count':
        return [(t, z3.Sum([z3.If(lift(x), 1, 0) for x in m.e]))]
    if name in ('hasNaN',):
        return [(t, z3.BoolVal(False))]
    if name == 'allFinite':
        return [(t, z3.BoolVal(True))]
    if name in ('sum', 'prod', 'trace'):
        es = m.e if name != 'trace' else [m.at(i, i) for i in range(m.r)]
        s = lift(es[0])
        for x in es[1:]:
            s = ew(eng, t, '*' if name == 'prod' else '+', s, x)
        return [(t, s)]
    if name in ('minCoeff', 'maxCoeff') and not xs:
        s = lift(m.e[0])
        for x in m.e[1:]:
            s = z3.If(lift(x) < s if name == 'minCoeff' else lift(x) > s, lift(x), s)
        return [(t, s)]
    if name in ('squaredNorm', 'norm'):
        s = None
        for x in m.e:
            p = ew(eng, t, '*', x, x)
            s = p if s is None else ew(eng, t, '+', s, p)
        return [(t, s if name == 'squaredNorm' else models.UF1['sqrt'](tosort(s, T_REAL)))]
    if name == 'dot':
        b = asmat(eng, xs[0])
        s = None
        for x, y in zip(m.e, b.e):
            p = ew(eng, t, '*', x, y)
            s = p if s is None else ew(eng, t, '+', s, p)
        return [(t, s)]
    if name == 'cross':
        b = asmat(eng, xs[0])
        a = m
        mul = lambda i, j: ew(eng, t, '*', a.e[i], b.e[j])
        sub = lambda x, y: ew(eng, t, '-', x, y)
        es = [sub(mul(1, 2), mul(2, 1)), sub(mul(2, 0), mul(0, 2)), sub(mul(0, 1), mul(1, 0))]
        return [(t, Mat(m.r, m.c, es, T_REAL))]
    if name == 'cast':
        ms = None
        mm = re.search(r'scalar_cast_op<[^,]*,\s*([\w ]+)>', q)
        to = parse_type(mm.group(1)) if mm else T_REAL
        es = []
        for x in m.e:
            x = lift(x)
            if to.k == 'int' and x.sort() == R:
                es.append(models.trunc(x))
            else:
                es.append(tosort(x, to))
        return [(t, Mat(m.r, m.c, es, to, m.array))]
    if name in ('cwiseProduct', 'cwiseQuotient', 'cwiseMin', 'cwiseMax', 'min', 'max'):
        b = asmat(eng, xs[0])
        if not isinstance(b, Mat):
            b = Mat(m.r, m.c, [b] * n, m.T)
        if name == 'cwiseProduct':
            return [(t, cw(eng, t, '*', m, b))]
        if name == 'cwiseQuotient':
            return [(t, cw(eng, t, '/', m, b))]
        mn = name in ('cwiseMin', 'min')
        es = [z3.If((lift(x) < lift(y)) if mn else (lift(x) > lift(y)), lift(x), lift(y)) for x, y in zip(m.e, b.e)]
        return [(t, Mat(m.r, m.c, es, m.T, m.array))]
    if name in ('cwiseAbs', 'abs'):
        return [(t, Mat(m.r, m.c, [models.absv(lift(x)) for x in m.e], m.T, m.array))]
    if name in ('cwiseAbs2', 'abs2', 'square'):
        return [(t, Mat(m.r, m.c, [ew(eng, t, '*', x, x) for x in m.e], m.T, m.array))]
    if name in ('cwiseInverse', ) or (name == 'inverse' and m.array):
        return [(t, Mat(m.r, m.c, [eng.arith(t, '/', z3.RealVal(1), lift(x), T_REAL) for x in m.e], T_REAL, m.array))]
    if name in ('ceil', 'floor', 'round'):
        es = []
        for x in m.e:
            x = tosort(lift(x), T_REAL)
            es.append(z3.ToReal({'ceil': lambda: -z3.ToInt(-x), 'floor': lambda: z3.ToInt(x), 'round': lambda: z3.If(x >= 0, z3.ToInt(x + z3.RealVal('1/2')), -z3.ToInt(-x + z3.RealVal('1/2')))}[name]()))
        return [(t, Mat(m.r, m.c, es, T_REAL, True))]
    if name in CWF and (m.array or name.startswith('cwise')):
        return [(t, Mat(m.r, m.c, [models.UF1[CWF[name]](tosort(lift(x), T_REAL)) for x in m.e], T_REAL, m.array))]
    if name == 'determinant':
        return [(t, det(eng, t, m))]
    if name == 'inverse':
        return [(t, inverse(eng, t, m))]
    if name == 'normalized':
        s = z3.Sum([tosort(x, T_REAL) * tosort(x, T_REAL) for x in m.e])
        nr = models.UF1['sqrt'](s)
        return [(t, Mat(m.r, m.c, [tosort(x, T_REAL) / nr for x in m.e], T_REAL))]
    if name in ('ldlt', 'llt', 'lu', 'partialPivLu', 'fullPivLu', 'colPivHouseholderQr', 'householderQr'):
        return [(t, Obj('ldlt', m=m, kind=name.upper()))]
    if name == 'asDiagonal':
        return [(t, Obj('diag', d=list(m.e)))]
    if name == 'isApprox':
        b = asmat(eng, xs[0])
        f = z3.Function('isApprox%dx%d' % (m.r, m.c), *([R] * (2 * n) + [B]))
        return [(t, f(*[tosort(x, T_REAL) for x in list(m.e) + list(b.e)]))]
    if name in ('diagonal',) and not xs:
        k = min(m.r, m.c)
        val = lambda M: Mat(k, 1, [M.at(i, i) for i in range(k)], M.T)
        def put(M, x):
            ee = list(M.e)
            for i in range(k):
                ee[i * M.c + i] = tosort(x.e[i], M.T)
            return Mat(M.r, M.c, ee, M.T)
        if isinstance(lv, LV):
            return [(t, lv.sub(('view', (val, put))))]
        return [(t, val(m))]
    if name in ('data',):
        if isinstance(lv, LV) and m.c == 1:
            return [(t, PtrTo(lv.sub(('el', z3.IntVal(0), z3.IntVal(0)))))]
    b = block_of(e, m, name, xs, q)
    if b is not None:
        r0, c0, nr, nc = b
        if r0 < 0 or c0 < 0 or r0 + nr > m.r or c0 + nc > m.c:
            eng.oblige(t, z3.BoolVal(False), 'safety:eigen-block-bounds')
            raise Unsupported('block out of range')
        if isinstance(lv, LV):
            return [(t, lv.sub(('blk', r0, c0, nr, nc)))]
        return [(t, models.mat_block(m, r0, c0, nr, nc))]
    raise Unsupported('Eigen member %s' % name)


def block_of(e, m, name, xs, q):
    vec = m.c == 1
    cs = []
    for x in xs:
        if not (z3.is_expr(lift(x)) and isconst(lift(x))):
            return None
        cs.append(cint(lift(x)))
    d = block_dims(q)
    if name in ('head', 'tail', 'segment'):
        if name == 'segment':
            off, k = cs[0], (cs[1] if len(cs) > 1 else d)
        else:
            k = cs[0] if cs else d
            off = None
        if isinstance(k, tuple):
            k = k[0] * k[1]
        n = m.r * m.c
        if off is None:
            off = 0 if name == 'head' else n - k
        return (off, 0, k, 1) if vec else (0, off, 1, k)
    if name == 'row':
        return (cs[0], 0, 1, m.c)
    if name == 'col':
        return (0, cs[0], m.r, 1)
    if name == 'block':
        if len(cs) == 4:
            return tuple(cs)
        return (cs[0], cs[1], d[0], d[1])
    if name in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows'):
        k = cs[-1] if cs else (d[0] if 'Rows' in name else d[1])
        return {'topRows': (0, 0, k, m.c), 'bottomRows': (m.r - k, 0, k, m.c), 'leftCols': (0, 0, m.r, k), 'rightCols': (0, m.c - k, m.r, k)}[name]
    if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        a, b = (cs[0], cs[1]) if len(cs) == 2 else d
        return (0 if 'top' in name else m.r - a, 0 if 'Left' in name else m.c - b, a, b)
    return None


LDLT_POS = {}


def obj_member(eng, e, t, lv, o, name, xs):
    if o.tag == 'comma':
        if name == 'finished':
            return [(t, o.val)]
    if o.tag == 'diag':
        return member1(eng, e, t, lv, asmat(eng, o), name, xs, xs)
    if o.tag == 'ldlt':
        m = o.m
        if name == 'solve':
            b = asmat(eng, xs[0])
            X = Mat(m.r, b.c, [z3.Real(fname('solve')) for _ in range(m.r * b.c)], T_REAL)
            p = matmul(eng, t, m, X)
            t.assume(z3.Implies(det(eng, t, m) != 0, z3.And([x == tosort(y, T_REAL) for x, y in zip(p.e, b.e)])))
            return [(t, X)]
        if name == 'isPositive':
            return [(t, z3.Or(pd(lower(m)), psd(lower(m))))]           # (positive semidefinite; the decomposition reads the lower triangle)
        if name == 'info' and getattr(o, 'kind', '') == 'LLT':
            return [(t, z3.If(pd(lower(m)), z3.IntVal(0), z3.IntVal(1)))]
        if name == 'info':
            n = m.r
            f = z3.Function('ldlt_info%d' % n, *([R] * (n * n) + [I]))
            return [(t, f(*[tosort(x, T_REAL) for x in m.e]))]
        if name == 'inverse':
            return [(t, inverse(eng, t, m))]
        if name == 'compute':
            eng.write(t, lv, Obj('ldlt', m=asmat(eng, xs[0]), kind=getattr(o, 'kind', '')))
            return [(t, lv)]
        if name == 'determinant':
            return [(t, det(eng, t, m))]
        if name in ('matrixL', 'matrixU') and getattr(o, 'kind', '') == 'LLT' and isinstance(m, Mat):
            L = chol(m)
            if t is not None:
                t.assume(chol_law(m, L))
            return [(t, L if name == 'matrixL' else Mat(L.c, L.r, [L.at(i, j) for j in range(L.c) for i in range(L.r)], L.T))]
    if o.tag == 'dynbool' and name in ('any', 'all'):
        p, q = z3.Ints(fname('p') + ' ' + fname('q'))
        x, dom = o.rel(MX_EL(o.m, p, q)), z3.And(0 <= p, p < MX_R(o.m), 0 <= q, q < MX_C(o.m))
        return [(t, z3.Exists([p, q], z3.And(dom, x)) if name == 'any' else z3.ForAll([p, q], z3.Implies(dom, x)))]
    raise Unsupported('%s.%s' % (o.tag, name))


def chol(m):
    """lower-triangular Cholesky factor of a matrix, as functions of its lower triangle"""
    n = m.r
    xs = [tosort(lift(m.at(i, j)), T_REAL) for i in range(n) for j in range(i + 1)]
    f = lambda i, j: z3.Function('chol%d_%d_%d' % (n, i, j), *([R] * (len(xs) + 1)))(*xs)
    return Mat(n, n, [f(i, j) if j <= i else z3.RealVal(0) for i in range(n) for j in range(n)], T_REAL)


def chol_law(m, L):
    n = m.r
    return z3.Implies(pd(lower(m)), z3.And([z3.Sum([lift(L.at(i, k)) * lift(L.at(j, k)) for k in range(n)]) == tosort(lift(m.at(i, j)), T_REAL) for i in range(n) for j in range(i + 1)]
                                           + [lift(L.at(i, i)) > 0 for i in range(n)]))


def dyn_member(eng, e, t, lv, m, name, xs):
    dyn_shape(t, m)
    sc = lambda x: tosort(lift(x), T_REAL)
    if name in ('rows', 'cols'):
        return [(t, (MX_R if name == 'rows' else MX_C)(m))]
    if name in ('size',):
        # vectors: the product is simplified when one extent is known to be one
        v = MX_S(m)
        t.assume(size_law(m))
        return [(t, v)]
    if name in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        return dyn_index(eng, e, t, lv, m, xs)
    if name in ('transpose', 'adjoint'):
        return [(t, dyn_new(t, MX_C(m), MX_R(m), lambda p, q: MX_EL(m, q, p)))]
    if name in ('derived', 'eval', 'noalias', 'const_cast_derived', 'matrix', 'array'):
        return [(t, lv if name in ('derived', 'noalias') else m)]
    if name == 'operator=':
        return operator(eng, e, t, '=', [lv] + list(xs), m, xs[0])
    if name in ('setZero', 'setOnes') and not xs:
        eng.write(t, lv, dyn_new(t, MX_R(m), MX_C(m), lambda p, q: z3.RealVal(0 if name == 'setZero' else 1)))
        return [(t, lv)]
    if name == 'resize':
        r, c = (xs[0], z3.IntVal(1)) if len(xs) == 1 else (xs[0], xs[1])
        eng.write(t, lv, dyn_new(t, r, c, None))
        return [(t, None)]
    if name == 'isApprox':
        b = z3.Bool(fname('isApprox'))
        y = xs[0] if z3.is_expr(xs[0]) and xs[0].sort() == MATX else dyn_of(t, asmat(eng, xs[0]))
        t.assume(z3.Implies(dyn_eq(m, y), b))
        return [(t, b)]
    if name == 'sum':
        from .spec import RSUM
        w = MX_COL(m)
        q = z3.Int(fname('q'))
        t.assume(z3.ForAll([q], w[q] == MX_EL(m, q, 0), patterns=[w[q]]))
        eng.oblige(t, MX_C(m) == 1, 'safety:sum-of-a-column')
        return [(t, RSUM(w, 0, MX_R(m)))]
    raise Unsupported('dynamic-size matrix member ' + name)


def function(eng, e, ref, name, args, st):
    """static factories such as Matrix::Zero()"""
    if name not in FUNS:
        return None
    q = A.qt(e)
    ms = MRE.findall(q)
    if not ms:
        return None
    k, sc, r, c = ms[-1]
    T, r, c = parse_type(sc), int(r), int(c)
    out = []
    if r < 0 or c < 0:
        for (t, vs) in eng.ev_list(args, st):
            xs = [eng.read(t, v) for v in vs]
            x = None
            if name == 'Constant':
                x = xs.pop()
            if len(xs) == 1:
                nr, nc = (xs[0], z3.IntVal(c)) if c >= 0 else (z3.IntVal(r), xs[0])
            elif len(xs) == 2:
                nr, nc = xs
            else:
                raise Unsupported(name)
            f = {'Zero': lambda p, q: z3.RealVal(0), 'Ones': lambda p, q: z3.RealVal(1), 'Constant': lambda p, q: tosort(lift(x), T_REAL),
                 'Identity': lambda p, q: z3.If(p == q, z3.RealVal(1), z3.RealVal(0))}.get(name)
            if f is None:
                raise Unsupported(name)
            out.append((t, dyn_new(t, nr, nc, f)))
        return out
    for (t, vs) in eng.ev_list(args, st):
        xs = [eng.read(t, v) for v in vs]
        if name == 'Zero':
            es = [tosort(z3.IntVal(0), T)] * (r * c)
        elif name == 'Ones':
            es = [tosort(z3.IntVal(1), T)] * (r * c)
        elif name == 'Identity':
            es = [tosort(z3.IntVal(1 if i == j else 0), T) for i in range(r) for j in range(c)]
        elif name == 'Constant':
            es = [tosort(xs[-1], T)] * (r * c)
        elif name.startswith('Unit') and len(name) == 5:
            i0 = 'XYZ'.index(name[4])
            if r > 1 and c > 1:         # a column of the identity
                c = 1
            es = [tosort(z3.IntVal(1 if i == i0 else 0), T) for i in range(r * c)]
        else:
            raise Unsupported(name)
        out.append((t, Mat(r, c, es, T, k == 'Array')))
    return out


def construct(eng, e, T, args, st):
    q = A.qt(e)
    real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    if T.k == 'eig':
        if not real:
            return [(st, eng.default(T))]
        out = []
        for (t, vs) in eng.ev_list(real, st):
            xs = [asmat(eng, eng.read(t, v)) for v in vs]
            if len(xs) == 1 and is_eig(xs[0]):
                out.append((t, eng.coerce(t, xs[0], T)))
            elif len(xs) == 1 and T[2] * T[3] == 1:
                out.append((t, Mat(1, 1, [tosort(lift(xs[0]), T[1])], T[1])))
            elif T[2] < 0 or T[3] < 0:
                if len(xs) == 1:
                    r, c = (xs[0], z3.IntVal(T[3])) if T[3] >= 0 else (z3.IntVal(T[2]), xs[0])
                else:
                    r, c = xs[0], xs[1]
                sr, sc = z3.simplify(lift(r)), z3.simplify(lift(c))
                if eng.opts.get('fixdyn') and z3.is_int_value(sr) and z3.is_int_value(sc):
                    # a dynamic matrix constructed with literal extents: its entries one by one
                    n = sr.as_long() * sc.as_long()
                    out.append((t, Mat(sr.as_long(), sc.as_long(), [z3.Const(fname('entry'), R if T[1].k == 'real' else I) for _ in range(n)], T[1])))
                else:
                    out.append((t, dyn_new(t, r, c, None)))
            elif len(xs) == T[2] * T[3]:
                out.append((t, Mat(T[2], T[3], [tosort(lift(x), T[1]) for x in xs], T[1])))
            elif len(xs) == 1 and 1 in (T[2], T[3]) and lift(xs[0]).sort() == I:
                # fixed-size vector constructed with its dimension: the entries are left uninitialised
                eng.oblige(t, lift(xs[0]) == T[2] * T[3], 'safety:eigen-fixed-dimension')
                out.append((t, Uninit(T)))
            else:
                raise Unsupported('Eigen constructor with %d args' % len(xs))
        return out
    if q.startswith(('Eigen::Map<', 'const Eigen::Map<')):
        ms = MRE.findall(q)
        out = []
        for (t, vs) in eng.ev_list(real, st):
            p = eng.read(t, vs[0])
            if not (isinstance(p, PtrTo) and p.lv.path and p.lv.path[-1][0] == 'at') or not ms or len(vs) > 2:
                raise Unsupported('Eigen::Map')
            base = eng.read(t, LV(p.lv.root, p.lv.path[:-1]))
            off = p.lv.path[-1][1]
            r, c = int(ms[0][2]), int(ms[0][3])
            n = eng.read(t, vs[1]) if len(vs) == 2 else z3.IntVal(r * c)
            eng.oblige(t, z3.And(0 <= off, 0 <= n, off + n <= base.n), 'safety:eigen-map-bounds')
            if r >= 0 and c >= 0:
                eng.oblige(t, n == r * c, 'safety:eigen-map-size')
                out.append((t, Mat(r, c, [tosort(z3.Select(base.a, off + i), parse_type(ms[0][1])) for i in range(r * c)], parse_type(ms[0][1]))))
            elif c == 1:
                out.append((t, dyn_new(t, n, z3.IntVal(1), lambda p_, q_: z3.Select(base.a, off + p_))))
            else:
                raise Unsupported('Eigen::Map of matrix')
        return out
    if q.startswith(('Eigen::', 'const Eigen::')):
        if 'LDLT' in q or 'LLT' in q or 'PartialPivLU' in q:
            if len(real) == 1:
                return [(t, x if isinstance(x, Obj) else Obj('ldlt', m=asmat(eng, x), kind='LDLT' if 'LDLT' in q else 'LLT' if 'LLT' in q else 'LU')) for (t, x) in eng.rv(real[0], st)]
        ms = MRE.findall(q)
        if len(real) == 1:
            return eng.rv(real[0], st)
    return None
