"""Value domain of the symbolic executor: C++ types -> z3 sorts / python-level values."""
import re
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a violation by itself)."""


# ------------------------------------------------------------------ types
class Ty(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)
    @property
    def k(self):
        return self[0]


T_INT, T_BOOL, T_REAL, T_VOID, T_STR = Ty('int', True, 32), Ty('bool'), Ty('real'), Ty('void'), Ty('str')
T_SIZE = Ty('int', False, 64)
INTS = {'int': (1, 32), 'unsigned int': (0, 32), 'unsigned': (0, 32), 'long': (1, 64), 'unsigned long': (0, 64),
        'long long': (1, 64), 'unsigned long long': (0, 64), 'short': (1, 16), 'unsigned short': (0, 16),
        'char': (1, 8), 'signed char': (1, 8), 'unsigned char': (0, 8), 'size_t': (0, 64), 'std::size_t': (0, 64),
        'ptrdiff_t': (1, 64), 'std::ptrdiff_t': (1, 64), 'difference_type': (1, 64), 'size_type': (0, 64),
        'Eigen::Index': (1, 64), 'Index': (1, 64), 'int64_t': (1, 64), 'uint64_t': (0, 64), 'uint32_t': (0, 32), '__time_t': (1, 64), 'time_t': (1, 64)}
EIG_ALIAS = {}
for _n in (2, 3, 4):
    EIG_ALIAS['Eigen::Vector%dd' % _n] = ('double', _n, 1)
    EIG_ALIAS['Eigen::Matrix%dd' % _n] = ('double', _n, _n)
    EIG_ALIAS['Eigen::RowVector%dd' % _n] = ('double', 1, _n)
EIG_ALIAS['Eigen::VectorXd'] = ('double', -1, 1)
EIG_ALIAS['Eigen::MatrixXd'] = ('double', -1, -1)


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<' or ch == '(':
            d += 1
        elif ch == '>' or ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_ty_cache = {}


def parse_type(s):
    if s in _ty_cache:
        return _ty_cache[s]
    t = _parse_type(s)
    _ty_cache[s] = t
    return t


def _strip(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for w in ('const ', 'volatile ', 'struct ', 'class ', 'typename ', 'enum '):
            if s.startswith(w):
                s = s[len(w):].strip()
                ch = True
        for w in (' const', ' volatile'):
            if s.endswith(w):
                s = s[:-len(w)].strip()
                ch = True
    return s


def _parse_type(s):
    s = _strip(s)
    if s.endswith('&&'):
        return Ty('ref', parse_type(s[:-2]))
    if s.endswith('&'):
        return Ty('ref', parse_type(s[:-1]))
    if s.endswith('*const'):
        s = s[:-5].strip()
    if s.endswith('*'):
        return Ty('ptr', parse_type(s[:-1]))
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m:
        return Ty('arr', parse_type(m.group(1)), int(m.group(2)))
    if s in INTS:
        return Ty('int', bool(INTS[s][0]), INTS[s][1])
    if s == 'bool':
        return T_BOOL
    if s in ('double', 'float', 'long double'):
        return T_REAL
    if s == 'void':
        return T_VOID
    if s == 'std::nullptr_t':
        return Ty('ptr', T_VOID)
    if s in EIG_ALIAS:
        a = EIG_ALIAS[s]
        return Ty('eig', parse_type(a[0]), a[1], a[2])
    if s in ('std::string', 'std::basic_string<char>', 'std::__cxx11::basic_string<char>'):
        return T_STR
    m = re.match(r'^([\w:]+)<(.*)>$', s, re.S)
    if m:
        n, a = m.group(1), split_args(m.group(2))
        n = n.replace('std::__cxx11::', 'std::')
        if n in ('std::vector', 'vector'):
            return Ty('vec', parse_type(a[0]))
        if n in ('std::unordered_map', 'std::map', 'unordered_map', 'map'):
            return Ty('map', parse_type(a[0]), parse_type(a[1]))
        if n in ('std::unordered_set', 'std::set', 'unordered_set', 'set'):
            return Ty('set', parse_type(a[0]))
        if n in ('std::pair', 'pair'):
            return Ty('pair', parse_type(a[0]), parse_type(a[1]))
        if n in ('boost::shared_ptr', 'std::shared_ptr', 'shared_ptr', 'std::unique_ptr', 'boost::weak_ptr'):
            return Ty('ptr', parse_type(a[0]))
        if n in ('Eigen::Matrix', 'Matrix'):
            try:
                dim = lambda x: -1 if x in ('Eigen::Dynamic', 'Dynamic') else int(x.rstrip('ULul'))
                return Ty('eig', parse_type(a[0]), dim(a[1]), dim(a[2]))
            except ValueError:
                pass
    return Ty('cls', s)


def is_num(t):
    return t.k in ('int', 'real', 'bool', 'ptr')


# ------------------------------------------------------------------ z3 datatypes
_dt = {}
_opq = {}


def _sid(s):
    return re.sub(r'\W+', '_', str(s))


def vec_dt(es):
    key = ('vec', es.sexpr() if hasattr(es, 'sexpr') else str(es))
    if key not in _dt:
        d = z3.Datatype('Vec_' + _sid(es))
        d.declare('mkvec_' + _sid(es), ('len_' + _sid(es), I), ('arr_' + _sid(es), z3.ArraySort(I, es)))
        _dt[key] = d.create()
    return _dt[key]


def prod_dt(name, sorts):
    key = ('prod', name, tuple(str(s) for s in sorts))
    if key not in _dt:
        nm = 'P_' + _sid(name) + '_' + '_'.join(_sid(s) for s in sorts)
        d = z3.Datatype(nm)
        d.declare('mk' + nm, *[('f%d_%s' % (i, nm), s) for i, s in enumerate(sorts)])
        _dt[key] = d.create()
    return _dt[key]


def opq(name):
    if name not in _opq:
        _opq[name] = z3.DeclareSort('Opq_' + _sid(name))
    return _opq[name]


MATX = opq('MatX')       # dynamic-size Eigen matrix, opaque


def sort_of(t):
    k = t.k
    if k in ('int', 'ptr', 'enum'):
        return I
    if k == 'str':
        return z3.StringSort()
    if k == 'bool':
        return B
    if k == 'real':
        return R
    if k == 'vec':
        return vec_dt(sort_of(t[1]))
    if k == 'pair':
        return prod_dt('pair', [sort_of(t[1]), sort_of(t[2])])
    if k == 'eig':
        if t[2] < 0 or t[3] < 0:
            return MATX
        return prod_dt('eig%dx%d' % (t[2], t[3]), [sort_of(t[1])] * (t[2] * t[3]))
    if k == 'map':
        ks, vs = sort_of(t[1]), sort_of(t[2])
        return prod_dt('map', [z3.ArraySort(ks, B), z3.ArraySort(ks, vs), I])
    if k == 'set':
        ks = sort_of(t[1])
        return prod_dt('set', [z3.ArraySort(ks, B), I])
    if k == 'ref':
        return sort_of(t[1])
    if k == 'cls':
        return opq(t[1])
    raise Unsupported('no sort for type %r' % (t,))


# ------------------------------------------------------------------ python-level values
class Val:
    pass


class VecV(Val):
    def __init__(self, n, a, T):
        self.n, self.a, self.T = n, a, T
    def __repr__(self):
        return 'VecV(%s,%s)' % (self.n, self.a)
    def __getitem__(self, i):
        return unpack(z3.Select(self.a, i), self.T)


class MapV(Val):
    def __init__(self, dom, val, size, K, V):
        self.dom, self.val, self.size, self.K, self.V = dom, val, size, K, V
    def __repr__(self):
        return 'MapV(%s,%s,%s)' % (self.dom, self.val, self.size)
    def has(self, k):
        return z3.Select(self.dom, k)
    def __getitem__(self, k):
        return unpack(z3.Select(self.val, k), self.V)


class SetV(Val):
    def __init__(self, dom, size, K):
        self.dom, self.size, self.K = dom, size, K
    def has(self, k):
        return z3.Select(self.dom, k)


class PairV(Val):
    def __init__(self, a, b, A, B_):
        self.first, self.second, self.A, self.B = a, b, A, B_


class Mat(Val):
    """Fixed-size Eigen object; e[(r,c)] python/z3 scalars."""
    def __init__(self, r, c, e, T=T_REAL, array=False):
        self.r, self.c, self.e, self.T, self.array = r, c, list(e), T, array
        assert len(self.e) == r * c
    def at(self, i, j=0):
        return self.e[i * self.c + j]
    def __repr__(self):
        return 'Mat%dx%d%s' % (self.r, self.c, self.e)


class Rec(Val):
    def __init__(self, cls, fields):
        self.cls, self.f = cls, fields
    def with_(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Rec(self.cls, d)
    def __repr__(self):
        return 'Rec<%s>' % self.cls


class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)
    def sub(self, *p):
        return LV(self.root, self.path + p)
    def __repr__(self):
        return 'LV(%s,%s)' % (self.root, self.path)


class PtrTo(Val):
    def __init__(self, lv):
        self.lv = lv


class It(Val):
    """iterator: position idx in container at lv. kind: vec/map/set"""
    def __init__(self, lv, idx, kind, key=None):
        self.lv, self.idx, self.kind, self.key = lv, idx, kind, key
    def __repr__(self):
        return 'It(%s,%s)' % (self.lv, self.idx)


class Obj(Val):
    """tagged helper value (stream, comma initialiser, ldlt, lambda ...)"""
    def __init__(self, tag, **kw):
        self.tag = tag
        self.__dict__.update(kw)


class Uninit(Val):
    def __init__(self, T):
        self.T = T


def pack(v, T):
    k = T.k
    if k == 'ref':
        return pack(v, T[1])
    if isinstance(v, Uninit):
        return fresh_z3(T, 'uninit')
    if k == 'vec':
        if z3.is_expr(v):
            return v
        return vec_dt(sort_of(T[1])).constructor(0)(v.n, v.a)
    if k == 'pair':
        return sort_of(T).constructor(0)(pack(v.first, T[1]), pack(v.second, T[2]))
    if k == 'map':
        return sort_of(T).constructor(0)(v.dom, v.val, v.size)
    if k == 'set':
        return sort_of(T).constructor(0)(v.dom, v.size)
    if k == 'eig' and T[2] >= 0 and T[3] >= 0:
        return sort_of(T).constructor(0)(*[tosort(x, T[1]) for x in v.e])
    return tosort(v, T)


def unpack(x, T):
    k = T.k
    if k == 'ref':
        return unpack(x, T[1])
    if k == 'vec':
        d = vec_dt(sort_of(T[1]))
        return VecV(acc(d, 0, x), acc(d, 1, x), T[1])
    if k == 'pair':
        d = sort_of(T)
        return PairV(unpack(acc(d, 0, x), T[1]), unpack(acc(d, 1, x), T[2]), T[1], T[2])
    if k == 'map':
        d = sort_of(T)
        return MapV(acc(d, 0, x), acc(d, 1, x), acc(d, 2, x), T[1], T[2])
    if k == 'set':
        d = sort_of(T)
        return SetV(acc(d, 0, x), acc(d, 1, x), T[1])
    if k == 'eig' and T[2] >= 0 and T[3] >= 0:
        d = sort_of(T)
        return Mat(T[2], T[3], [acc(d, i, x) for i in range(T[2] * T[3])], T[1])
    return x


def acc(d, i, x):
    # simplify accessor(constructor(...))
    if z3.is_app(x) and x.decl().eq(d.constructor(0)):
        return x.arg(i)
    return d.accessor(0, i)(x)


_fresh = [0]


def fname(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


def fresh_z3(T, name):
    return z3.Const(fname(name), sort_of(T))


def tosort(v, T):
    if isinstance(v, bool):
        v = z3.BoolVal(v)
    elif isinstance(v, int):
        v = z3.IntVal(v)
    elif isinstance(v, float):
        v = z3.RealVal(repr(v))
    if not z3.is_expr(v) and T.k == 'str' and getattr(v, 'tag', None) == 'str':
        s = getattr(v, 's', None)
        return s if z3.is_expr(s) else z3.StringVal(s[1:-1]) if isinstance(s, str) and s[:1] == '"' else z3.Const(fname('text'), z3.StringSort())
    if not z3.is_expr(v):
        raise Unsupported('cannot convert %r to %r' % (v, T))
    k = T.k
    if k == 'real' and v.sort() == I:
        return z3.ToReal(v)
    if k == 'real' and v.sort() == B:
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if k == 'int' and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, VecV):
        return same(a.n, b.n) and same(a.a, b.a)
    if isinstance(a, MapV):
        return same(a.dom, b.dom) and same(a.val, b.val) and same(a.size, b.size)
    if isinstance(a, SetV):
        return same(a.dom, b.dom) and same(a.size, b.size)
    if isinstance(a, PairV):
        return same(a.first, b.first) and same(a.second, b.second)
    if isinstance(a, Mat):
        return a.r == b.r and a.c == b.c and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Rec):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[x], b.f[x]) for x in a.f)
    if isinstance(a, Obj) and a.tag == b.tag == 'ldlt':
        return same(a.m, b.m)
    if isinstance(a, It):
        return a.lv.root == b.lv.root and path_same(a.lv.path, b.lv.path) and same(a.idx, b.idx)
    if isinstance(a, PtrTo):
        return a.lv.root == b.lv.root and path_same(a.lv.path, b.lv.path)
    if isinstance(a, Uninit):
        return a.T == b.T
    if isinstance(a, (int, float, str, tuple)):
        return a == b
    return False


def path_same(p, q):
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if x[0] != y[0] or len(x) != len(y):
            return False
        for u, v in zip(x[1:], y[1:]):
            if not same(u, v):
                return False
    return True


def eqv(a, b):
    """structural equality of two values as a z3 Bool (extensional on arrays)."""
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() != b.sort():
            if a.sort() == R or b.sort() == R:
                return tosort(a, T_REAL) == tosort(b, T_REAL)
            if {str(a.sort()), str(b.sort())} == {'Int', 'Bool'}:
                return tosort(a, T_INT) == tosort(b, T_INT)
            raise Unsupported('eq sorts %s %s' % (a.sort(), b.sort()))
        return a == b
    if isinstance(a, VecV):
        i = z3.Int(fname('q'))
        return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), z3.Select(a.a, i) == z3.Select(b.a, i)),
                      patterns=[z3.Select(a.a, i)] if has_pat(a.a) else []))
    if isinstance(a, MapV):
        k = z3.Const(fname('q'), sort_of(a.K))
        return z3.And(a.dom == b.dom, a.size == b.size,
                      z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), z3.Select(a.val, k) == z3.Select(b.val, k))))
    if isinstance(a, SetV):
        return z3.And(a.dom == b.dom, a.size == b.size)
    if isinstance(a, PairV):
        return z3.And(eqv(a.first, b.first), eqv(a.second, b.second))
    if isinstance(a, Mat):
        if (a.r, a.c) != (b.r, b.c):
            return z3.BoolVal(False)
        return z3.And([eqv(lift(x), lift(y)) for x, y in zip(a.e, b.e)])
    if isinstance(a, Rec):
        return z3.And([eqv(a.f[x], b.f[x]) for x in a.f])
    if isinstance(a, It):
        return a.idx == b.idx
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        raise Unsupported('eq on uninitialised value')
    if isinstance(a, PtrTo) and isinstance(b, PtrTo):
        return z3.BoolVal(same(a, b))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.tag == b.tag == 'ldlt':
        return eqv(a.m, b.m)
    if isinstance(a, (str, int)) and a == b:
        return z3.BoolVal(True)
    raise Unsupported('eq %r %r' % (a, b))


def has_pat(a):
    return z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED


def lift(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x))
    return x
