from vc.util import *
from vc.models import Hook
from vc.values import Obj, PtrTo, LV, Rec
from contracts.C19 import fld
from contracts import ptree
CODE = '#include "$REPO/aslam_tsvd_solver/src/aslam-tsvd-solver.cc"\n'
CLS = 'AslamTruncatedSvdSolver'
K = Contract
LOG = ('ghost', 'log')
GHOSTS = {'log': lambda env: Obj('log', items=())}
OPTIONS = (('columnScaling', 'getBool'), ('epsNorm', 'getDouble'), ('epsSVD', 'getDouble'), ('epsQR', 'getDouble'), ('svdTol', 'getDouble'), ('qrTol', 'getDouble'), ('verbose', 'getBool'))
ORD = z3.Function('transposable', B)


def log(st, *x):
    st.store[LOG] = Obj('log', items=st.store[LOG].items + (x,))


class Solver(Hook):
    """the Jacobian builder, the decomposition and CHOLMOD: every call is recorded, in order, with what it was given"""
    def each(self, eng, args, st, n, f):
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if len(args) != n:
            raise Unsupported('unexpected number of arguments')
        return [(t, f(t, vs)) for (t, vs) in eng.ev_list(args, st)]
    def member(self, eng, e, me, st, lv, obj, name, args):
        if isinstance(obj, PtrTo) and obj.lv.root[0] == 'cs' or z3.is_expr(obj) and z3.is_int_value(obj):
            if name.startswith('operator') and not args:
                return [(st, obj)]
            return None
        if isinstance(obj, Obj) and obj.tag == 'builder':
            if name == 'J_transpose':
                return [(st, LV(('jt',)))]
            if name == 'buildSystem':
                return self.each(eng, args, st, 2, lambda t, vs: log(t, 'build', eng.read(t, vs[0]), eng.read(t, vs[1])))
            if name == 'initMatrixStructure':
                return self.each(eng, args, st, 2, lambda t, vs: log(t, 'structure', vs[0], eng.read(t, vs[0]), eng.read(t, vs[1])))
            raise Unsupported('Jacobian builder: ' + name)
        if isinstance(obj, Obj) and obj.tag == 'jt' and name == 'getView':
            def view(t, vs):
                p = eng.read(t, vs[0])
                eng.write(t, p.lv, Obj('view', of='jt'))
            return self.each(eng, args, st, 1, view)
        if isinstance(obj, Rec) and lv is not None and lv.root == ('obj', 'this'):
            if name == 'solve' and len(args) == 4:
                return self.each(eng, args, st, 4, lambda t, vs: self.solve(eng, t, vs))
            if name == 'analyzeMarginal' and len(args) == 2:
                return self.each(eng, args, st, 2, lambda t, vs: log(t, 'analyze', self.matrix(eng, t, vs[0]), eng.read(t, vs[1])))
            if name == 'clear' and not args:
                log(st, 'clear')
                return [(st, None)]
        return None
    def operator(self, eng, e, st, op, vs, av, bv):
        return None
    def matrix(self, eng, t, p):
        p = eng.read(t, p)
        if not isinstance(p, PtrTo):
            return Obj('nothing')
        v = eng.read(t, p.lv)
        if isinstance(v, Obj) and v.tag in ('trans', 'view', 'dense'):
            if v.tag == 'trans' and any(x[0] == 'free' and x[1] == v.n for x in t.store[LOG].items):
                return Obj('freed')
            return v
        return Obj('nothing')
    def solve(self, eng, t, vs):
        x = self.fresh(eng, t)
        if not isinstance(vs[3], LV):
            raise Unsupported('solution argument')
        log(t, 'solve', self.matrix(eng, t, vs[0]), self.matrix(eng, t, vs[1]), eng.read(t, vs[2]), x)
        eng.write(t, vs[3], x)
    def fresh(self, eng, t):
        from vc.values import parse_type
        return eng.fresh(parse_type('Eigen::VectorXd'), 'solution', t)
    def function(self, eng, e, ref, name, args, st):
        if name == 'cholmod_l_transpose':
            out = []
            for (t, vs) in eng.ev_list(args, st):
                src, mode = self.matrix(eng, t, vs[0]), eng.read(t, vs[1])
                n = len(t.store[LOG].items)
                u = t.fork()
                u.assume(Not(ORD()))
                t.assume(ORD())
                t.store[('cs', n)] = Obj('trans', of=src, mode=mode, n=n)
                log(t, 'transpose', n)
                log(u, 'notranspose')
                out += [(t, PtrTo(LV(('cs', n)))), (u, lift(0))]
            return out
        if name == 'cholmod_l_free_sparse':
            def free(t, vs):
                p = eng.read(t, vs[0])
                v = eng.read(t, p.lv)
                if isinstance(v, PtrTo) and v.lv.root[0] == 'cs':
                    log(t, 'free', v.lv.root[1])
                    eng.write(t, p.lv, lift(0))
                return lift(1)
            return self.each(eng, args, st, 2, free)
        if name == 'eigenDenseToCholmodDenseView':
            def view(t, vs):
                p = eng.read(t, vs[1])
                eng.write(t, p.lv, Obj('dense', of=eng.read(t, vs[0])))
            return self.each(eng, args, st, 2, view)
        return None
    def construct(self, eng, e, T, args, st):
        if T.k == 'cls' and 'SelfFreeingCholmodPtr' in T[1]:
            def own(t, vs):
                p = eng.read(t, vs[0])
                if isinstance(p, PtrTo):
                    log(t, 'owned', p.lv.root[1])
                return p
            return self.each(eng, args, st, 2, own)
        if T.k == 'cls' and T[1].endswith('google::Fatal'):
            from vc.engine import Exc
            eng.sink.append((st, Exc('google::CheckFailed')))
            return []
        return None


HOOKS = {'hooks': [Solver(), ptree.Tree()], 'assumed': ('solve', 'analyzeMarginal', 'clear', 'eigenDenseToCholmodDenseView', 'SelfFreeingCholmodPtr', 'operator cholmod_sparse_struct *')}


def setup(env):
    st = env.st
    this = st.store[('obj', 'this')]
    if 'jacobian_builder_' not in this.f:
        raise Unsupported('no jacobian_builder_')
    st.store[('obj', 'this')] = this.with_('jacobian_builder_', Obj('builder'))
    st.store[('jt',)] = Obj('jt')


def items(cx, *kinds):
    return [x for x in cx.st.store[LOG].items if not kinds or x[0] in kinds]


def is_system(m):
    """the Jacobian of the system that was built: the transpose, with values, of the builder's matrix"""
    if m.tag != 'trans' or m.of.tag != 'view':
        return lift(False)
    return z3.And(m.mode == 1)


def released(cx):
    """every matrix handed out by CHOLMOD is given back exactly once"""
    new = [x[1] for x in items(cx, 'transpose')]
    gone = sorted(x[1] for x in items(cx, 'free', 'owned'))
    return lift(gone == new)


bool_ = lambda v: v if z3.is_bool(v) else v != 0


def solve_post(cx, exc):
    if exc:
        return []
    s, a = items(cx, 'solve'), items(cx, 'analyze', 'build', 'structure', 'clear')
    x = cx.new_args[0]
    out = [('reports failure exactly when the system cannot be formed', bool_(cx.ret) == ORD()), ('nothing else is done to the system', lift(not a)), ('the matrix is released exactly once', released(cx)),
           ('solves exactly once when the system is formed, not at all otherwise', z3.If(ORD(), lift(len(s) == 1), lift(len(s) == 0)))]
    if not s:
        return out + [('solution untouched on failure', eqv(x, cx.old_args[0]))]
    (_, m, e, j, r) = s[-1]
    out += [('the Jacobian of the system built', is_system(m)), ('the right-hand side of the system', lift(False) if e.tag != 'dense' else eqv(e.of, fld(cx.old, '_e'))),
            ('the columns to be marginalised', j == fld(cx.old, 'margStartIndex_')), ('the solution as computed', eqv(x, r))]
    return out


def analyze_post(cx, exc):
    if exc:
        return []
    s = items(cx, 'analyze')
    out = [('reports failure exactly when the system cannot be formed', bool_(cx.ret) == ORD()), ('nothing else is done to the system', lift(not items(cx, 'solve', 'build', 'structure', 'clear'))), ('the matrix is released exactly once', released(cx)),
           ('analyses exactly once when the system is formed, not at all otherwise', z3.If(ORD(), lift(len(s) == 1), lift(len(s) == 0)))]
    for (_, m, j) in s:
        out += [('the Jacobian of the system built', is_system(m)), ('the columns to be marginalised', j == fld(cx.old, 'margStartIndex_'))]
    return out


def build_post(cx, exc):
    if exc:
        return []
    l = items(cx)
    out = [('the system is built exactly once', lift([x[0] for x in l] == ['build']))]
    if len(l) == 1 and l[0][0] == 'build':
        out += [('number of threads', l[0][1] == cx.old_args[0]), ('robust weighting', bool_(l[0][2]) == bool_(cx.old_args[1]))]
    return out


def init_post(cx, exc):
    l = items(cx)
    diag = bool_(cx.old_args[2])
    if exc:
        return [('refused only with diagonal conditioning', diag), ('nothing is done', lift(not l))]
    out = [('accepted only without diagonal conditioning', Not(diag)), ('previous decomposition dropped, then the structure set', lift([x[0] for x in l] == ['clear', 'structure']))]
    for x in l:
        if x[0] == 'structure':
            out += [('design variables', eqv(x[2], cx.old_args[0])), ('error terms', eqv(x[3], cx.old_args[1]))]
    return out


def jt_post(cx, exc):
    return [] if exc else [('the matrix of the system built', lift(cx.retlv is not None and cx.retlv.root == ('jt',))), ('nothing is done', lift(not items(cx)))]


def options_of(o, want):
    return [(n, eqv(fld(o, n), want(n))) for (n, g) in OPTIONS]


def tree(env):
    env.st.store[('obj', 'arg0')] = Obj('ptree', id=z3.Int('tree'))


class P(Property):
    id = 'C18'
    units = {'w': dict(code=CODE, flt='aslam', extra=('-DVSTUB_CHOLMOD', '-isystem', '/usr/include/suitesparse'))}
    harness = Harness('C18.cpp', [], flags=['-DVSTUB_CHOLMOD', '-fno-access-control', '-isystem', '/usr/include/suitesparse', '-I$REPO'], quick=4, thorough=40, san=True)
    assumptions = ['the decomposition (truncated_svd_solver), the Jacobian builder and linear solver base class (aslam_backend), the property tree (sm_property_tree), glog and CHOLMOD are not available: every call to them is recorded by an assumed contract, with the stand-ins in /verif/stubs',
                   'a transposition either fails and hands out nothing or hands out a matrix that has to be given back exactly once; a self-freeing pointer gives its matrix back exactly once', 'CHECK does not return when its condition is false (here: it throws)',
                   'printing in verbose mode has no effect on the system']
    def tasks(self, U):
        m = lambda f: '%s::%s' % (CLS, f)
        DEF = dict(columnScaling=lift(True), epsNorm=z3.RealVal('1e-8'), epsSVD=z3.RealVal(-1), epsQR=z3.RealVal(-1), svdTol=z3.RealVal(-1), qrTol=z3.RealVal(-1), verbose=lift(False))
        KIND = dict(OPTIONS)
        T = z3.Int('tree')
        from_tree = lambda n: ptree.get(T, KIND[n], n, DEF[n])
        opts = lambda o: fld(o, 'tsvd_options_')
        cons = [
            K('createTsvdOptionsFromPropertyTree', ('createTsvdOptionsFromPropertyTree', 1), setup=tree, post=lambda cx, exc: [] if exc else options_of(cx.ret, from_tree)),
            K(m('constructor (options)'), (m(CLS), 1, 'Options &'), post=lambda cx, exc: [] if exc else options_of(opts(cx.new), lambda n: fld(cx.old_args[0], n))),
            K(m('constructor (properties)'), (m(CLS), 1, 'PropertyTree'), setup=tree, post=lambda cx, exc: [] if exc else options_of(opts(cx.new), from_tree)),
            K(m('buildSystem'), (m('buildSystem'), 2), setup=setup, ghosts=GHOSTS, post=build_post),
            K(m('solveSystem'), (m('solveSystem'), 1), setup=setup, ghosts=GHOSTS, modifies=[('arg', 0)], post=solve_post),
            K(m('analyzeMarginal'), (m('analyzeMarginal'), 0), setup=setup, ghosts=GHOSTS, post=analyze_post),
            K(m('initMatrixStructureImplementation'), (m('initMatrixStructureImplementation'), 3), setup=setup, ghosts=GHOSTS, exc=('CheckFailed',), post=init_post),
            K(m('getJacobianTranspose'), (m('getJacobianTranspose'), 0), setup=setup, ghosts=GHOSTS, post=jt_post),
            K(m('rhsJtJrhs'), (m('rhsJtJrhs'), 0), setup=setup, ghosts=GHOSTS, post=lambda cx, exc: [] if exc else [('zero', cx.ret == 0)]),
        ]
        return [Task('w', c, opts=HOOKS) for c in cons]


PROPERTY = P()
