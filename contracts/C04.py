from contracts.core import *
from contracts.C02 import BEN, BEHAS
from contracts import ptree
from vc.values import Obj
from vc.eig import MX_R, MX_C, MX_EL, dyn_eq

CODE = '''
#include <vector>
#include <algorithm>
#include "$REPO/incremental_calibration/src/base/Timestamp.cpp"
#include "$REPO/incremental_calibration/src/core/IncrementalEstimator.cpp"
'''
CLS = 'IncrementalEstimator'
PRB = 'IncrementalOptimizationProblem'
n_ = lambda f: '%s::%s' % (CLS, f)

# ---------------------------------------------------------------- the linear solver: an opaque state, and what its accessors return in that state
STATE = z3.DeclareSort('SolverState')
sf = lambda n, T: z3.Function('solver_' + n, STATE, T)
MAT = dict(sv=sf('singularValues', MATX), null=sf('nullSpace', MATX), row=sf('rowSpace', MATX), cov=sf('covariance', MATX), rcov=sf('rowSpaceCovariance', MATX))
NUM = dict(log2=sf('singularValuesLog2Sum', R), svdtol=sf('svdTolerance', R), qrtol=sf('qrTolerance', R), flops=sf('numFlops', R),
           rank=sf('svdRank', I), rankdef=sf('svdRankDeficiency', I), qr=sf('qrRank', I), qrdef=sf('qrRankDeficiency', I), peak=sf('peakMemoryUsage', I), mem=sf('memoryUsage', I))
ANALYZED = z3.Function('analyzed_unscaled', STATE, STATE)
SOLVER = z3.Function('solver_of', I, I)              # optimizer -> its linear solver
HELD = z3.Function('held_by', AII, I, I, B)           # list of batches, length, variable
SVDGET = {'getSingularValues': 'sv', 'getNullSpace': 'null', 'getRowSpace': 'row', 'getCovariance': 'cov', 'getRowSpaceCovariance': 'rcov',
          'getSingularValuesLog2Sum': 'log2', 'getSVDTolerance': 'svdtol', 'getQRTolerance': 'qrtol', 'getNumFlops': 'flops', 'getSVDRank': 'rank',
          'getSVDRankDeficiency': 'rankdef', 'getQRRank': 'qr', 'getQRRankDeficiency': 'qrdef', 'getPeakMemoryUsage': 'peak', 'getMemoryUsage': 'mem'}
ALL = dict(MAT, **NUM)
# reported statistic -> accessor state
STATS = {'_singularValues': 'sv', '_nobsBasis': 'null', '_obsBasis': 'row', '_sigma2Theta': 'cov', '_sigma2ThetaObs': 'rcov', '_svLog2Sum': 'log2', '_svdTolerance': 'svdtol',
         '_qrTolerance': 'qrtol', '_numFlops': 'flops', '_rankTheta': 'rank', '_rankThetaDeficiency': 'rankdef', '_rankPsi': 'qr', '_rankPsiDeficiency': 'qrdef', '_peakMemoryUsage': 'peak', '_memoryUsage': 'mem'}
SCALED = {'_singularValuesScaled': 'sv', '_nobsBasisScaled': 'null', '_obsBasisScaled': 'row', '_sigma2ThetaScaled': 'cov', '_sigma2ThetaObsScaled': 'rcov'}
INRET = [k for k in STATS if k not in ('_svLog2Sum', '_numFlops', '_peakMemoryUsage', '_memoryUsage')] + list(SCALED)

vec = lambda n: VecV(z3.Int(n + '_n'), z3.Const(n + '_a', AII), T_INT)
pvec = lambda n: VecV(z3.Int(n + '_n'), z3.Const(n + '_a', AII), PTR)
GHOSTS = {
    'bat': lambda env: pvec('batches'), 'ord': lambda env: vec('order'), 'gdim': lambda env: z3.Const('groupDim', AII), 'known': lambda env: z3.Const('knownGroups', AIB),
    'vals': lambda env: z3.Const('values', AII), 'saved': lambda env: z3.Const('saved', AII), 'sbat': lambda env: pvec('savedFor'),
    'sol': lambda env: z3.Const('solver0', STATE), 'osol': lambda env: z3.Const('optimized0', STATE), 'ovals': lambda env: z3.Const('optimizedValues0', AII), 'nopt': lambda env: z3.Int('nopt0'),
    'omarg': lambda env: z3.Int('omarg0'), 'oord': lambda env: vec('orderAtOptimize'), 'obat': lambda env: pvec('batchesAtOptimize'), 'ogdim': lambda env: z3.Const('groupDimAtOptimize', AII), 'marg': lambda env: z3.Int('marg0'),
    'J0': lambda env: z3.Real('JStart0'), 'J1': lambda env: z3.Real('JFinal0'), 'it': lambda env: z3.Int('iterations0'),
    'lin': lambda env: pvec('linearSystemFor'), 'sdv': lambda env: pvec('structureDVs'), 'set_': lambda env: pvec('structureErrors'), 'built': lambda env: z3.BoolVal(False),
    'blk': lambda env: z3.Const('blockIndex', AII), 'col': lambda env: z3.Const('columnBase', AII), 'rowb': lambda env: z3.Const('rowBase', AII)}


def fld(o, n):
    if o is None or n not in o.f:
        raise Unsupported('no field ' + n)
    return o.f[n]


def exact(a, b):
    return And(a.n == b.n, a.a == b.a)


def order_ok(o, known):
    return And(o.n >= 0, distinct(o), fa(lambda j: Imp(And(0 <= j, j < o.n), known[o.a[j]]), lambda j: o.a[j]))


def sumdim(t, o, n):
    return ISUM(z3.Const('orderDims!%s!%s' % (o.sexpr(), t.sexpr()), AII), 0, n)


def hook(cls, m, np, ret=None, mod=(), post=None, exc=(), pre=None):
    c = K('%s::%s' % (cls, m), ('%s::%s' % (cls, m), np), exc=exc, modifies=[('ghost', x) for x in mod], post=post)
    c.modular = True
    c._pre = lambda cc: ([('object exists', cc.this_id != 0)] if cc.this_id is not None else []) + (pre(cc) if pre else [])
    if ret:
        c.retf = ret
    return c


def gdims(cx_or_store, o):
    """dimension of each group in the order, as an array"""
    gd = cx_or_store
    w = z3.Const(fname('dimOf'), AII)
    return w, fa(lambda i: w[i] == gd[o.a[i]], lambda i: [w[i], o.a[i]])


def hooks():
    o = {}
    def add(c, tag=None):
        o[(c.fn[0], c.fn[1], tag)] = c
    # --- the problem, by the contracts C02 and C03 discharge on its body
    def p_add(cx, exc):
        a, b, x = cx.old_ghost('bat'), cx.ghost('bat'), cx.args[0]
        if exc:
            return []
        return [('appended', And(b.n == a.n + 1, b.a == z3.Store(a.a, a.n, x))),
                ('a batch with error terms is not already there', Imp(BEN(x) > 0, fa(lambda k: Imp(And(0 <= k, k < a.n), a.a[k] != x), lambda k: a.a[k]))),
                ('valid order', order_ok(cx.ghost('ord'), cx.ghost('known')))]
    ad = hook(PRB, 'add', 1, post=p_add, exc=('InvalidOperationException', 'NullPointerException'))
    ad._mod = lambda cc, exc: [] if exc else [('ghost', x) for x in ('bat', 'ord', 'known', 'gdim')]
    add(ad)
    def p_remove(cx, exc):
        a, b, x = cx.old_ghost('bat'), cx.ghost('bat'), cx.args[0]
        i = z3.Int(fname('removed'))
        return shifted(a, b, i) + [('the given batch', And(a.a[i] == x, fa(lambda k: Imp(And(0 <= k, k < i), a.a[k] != x), lambda k: a.a[k]))), ('valid order', order_ok(cx.ghost('ord'), cx.ghost('known')))]
    def shifted(a, b, i):
        return [('one less', And(0 <= i, i < a.n, b.n == a.n - 1)), ('others keep their order', fa(lambda k: Imp(And(0 <= k, k < b.n), b.a[k] == a.a[If(k < i, k, k + 1)]), lambda k: b.a[k])),
                ('nothing else', fa(lambda k: Imp(And(0 <= k, k < i), b.a[k] == a.a[k]), lambda k: a.a[k]))]
    W = ('bat', 'ord', 'known', 'gdim')
    def here(cc):
        a = cc.old_ghost('bat') or cc.old_store[('ghost', 'bat')]
        return [('the batch is in the problem', Not(fa(lambda k: Imp(And(0 <= k, k < a.n), a.a[k] != cc.args[0]), lambda k: a.a[k])))]
    rs = hook(PRB, 'remove', 1, post=p_remove, mod=W, pre=here)
    add(rs, 'first:obj')
    def p_removei(cx, exc):
        a, b, i = cx.old_ghost('bat'), cx.ghost('bat'), cx.args[0]
        if exc:
            return [('only indices out of range are rejected', i >= a.n)]
        return shifted(a, b, i) + [('valid order', order_ok(cx.ghost('ord'), cx.ghost('known')))]
    ri = hook(PRB, 'remove', 1, post=p_removei, exc=('OutOfBoundException',))
    ri._mod = lambda cc, exc: [] if exc else [('ghost', x) for x in W]
    add(ri, 'first:int')
    add(hook(PRB, 'saveDesignVariables', 0, mod=('saved', 'sbat'), post=lambda cx, exc: [('saved', And(cx.ghost('saved') == cx.ghost('vals'), exact(cx.ghost('sbat'), cx.ghost('bat'))))]))
    def held(b, d):
        return HELD(b.a, b.n, d)
    add(hook(PRB, 'restoreDesignVariables', 0, mod=('vals',), post=lambda cx, exc: [('saved values come back', fa(lambda d: cx.ghost('vals')[d] == If(held(cx.ghost('sbat'), d), cx.ghost('saved')[d], cx.old_ghost('vals')[d]), lambda d: cx.ghost('vals')[d]))]))
    add(hook(PRB, 'getGroupsOrdering', 0, lambda cx, t: LV(('ghost', 'ord'))))
    def p_order(cx, exc):
        g = cx.args[0]
        a = cx.old_ghost('ord')
        ok = And(g.n == a.n, order_ok(g, cx.ghost('known')))
        return [('an order listing every group once is required', Not(ok))] if exc else [('the given order', eqv(cx.ghost('ord'), g)), ('valid', ok)]
    so = hook(PRB, 'setGroupsOrdering', 1, post=p_order, exc=('OutOfBoundException',))
    so._mod = lambda cc, exc: [] if exc else [('ghost', 'ord')]
    add(so)
    add(hook(PRB, 'getGroupDim', 1, lambda cx, t: cx.ghost('gdim')[cx.args[0]], pre=lambda cc: [('known group', cc.old_store[('ghost', 'known')][cc.args[0]])], post=lambda cx, exc: [('not negative', cx.ghost('gdim')[cx.args[0]] >= 0)]))
    add(hook(PRB, 'getNumOptimizationProblems', 0, lambda cx, t: cx.ghost('bat').n, post=lambda cx, exc: [('not negative', cx.ghost('bat').n >= 0)]))
    def p_find(cx, t):
        a, x = cx.ghost('bat'), cx.args[0]
        i = z3.Int(fname('foundAt'))
        t.assume(And(0 <= i, i <= a.n, Imp(i < a.n, a.a[i] == x), fa(lambda k: Imp(And(0 <= k, k < i), a.a[k] != x), lambda k: a.a[k])))
        return It(LV(('ghost', 'bat')), i, 'vec')
    add(hook(PRB, 'getOptimizationProblem', 1, p_find), 'first:obj')
    add(hook(PRB, 'getOptimizationProblemEnd', 0, lambda cx, t: It(LV(('ghost', 'bat')), cx.ghost('bat').n, 'vec')))
    add(hook(PRB, 'getOptimizationProblemBegin', 0, lambda cx, t: It(LV(('ghost', 'bat')), z3.IntVal(0), 'vec')))
    # --- the linear solver
    for m, k in SVDGET.items():
        for cls in ('AslamTruncatedSvdSolver', 'TruncatedSvdSolver'):
            add(hook(cls, m, 0, lambda cx, t, k=k: ALL[k](cx.ghost('sol'))))
    for cls in ('AslamTruncatedSvdSolver', 'TruncatedSvdSolver'):
        add(hook(cls, 'setMargStartIndex', 1, mod=('marg',), post=lambda cx, exc: [('stored', cx.ghost('marg') == cx.args[0])]))
        add(hook(cls, 'getOptions', 0, lambda cx, t: LV(('obj', 'solverOptions'))))
        add(hook(cls, 'analyzeMarginal', 0, mod=('sol',), post=lambda cx, exc: [('the unscaled marginal system is analysed', cx.ghost('sol') == ANALYZED(cx.old_ghost('sol')))]))
    # --- the optimizer
    add(hook('Optimizer2', 'getSolver', 0, lambda cx, t: SOLVER(cx.this_id), post=lambda cx, exc: [('it has a solver', SOLVER(cx.this_id) > 0)]))
    add(hook('Optimizer2', 'options', 0, lambda cx, t: LV(('obj', 'optimizerOptions'))))
    def p_opt(cx, exc):
        g = cx.ghost
        b = g('bat')
        return [('only variables of the problem change', fa(lambda d: Imp(Not(held(b, d)), g('vals')[d] == cx.old_ghost('vals')[d]), lambda d: g('vals')[d])),
                ('recorded', And(g('osol') == g('sol'), g('ovals') == g('vals'), g('omarg') == g('marg'), g('nopt') == cx.old_ghost('nopt') + 1, exact(g('oord'), g('ord')), exact(g('obat'), b), g('ogdim') == g('gdim')))]
    def r_opt(cx, t):
        t.assume(cx.ghost('it') >= 0)
        return Rec('SolutionReturnValue', {'JStart': cx.ghost('J0'), 'JFinal': cx.ghost('J1'), 'iterations': cx.ghost('it'), 'linearSolverFailure': z3.Bool(fname('linearSolverFailure')), 'failedIterations': z3.Int(fname('failedIterations'))})
    add(hook('Optimizer2', 'optimize', 0, r_opt, mod=('vals', 'sol', 'osol', 'ovals', 'omarg', 'nopt', 'oord', 'obat', 'ogdim', 'J0', 'J1', 'it'), post=p_opt))
    now = hook('Timestamp', 'now', 0, lambda cx, t: z3.Real(fname('now')))
    add(now)
    return o


def order_modular():
    c = hook(CLS, 'orderMarginalizedDesignVariables', 0, post=order_post, exc=('InvalidOperationException',))
    c._mod = lambda cc, exc: [] if exc else [('ghost', 'ord')]
    return c


def absent(cx):
    o = cx.ghost('ord')
    return fa(lambda j: Imp(And(0 <= j, j < o.n), o.a[j] != fld(cx.old, '_margGroupId')), lambda j: o.a[j])


def order_post(cx, exc):
    o, n = cx.old_ghost('ord'), cx.ghost('ord')
    G = fld(cx.old, '_margGroupId')
    if exc:
        return [('only without calibration parameters', absent(cx)), ('same order', eqv(o, n))]
    return [('calibration group last', And(n.n == o.n, n.n >= 1, n.a[n.n - 1] == G)), ('each group once', order_ok(n, cx.ghost('known')))]


def restore_modular():
    return hook(CLS, 'restoreLinearSolver', 0, mod=('lin',), post=lambda cx, exc: [('system of the current problem', eqv(cx.ghost('lin'), cx.ghost('bat')))])


# ---------------------------------------------------------------- rebuilding the linear system
PN, PDV, PPOS = z3.Int('problem_numDesignVariables'), z3.Const('problem_designVariables', AII), z3.Const('problem_index_of', AII)
QN, QET, QPOS = z3.Int('problem_numErrorTerms'), z3.Const('problem_errorTerms', AII), z3.Const('problem_error_index_of', AII)
EDIM = z3.Function('et_dimension', I, I)
ACTV, COLW, ROWW = z3.Const('activeOf', AII), z3.Const('columnsOf', AII), z3.Const('rowsOf', AII)
SYS_AX = [fa(lambda i: ACTV[i] == If(ACT(PDV[i]), 1, 0), lambda i: ACTV[i]), fa(lambda i: COLW[i] == If(ACT(PDV[i]), DIM(PDV[i]), 0), lambda i: COLW[i]), fa(lambda i: ROWW[i] == EDIM(QET[i]), lambda i: ROWW[i]),
          fa(lambda i: Imp(And(0 <= i, i < PN), And(PDV[i] != 0, PPOS[PDV[i]] == i)), lambda i: PDV[i]), fa(lambda i: Imp(And(0 <= i, i < QN), And(QET[i] != 0, QPOS[QET[i]] == i)), lambda i: QET[i]),
          fa(lambda i: DIM(i) >= 0, lambda i: DIM(i)), fa(lambda i: EDIM(i) >= 0, lambda i: EDIM(i)), PN >= 0, QN >= 0]


def system_hooks():
    o = {}
    def add(c):
        o[(c.fn[0], c.fn[1], None)] = c
    for cls in (PRB, 'OptimizationProblemBase'):
        add(hook(cls, 'numDesignVariables', 0, lambda cx, t: PN))
        add(hook(cls, 'designVariable', 1, lambda cx, t: PDV[cx.args[0]], pre=lambda cc: [('index in range', And(0 <= cc.args[0], cc.args[0] < PN))]))
        add(hook(cls, 'numErrorTerms', 0, lambda cx, t: QN))
        add(hook(cls, 'errorTerm', 1, lambda cx, t: QET[cx.args[0]], pre=lambda cc: [('index in range', And(0 <= cc.args[0], cc.args[0] < QN))]))
    add(hook('DesignVariable', 'isActive', 0, lambda cx, t: ACT(cx.this_id)))
    add(hook('DesignVariable', 'minimalDimensions', 0, lambda cx, t: DIM(cx.this_id)))
    add(hook('ErrorTerm', 'dimension', 0, lambda cx, t: EDIM(cx.this_id)))
    for cls, m, g in (('DesignVariable', 'setBlockIndex', 'blk'), ('DesignVariable', 'setColumnBase', 'col'), ('ErrorTerm', 'setRowBase', 'rowb')):
        add(hook(cls, m, 1, mod=(g,), post=lambda cx, exc, g=g: [('stored', cx.ghost(g) == z3.Store(cx.old_ghost(g), cx.this_id, cx.args[0]))]))
    for cls in ('AslamTruncatedSvdSolver', 'LinearSystemSolver'):
        add(hook(cls, 'initMatrixStructure', 3, mod=('sdv', 'set_', 'built'), post=lambda cx, exc: [('structure', And(exact(cx.ghost('sdv'), cx.args[0]), exact(cx.ghost('set_'), cx.args[1]), Not(cx.ghost('built'))))], pre=lambda cc: [('no diagonal conditioner', Not(cc.args[2]))]))
        add(hook(cls, 'buildSystem', 2, mod=('built',), post=lambda cx, exc: [('built', cx.ghost('built'))]))
    add(hook('Optimizer2', 'getSolver', 0, lambda cx, t: SOLVER(cx.this_id), post=lambda cx, exc: [('it has a solver', SOLVER(cx.this_id) > 0)]))
    add(hook('Optimizer2', 'options', 0, lambda cx, t: LV(('obj', 'optimizerOptions'))))
    return o


def dv_facts(vec_, blk, col, n):
    """the active variables among the first n, in order, with their block indices and columns"""
    c = lambda k: ISUM(ACTV, 0, k)
    return [('as many', And(vec_.n == c(n), c(n) >= 0)),
            ('the active variables in order', fa(lambda k: Imp(And(0 <= k, k < n, ACT(PDV[k])), And(0 <= c(k), c(k) < c(n), vec_.a[c(k)] == PDV[k])), lambda k: [PDV[k], ISUM(ACTV, 0, k)])),
            ('block indices', fa(lambda k: Imp(And(0 <= k, k < n, ACT(PDV[k])), blk[PDV[k]] == c(k)), lambda k: PDV[k])),
            ('columns', fa(lambda k: Imp(And(0 <= k, k < n, ACT(PDV[k])), col[PDV[k]] == ISUM(COLW, 0, k)), lambda k: PDV[k]))]


def et_facts(vec_, rowb, n):
    return [('as many error terms', vec_.n == n), ('the error terms in order', fa(lambda k: Imp(And(0 <= k, k < n), vec_.a[k] == QET[k]), lambda k: [QET[k], vec_.a[k]])),
            ('rows', fa(lambda k: Imp(And(0 <= k, k < n), rowb[QET[k]] == ISUM(ROWW, 0, k)), lambda k: QET[k]))]


class System(Loop):
    def cands(self, lc):
        out = []
        g = lambda t, n: t.store[('ghost', n)]
        for (nm_, cur) in lc.cursors():
            for rp in lc.ints():
                out.append(('columns so far', lambda t, rp=rp, cur=cur: lc.get(t, rp) == ISUM(COLW, 0, cur(t))))
                out.append(('rows so far', lambda t, rp=rp, cur=cur: lc.get(t, rp) == ISUM(ROWW, 0, cur(t))))
            for rp in lc.vars(lambda v: isinstance(v, VecV)):
                for j in range(4):
                    out.append(('variables so far %d' % j, lambda t, rp=rp, cur=cur, j=j: dv_facts(lc.get(t, rp), g(t, 'blk'), g(t, 'col'), cur(t))[j][1]))
                for j in range(3):
                    out.append(('error terms so far %d' % j, lambda t, rp=rp, cur=cur, j=j: et_facts(lc.get(t, rp), g(t, 'rowb'), cur(t))[j][1]))
        return out


def restore_contract():
    def post(cx, exc):
        g = cx.ghost
        return dv_facts(g('sdv'), g('blk'), g('col'), PN) + et_facts(g('set_'), g('rowb'), QN) + [('the system is built', g('built'))]
    c = K_('restoreLinearSolver', 0, post)
    c.loop = System()
    return c


OPT = LV(('obj', 'optimizerOptions'))
SOPT = LV(('obj', 'solverOptions'))


def setup(env):
    env.st.store[('obj', 'solverOptions')] = Rec('TruncatedSvdSolverOptions', {'columnScaling': z3.Bool('columnScaling'), 'verbose': z3.Bool('svd_verbose')})
    env.st.store[('obj', 'optimizerOptions')] = Rec('Optimizer2Options', {'maxIterations': z3.Int('maxIterations'), 'numThreadsJacobian': z3.Int('numThreadsJacobian'), 'verbose': z3.Bool('opt_verbose'),
                                                                           'linearSystemSolver': z3.Int('linearSystemSolver0'), 'trustRegionPolicy': z3.Int('trustRegionPolicy0')})


def pre(cc):
    g = lambda n: cc.old_store[('ghost', n)]
    o = cc.old
    return [('optimizer and problem exist', And(fld(o, '_optimizer') > 0, fld(o, '_problem') > 0)),
            ('the problem is in a valid state', And(g('bat').n >= 0, order_ok(g('ord'), g('known'))))]


class Dims(Loop):
    """sum of the dimensions of the groups seen so far"""
    def cands(self, lc):
        out = []
        o, gd = lc.entry.store[('ghost', 'ord')], lc.entry.store[('ghost', 'gdim')]
        w, f = gdims(gd, o)
        lc.eng.axioms.append(f)
        for (nm_, cur) in lc.cursors():
            for rp in lc.ints():
                out.append(('dimensions so far', lambda t, rp=rp, cur=cur: lc.get(t, rp) == ISUM(w, 0, cur(t))))
                out.append(('at least the last one', lambda t, rp=rp, cur=cur: Imp(cur(t) >= 1, lc.get(t, rp) >= w[cur(t) - 1])))
                out.append(('not negative', lambda t, rp=rp: lc.get(t, rp) >= 0))
        return out


def K_(name, np, post, **kw):
    tag = kw.pop('tag', name)
    sig = kw.pop('sig', None)
    c = K(n_(tag), (n_(name), np) + ((sig,) if sig else ()), post=post, setup=setup, ghosts=GHOSTS, **kw)
    c._pre = pre
    return c


def same_dyn(a, b):
    return z3.BoolVal(True) if a.eq(b) else dyn_eq(a, b)


def val_eq(a, b):
    return same_dyn(a, b) if a.sort() == MATX else a == b


def empty(m, vector):
    return And(MX_R(m) == 0, MX_C(m) == (1 if vector else 0))


def statistics(get, st, cs):
    """the statistics are those of solver state st (scaled ones: of the scaled system, or empty)"""
    A = ANALYZED(st)
    return [('statistics are those of the new solution', And([val_eq(get(k), ALL[s](A)) for k, s in STATS.items() if get(k) is not None])),
            ('scaled statistics are those of the scaled system, or empty', And([And(Imp(cs, val_eq(get(k), ALL[s](st))), Imp(Not(cs), empty(get(k), s == 'sv'))) for k, s in SCALED.items()]))]


def sane(cx):
    """assumed of the solver: singular values are a column vector"""
    for x in (cx.ghost('osol'), ANALYZED(cx.ghost('osol'))):
        cx.st.assume(MX_C(MAT['sv'](x)) == 1)


RET = {k: k.strip('_') for k in INRET}
def returned(r):
    return lambda k: fld(r, RET[k]) if k in RET else None


def located(cx, cond=z3.BoolVal(True)):
    """the optimiser ran once, on the current batches, with the calibration parameters last in the order and the marginalisation starting at their first column"""
    o, gd = cx.ghost('oord'), cx.ghost('ogdim')
    w, f = gdims(gd, o)
    cx.st.assume(f)
    cx.st.assume(Imp(o.n >= 1, And(ISUM(w, 0, o.n) == ISUM(w, 0, o.n - 1) + w[o.n - 1])))
    G = fld(cx.old, '_margGroupId')
    return [('optimised once', cx.ghost('nopt') == cx.old_ghost('nopt') + 1), ('calibration group last in the order', And(o.n >= 1, o.a[o.n - 1] == G)),
            ('marginalisation starts at the calibration parameters', cx.ghost('omarg') == ISUM(w, 0, o.n - 1))]


def contracts():
    out = []
    F_ = ['_informationGain', '_initialCost', '_finalCost'] + list(STATS) + list(SCALED)
    MOD = [('this', x) for x in F_]
    cs = lambda cx: fld(cx.old_store[('obj', 'solverOptions')], 'columnScaling')
    # ----- addBatch
    def add(cx, exc):
        x, force = cx.old_args
        a, o, b = cx.old, cx.old_ghost, cx.ghost
        if exc:
            return [('nothing is kept', And(eqv(o('bat'), b('bat')) if exc != 'InvalidOperationException' else list_eq(o('bat'), b('bat')))), ('no value changes', b('vals') == o('vals')), ('statistics kept', kept(cx))]
        sane(cx)
        r, n = cx.ret, cx.new
        A = ANALYZED(b('osol'))
        ig = (NUM['log2'](A) - fld(a, '_svLog2Sum')) / 2
        op = fld(a, '_options')
        bad = And(fld(op, 'checkValidity'), Or(b('it') == fld(cx.old_store[('obj', 'optimizerOptions')], 'maxIterations'), b('J1') >= b('J0')))
        acc = Or(force, And(Or(ig > fld(op, 'infoGainDelta'), NUM['rank'](A) > fld(a, '_rankTheta')), Not(bad)))
        keepb = fld(r, 'batchAccepted')
        B0, B1 = o('bat'), b('bat')
        fs = [('kept exactly when informative and valid, or forced', keepb == acc)] + located(cx)
        fs += [('optimised with the batch', appended(B0, b('obat'), x))]
        fs += [('returned ' + m, f) for m, f in statistics(returned(r), b('osol'), cs(cx))]
        fs += [('returned gain and costs', And(fld(r, 'informationGain') == ig, fld(r, 'JStart') == b('J0'), fld(r, 'JFinal') == b('J1'), fld(r, 'numIterations') == b('it')))]
        fs += [('accepted: ' + m, Imp(keepb, f)) for m, f in statistics(lambda k: fld(n, k), b('osol'), cs(cx)) +
               [('gain and costs', And(fld(n, '_informationGain') == ig, fld(n, '_initialCost') == b('J0'), fld(n, '_finalCost') == b('J1'))),
                ('the batch is held', appended(B0, B1, x)), ('the variables have the optimised values', b('vals') == b('ovals'))]]
        fs += [('rejected: statistics kept', Imp(Not(keepb), kept(cx))), ('rejected: same batches', Imp(Not(keepb), list_eq(B0, B1))),
               ('rejected: same values', Imp(Not(keepb), fa(lambda d: b('vals')[d] == o('vals')[d], lambda d: b('vals')[d]))),
               ('rejected: the linear system is the one of the remaining batches', Imp(And(Not(keepb), B0.n > 0), eqv(b('lin'), B1)))]
        return fs
    def appended(a, b, x):
        return And(b.n == a.n + 1, b.a[a.n] == x, fa(lambda k: Imp(And(0 <= k, k < a.n), b.a[k] == a.a[k]), lambda k: b.a[k]))
    def list_eq(a, b):
        return And(a.n == b.n, fa(lambda k: Imp(And(0 <= k, k < a.n), b.a[k] == a.a[k]), lambda k: b.a[k]))
    def kept(cx):
        return And([val_eq(fld(cx.old, k), fld(cx.new, k)) for k in F_])
    c = K_('addBatch', 2, add, modifies=MOD, exc=('InvalidOperationException', 'NullPointerException'))
    c._pre = lambda cc: pre(cc) + [('the batch has error terms', And(cc.args[0] != 0, BEN(cc.args[0]) > 0))]
    c.loop = Dims()
    out.append(c)
    # ----- reoptimize, removeBatch
    def reopt(cx, exc, batches=None):
        sane(cx)
        b, n = cx.ghost, cx.new
        fs = [('gain is zero', fld(n, '_informationGain') == 0)] + located(cx)
        fs += statistics(lambda k: fld(n, k), b('osol'), cs(cx)) + [('costs', And(fld(n, '_initialCost') == b('J0'), fld(n, '_finalCost') == b('J1')))]
        fs += [('optimised the current batches', eqv(b('obat'), b('bat'))), ('the variables have the optimised values', b('vals') == b('ovals'))]
        return fs
    def re_(cx, exc):
        if exc:
            return [('only without calibration parameters', absent(cx)), ('statistics kept', kept(cx)), ('nothing changes', And(eqv(cx.ghost('bat'), cx.old_ghost('bat')), cx.ghost('vals') == cx.old_ghost('vals')))]
        r = cx.ret
        return reopt(cx, exc) + [('returned ' + m, f) for m, f in statistics(returned(r), cx.ghost('osol'), cs(cx))] + [
            ('returned gain and costs', And(fld(r, 'informationGain') == 0, fld(r, 'JStart') == cx.ghost('J0'), fld(r, 'JFinal') == cx.ghost('J1'), fld(r, 'numIterations') == cx.ghost('it'), fld(r, 'batchAccepted'))),
            ('same batches', eqv(cx.ghost('bat'), cx.old_ghost('bat')))]
    c = K_('reoptimize', 0, re_, modifies=MOD, exc=('InvalidOperationException',))
    c.loop = Dims()
    out.append(c)
    def rem(cx, exc):
        a, b, i = cx.old_ghost('bat'), cx.ghost('bat'), cx.old_args[0]
        gone = [('the batch is removed', And(i < a.n, b.n == a.n - 1, fa(lambda k: Imp(And(0 <= k, k < b.n), b.a[k] == a.a[If(k < i, k, k + 1)]), lambda k: b.a[k])))]
        if exc == 'OutOfBoundException':
            return [('only indices out of range are rejected', i >= a.n), ('same batches', eqv(a, b)), ('statistics kept', kept(cx))]
        if exc:
            return gone + [('only without calibration parameters', absent(cx)), ('statistics kept', kept(cx))]
        return gone + reopt(cx, exc)
    c = K_('removeBatch', 1, rem, modifies=MOD, exc=('InvalidOperationException', 'OutOfBoundException'), sig='(size_t)', tag='removeBatch(index)')
    c.loop = Dims()
    out.append(c)
    def remb(cx, exc):
        a, b, x = cx.old_ghost('bat'), cx.ghost('bat'), cx.old_args[0]
        out_ = fa(lambda k: Imp(And(0 <= k, k < a.n), a.a[k] != x), lambda k: a.a[k])
        i = z3.Int(fname('at'))
        same = And(eqv(a, b), cx.ghost('vals') == cx.old_ghost('vals'), kept(cx))
        cx.st.assume(And(0 <= i, Imp(Not(out_), And(i < a.n, a.a[i] == x, fa(lambda k: Imp(And(0 <= k, k < i), a.a[k] != x), lambda k: a.a[k])))))       # names the first position of the batch
        gone = And(b.n == a.n - 1, fa(lambda k: Imp(And(0 <= k, k < b.n), b.a[k] == a.a[If(k < i, k, k + 1)]), lambda k: b.a[k]))
        if exc:
            return [('only without calibration parameters', absent(cx)), ('statistics kept', kept(cx)), ('the batch is removed', And(Not(out_), gone))]
        fs = [('a batch that is not held: nothing happens', Imp(out_, same)), ('the batch is removed', Imp(Not(out_), gone))]
        if cx.ghost('osol').eq(cx.old_ghost('osol')):
            return fs + [('a held batch is removed', out_)]
        return fs + [(m, Imp(Not(out_), f)) for m, f in reopt(cx, exc)]
    c = K_('removeBatch', 1, remb, modifies=MOD, exc=('InvalidOperationException',), sig=lambda q: 'size_t' not in q and 'long' not in q, tag='removeBatch(batch)')
    c.loop = Dims()
    out.append(c)
    # ----- order of the groups
    out.append(K_('orderMarginalizedDesignVariables', 0, order_post, exc=('InvalidOperationException',)))
    # ----- accessors
    def acc(m, f, np=0):
        def post(cx, exc):
            v = fld(cx.old, f)
            return [('the stored statistic', val_eq(cx.ret, v))]
        return K_(m, np, post)
    for m, f in [('getMargGroupId', '_margGroupId'), ('getInformationGain', '_informationGain'), ('getRankPsi', '_rankPsi'), ('getRankPsiDeficiency', '_rankPsiDeficiency'), ('getRankTheta', '_rankTheta'),
                 ('getRankThetaDeficiency', '_rankThetaDeficiency'), ('getSVDTolerance', '_svdTolerance'), ('getQRTolerance', '_qrTolerance'), ('getPeakMemoryUsage', '_peakMemoryUsage'), ('getMemoryUsage', '_memoryUsage'),
                 ('getNumFlops', '_numFlops'), ('getInitialCost', '_initialCost'), ('getFinalCost', '_finalCost')]:
        out.append(acc(m, f))
    for m, f in [('getNobsBasis', '_nobsBasis'), ('getObsBasis', '_obsBasis'), ('getSigma2Theta', '_sigma2Theta'), ('getSigma2ThetaObs', '_sigma2ThetaObs'), ('getSingularValues', '_singularValues')]:
        out.append(K_(m, 1, lambda cx, exc, f=f: [('the stored statistic, scaled or not', And(Imp(cx.old_args[0], val_eq(cx.ret, fld(cx.old, f + 'Scaled'))), Imp(Not(cx.old_args[0]), val_eq(cx.ret, fld(cx.old, f)))))]))
    out.append(K_('getNumBatches', 0, lambda cx, exc: [('number of batches', cx.ret == cx.ghost('bat').n)]))
    out.append(K_('getProblem', 0, lambda cx, exc: [('the problem', cx.ret == fld(cx.old, '_problem'))]))
    return out


def ctor_contracts():
    H = hooks()
    for cls in ('Optimizer2',):
        for m in ('initializeLinearSolver', 'initializeTrustRegionPolicy'):
            c = hook(cls, m, 0, mod=('sol',))
            H[(c.fn[0], c.fn[1], None)] = c
        c = hook(cls, 'setProblem', 1, mod=('attached',), post=lambda cx, exc: [('attached', cx.ghost('attached') == z3.Store(cx.old_ghost('attached'), cx.this_id, cx.args[0]))])
        H[(c.fn[0], c.fn[1], None)] = c
    def fresh(cx):
        n = cx.new
        return [('no gain, no costs yet', And(fld(n, '_informationGain') == 0, fld(n, '_svLog2Sum') == 0, fld(n, '_initialCost') == 0, fld(n, '_finalCost') == 0, fld(n, '_numFlops') == 0)),
                ('no rank yet: every first valid solution increases it', And([fld(n, x) == -1 for x in ('_rankTheta', '_rankThetaDeficiency', '_rankPsi', '_rankPsiDeficiency')])),
                ('the optimizer works on the problem', And(fld(n, '_optimizer') > 0, fld(n, '_problem') > 0, cx.ghost('attached')[fld(n, '_optimizer')] == fld(n, '_problem')))]
    def post(cx, exc):
        return fresh(cx) + [('options and calibration group are the given ones', And(eqv(fld(cx.new, '_options'), cx.old_args[1]), fld(cx.new, '_margGroupId') == cx.old_args[0]))]
    c = K(n_('IncrementalEstimator(options)'), (n_('IncrementalEstimator'), 4), post=post, setup=setup, ghosts=dict(GHOSTS, attached=lambda env: z3.Const('attached', AII)))
    T = z3.Int('tree')
    def tree(env):
        setup(env)
        env.st.store[('obj', 'arg0')] = Obj('ptree', id=T)
        env.st.assume(ptree.get(T, 'getInt', 'groupId') >= 0)
    def conf(cx, exc):
        if exc:
            return [('only without a calibration group', Not(ptree.HAS(T, z3.StringVal('groupId'))))]
        o = fld(cx.new, '_options')
        return fresh(cx) + [('the configured calibration group', fld(cx.new, '_margGroupId') == ptree.get(T, 'getInt', 'groupId'))] + \
            [('option %s as configured, or its default' % k, eqv(fld(o, k), ptree.get(T, kind, k, d))) for k, kind, d in (('infoGainDelta', 'getDouble', z3.RealVal('0.2')), ('checkValidity', 'getBool', lift(False)), ('verbose', 'getBool', lift(False)))]
    p = K(n_('IncrementalEstimator(properties)'), (n_('IncrementalEstimator'), 1, 'PropertyTree'), post=conf, setup=tree, exc=('runtime_error',), ghosts=dict(GHOSTS, attached=lambda env: z3.Const('attached', AII)))
    return [Task('u', c, contracts=H), Task('u', p, contracts=H, opts={'hooks': [ptree.Tree()]})]


class P(Property):
    id = 'C04'
    units = {'u': dict(code=CODE)}
    harness = Harness('C04.cpp', ['$REPO/incremental_calibration/src/core/*.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp', '$REPO/incremental_calibration/src/base/Timestamp.cpp', '$REPO/incremental_calibration/src/base/Serializable.cpp'], quick=5, thorough=90, san=True)
    assumptions = ['the optimizer and the linear solver are opaque: optimize changes only variables of the problem and leaves the solver in some state; the accessors are functions of that state; analyzeMarginal moves it to the unscaled analysis',
                   'IncrementalOptimizationProblem is represented by the contracts C02 and C03 discharge on its body', 'optimize reports failure through its result and does not throw', 'a batch has error terms']
    def tasks(self, U):
        H = hooks()
        ts = []
        for c in contracts():
            m = dict(H)
            for r in (restore_modular(), order_modular()):
                m[(r.fn[0], 0, None)] = r
            ts.append(Task('u', c, contracts=m))
        ts.append(Task('u', restore_contract(), contracts=system_hooks(), axioms=SYS_AX))
        return ts + ctor_contracts()


PROPERTY = P()
