"""Discharging obligations: SMT-LIB 2 export, z3 / cvc5 portfolio, in parallel processes."""
import os, subprocess, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
import z3
from . import spec, poly

JOBS = int(os.environ.get('VERIF_JOBS', '8'))
Z3NEW = shutil.which('z3-new') or shutil.which('z3')
Z3OLD = shutil.which('z3')
CVC5 = shutil.which('cvc5')
SCALE = 1.0            # > 1 in the retry of a failed task: every time limit is multiplied
STATS = {'queries': 0, 'time': 0.0, 'by': {}}

BACKENDS = {
    'z3': [Z3NEW, '-smt2', '-T:%d'],
    'z3-ematch': [Z3NEW, '-smt2', '-T:%d', 'smt.auto_config=false', 'smt.mbqi=false', 'smt.case_split=3'],
    'z3-nx': [Z3NEW, '-smt2', '-T:%d', 'smt.mbqi=false', 'smt.array.extensional=false'],
    'z3-old': [Z3OLD, '-smt2', '-T:%d'],
    'cvc5': [CVC5, '--lang=smt2', '--tlimit=%d000'],
    'cvc5-enum': [CVC5, '--lang=smt2', '--tlimit=%d000', '--enum-inst'],
    'cvc5-nl': [CVC5, '--lang=smt2', '--tlimit=%d000', '--nl-cov'],
}


BEAT = None            # shared cell: when the current in-process solver call started (0: none); the driver ends a worker whose call hangs


def quick_check(s, *assumptions):
    """in-process solver call; the solver sometimes ignores its time limit, which the driver detects through BEAT"""
    if BEAT is not None:
        BEAT.value = time.time()
    try:
        return s.check(*assumptions)
    finally:
        if BEAT is not None:
            BEAT.value = 0.0


def prepare(axioms, hyps, goal, nosum=False):
    fs = list(axioms) + list(hyps) + [z3.Not(goal)]
    if not nosum:
        fs += spec.sum_instances(fs)
    fs += spec.fun_instances(fs)
    return fs


def smt2(fs, model=False):
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    if model:
        txt += '\n(get-model)\n'
    return '(set-logic ALL)\n' + txt if '(set-logic' not in txt else txt


def run_backend(name, path, timeout):
    cmd = [c % timeout if '%d' in c else c for c in BACKENDS[name]]
    t0 = time.time()
    try:
        p = subprocess.run(cmd + [path], capture_output=True, timeout=timeout + 3)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    dt = time.time() - t0
    first = out.strip().split('\n')[0].strip() if out.strip() else ''
    r = first if first in ('sat', 'unsat') else 'unknown'
    return r, dt, out


def solve_one(txt, stages):
    """stages: [(backend, timeout)] -> (result, backend, time, output)"""
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vc_')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        tot = 0
        for (b, to) in stages:
            r, dt, out = run_backend(b, path, int(to * SCALE))
            tot += dt
            STATS['queries'] += 1
            if r != 'unknown':
                return r, b, tot, out
        return 'unknown', None, tot, ''
    finally:
        os.unlink(path)


QUICK = [('z3-nx', 3), ('z3', 5), ('cvc5', 5), ('z3-ematch', 10), ('z3', 30), ('cvc5', 30), ('cvc5-enum', 20)]


def discharge(obls, axioms=(), stages=None, jobs=JOBS):
    """sets o.status in {'proved','refuted','unknown'}, o.backend, o.time"""
    todo = []
    for o in obls:
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.backend, o.time = 'proved', 'simplifier', 0.0
            continue
        fs = prepare(axioms, o.hyps, o.goal, o.opts.get('nosum'))
        o.smt = smt2(fs)
        o.poly = None
        if o.kind in ('post', 'lemma', 'frame', 'call', 'inv'):
            try:
                o.poly = poly.export([f for f in fs if f is not fs[len(axioms) + len(o.hyps)]], o.goal)
            except (z3.Z3Exception, RecursionError):
                o.poly = None
        todo.append(o)

    def work(o):
        if o.poly is not None:
            t0 = time.time()
            ok = poly.run(o.poly, 12 * SCALE)
            o.poly = None
            if ok:
                o.status, o.backend, o.time = 'proved', 'poly', time.time() - t0
                STATS['time'] += o.time
                o.smt = None
                return o
        r, b, dt, out = solve_one(o.smt, o.opts.get('stages') or stages or QUICK)
        o.status = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]
        o.backend, o.time = b, dt
        STATS['time'] += dt
        STATS['by'][b] = STATS['by'].get(b, 0) + 1
        if o.status == 'proved':
            o.smt = None
        return o
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, todo))
    return obls


def model_of(o, timeout=10):
    """best-effort counterexample text for a refuted obligation"""
    if not getattr(o, 'smt', None):
        return ''
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vc_')
    with os.fdopen(fd, 'w') as f:
        f.write(o.smt + '\n(get-model)\n')
    try:
        for b in ('z3', 'cvc5'):
            r, dt, out = run_backend(b, path, timeout)
            if r == 'sat':
                return out[:20000]
    finally:
        os.unlink(path)
    return ''


def check_many(eng, qs, timeout=4000):
    """validity of each (pc, goal); used to filter candidate invariants"""
    res = [None] * len(qs)
    rest = []
    for i, (pc, g) in enumerate(qs):
        gs = z3.simplify(g) if z3.is_expr(g) else z3.BoolVal(bool(g))
        if z3.is_true(gs):
            res[i] = True
            continue
        if z3.is_false(gs) and False:
            res[i] = False
            continue
        fs = prepare(eng.axioms, pc, g, eng.opts.get('nosum'))
        s = z3.Solver()
        s.set('timeout', int(150 * SCALE))
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.add(*fs)
        r = quick_check(s)
        if r == z3.unsat:
            res[i] = True
        elif r == z3.sat:
            res[i] = False
        else:
            rest.append((i, smt2(fs)))

    def work(x):
        i, txt = x
        r, b, dt, out = solve_one(txt, eng.opts.get('hstages') or [('z3-nx', 3), ('z3', 3), ('cvc5', 3)])
        STATS['time'] += dt
        return i, r == 'unsat'
    if rest:
        with ThreadPoolExecutor(JOBS) as ex:
            for i, ok in ex.map(work, rest):
                res[i] = ok
    return res
