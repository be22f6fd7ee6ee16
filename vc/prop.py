"""Check driver shared by all properties: contracts -> obligations -> evidence / verdict."""
import glob, json, os, re, signal, subprocess, sys, time, hashlib, multiprocessing, multiprocessing.connection, shutil, traceback
import z3
from . import ast as A
from . import contract as C
from . import solve
from .values import Unsupported
from .engine import Oblig

VERIF = A.VERIF
OUT = os.environ.get('VERIF_OUT', VERIF + '/out')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TOTAL = float(os.environ.get('VERIF_BUDGET', '840'))


class Task:
    """one function under contract, at one instantiation"""
    def __init__(self, unit, con, tag='', contracts=None, opts=None, axioms=(), stages=None, bounded=False, definitive=None):
        self.unit, self.con, self.tag = unit, con, tag
        self.contracts, self.opts, self.axioms, self.stages = contracts or {}, opts or {}, axioms, stages
        self.bounded = bounded
        self.definitive = definitive
    @property
    def name(self):
        return self.con.name + (('@' + self.tag) if self.tag else '')


class Lemma:
    def __init__(self, name, hyps, goal, axioms=()):
        self.name, self.hyps, self.goal, self.axioms = name, hyps, goal, axioms


class Harness:
    """C++ program built from /repo's current sources: searches for a failing input of the property on the real code"""
    def __init__(self, src, extra_src=(), flags=(), quick=20, thorough=120, std='c++14', libs=(), san=False):
        self.src, self.extra, self.flags = src, list(extra_src), list(flags)
        self.quick, self.thorough, self.std, self.libs = quick, thorough, std, list(libs)
        self.san = san


class Property:
    id = None
    title = ''
    assumptions = []
    units = {}          # name -> dict(path=..)|dict(code=..)
    harness = None
    def tasks(self, U):
        return []
    def lemmas(self):
        return []
    def extra(self, U):
        """additional decided obligations computed outside the generic driver:
        list of dict(name, status, backend, time, why)"""
        return []


_U = {}
_TASKS = []


def _run_task(i, scale=1.0):
    t = _TASKS[i]
    solve.SCALE = scale
    try:
        u = _U[t.unit]
        if isinstance(u, Exception):
            r = C.Result(t.con.name)
            r.status, r.why = 'unreachable', 'extraction: %s' % u
        else:
            solve.JOBS = 3
            r = C.verify(u, t.con, t.contracts, t.opts, t.axioms, t.stages)
    except BaseException as ex:          # never let a front-end failure escape as an alarm
        r = C.Result(t.con.name)
        r.status, r.why = 'unreachable', 'internal: ' + traceback.format_exc()[-800:]
    return pack_result(t, r, i)


def pack_result(t, r, i):
    obls = []
    for o in r.obls:
        d = dict(name=o.name, status=o.status, backend=getattr(o, 'backend', None), time=getattr(o, 'time', 0.0), kind=o.kind)
        if o.status != 'proved':
            d['goal'] = str(z3.simplify(o.goal))[:4000]
            if o.status == 'refuted':
                d['model'] = solve.model_of(o)
            d['smt'] = (getattr(o, 'smt', None) or '')[:200000]
        obls.append(d)
    dropped = len(getattr(r, 'houdini', []))
    return dict(i=i, name=t.name, fn=t.con.fn[0], status=r.status, why=r.why, obls=obls, inlined=sorted(r.inlined), used=sorted(r.used),
                trusted=sorted(r.trusted), loops=r.loops, time=r.time, vacuous=r.vacuous, paths=r.paths, line=r.loc,
                loop_report=getattr(r, 'loop_report', []), houdini=[list(map(str, h)) for h in getattr(r, 'houdini', [])][:60], bounded=t.bounded)


def load_unit(spec):
    try:
        roots = A.clang_ast(**spec)
        return A.Unit(roots)
    except A.ExtractError as ex:
        return ex


HANG = 25.0            # seconds after which an in-process solver call (limit: at most 3 s) counts as hung


def _worker(i, scale, beat, conn):
    os.setpgid(0, 0)
    solve.BEAT = beat
    r = _run_task(i, scale)
    conn.send(r)
    conn.close()


def run_tasks(units, tasks, jobs=6, deadline=None, scale=1.0):
    """every task in a process of its own; a process whose solver call ignores its time limit is ended and its task run again"""
    global _U, _TASKS
    _U, _TASKS = units, tasks
    ctx = multiprocessing.get_context('fork')
    out, todo, live = {}, [(i, 0) for i in range(len(tasks))], {}
    def fail(i, why):
        r = C.Result(tasks[i].con.name)
        r.status, r.why = 'unreachable', why
        out[i] = pack_result(tasks[i], r, i)
    def end(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
        p.join(5)
    while todo or live:
        while todo and len(live) < jobs:
            i, n = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            beat = ctx.Value('d', 0.0, lock=False)
            p = ctx.Process(target=_worker, args=(i, scale * (1.0 if n == 0 else 1.5), beat, wr))
            p.start()
            wr.close()
            live[i] = (p, rd, beat, n)
        multiprocessing.connection.wait([x[1] for x in live.values()], timeout=1.0)
        now = time.time()
        for i, (p, rd, beat, n) in list(live.items()):
            try:
                if rd.poll():
                    out[i] = rd.recv()
                    p.join(5)
                    if p.is_alive():
                        end(p)
                    del live[i]
                    continue
            except (EOFError, OSError):
                end(p)
                del live[i]
                if n < 2:
                    todo.insert(0, (i, n + 1))
                else:
                    fail(i, 'worker ended')
                continue
            b = beat.value
            if b and now - b > HANG:
                end(p)
                del live[i]
                if n < 2:
                    todo.insert(0, (i, n + 1))
                else:
                    fail(i, 'solver hangs')
        if deadline and now > deadline:
            for i, (p, rd, beat, n) in live.items():
                end(p)
                fail(i, 'time budget exhausted')
            for i, n in todo:
                fail(i, 'time budget exhausted')
            break
    return [out[i] for i in range(len(tasks))]


# --------------------------------------------------------------- harness
def build_harness(h, work):
    exe = work + '/harness'
    srcs = [VERIF + '/replay/' + h.src]
    for s in h.extra:
        s = s.replace('$REPO', A.REPO).replace('$VERIF', VERIF)
        srcs += sorted(glob.glob(s)) if '*' in s else [s]
    flags = [f.replace('$REPO', A.REPO).replace('$VERIF', VERIF) for f in h.flags]
    cmd = ['g++', '-std=' + h.std, '-O1', '-w', '-o', exe] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g1'] if h.san else []) + \
        A.INCS + ['-I' + VERIF + '/replay'] + flags + srcs + list(h.libs)
    with open(work + '/build.log', 'wb') as log:
        return exe, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=log), cmd


def start_harness(h, pid):
    """start compiling the harness against the current sources (runs beside the proof)"""
    work = '%s/%s/work' % (OUT, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    return build_harness(h, work)


def run_harness(h, pid, tier, known, budget, started):
    """-> dict(status: ok|fail|nobuild|crash, cases, fails:[(key, line)])"""
    work = '%s/%s/work' % (OUT, pid)
    exe, proc, cmd = started
    try:
        rc = proc.wait(timeout=400)
    except subprocess.TimeoutExpired:
        proc.kill()
        return dict(status='nobuild', why='compiler timeout')
    if rc != 0:
        return dict(status='nobuild', why='build failed: ' + open(work + '/build.log', errors='replace').read()[-3000:])
    secs = h.quick if tier == 'quick' else h.thorough
    secs = max(2, min(secs, budget))
    env = dict(os.environ, VERIF_SECS=str(int(secs)), VERIF_SEED=str(SEED),
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0:exitcode=99')
    try:
        p = subprocess.run([exe], capture_output=True, timeout=secs * 2 + 30, env=env, cwd=work)
        rc, so, se = p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as ex:
        rc, so, se = 'timeout', (ex.stdout or b'').decode(errors='replace'), ''
    fails = []
    for l in so.split('\n'):
        m = re.match(r'^FAIL (\S+) (.*)$', l)
        if m:
            fails.append((m.group(1), m.group(2)))
    cases = 0
    m = re.search(r'^CASES (\d+)', so, re.M)
    if m:
        cases = int(m.group(1))
    distinct = 0
    m = re.search(r'^DISTINCT (\d+)', so, re.M)
    if m:
        distinct = int(m.group(1))
    last = re.findall(r'^AT (.*)$', so, re.M)
    if rc not in (0, 1) and not fails:
        # crash or non-termination of the code under test while running the named case
        fails.append(('crash' if rc != 'timeout' else 'hang', 'exit=%s at case: %s; %s' % (rc, last[-1] if last else '?', se[-1500:].replace('\n', ' | '))))
    shutil.rmtree(work, ignore_errors=True)
    return dict(status='fail' if fails else 'ok', fails=fails, cases=cases, distinct=distinct, secs=secs, cmd=' '.join(cmd))


def known_findings(pid):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def write_replay(pid, name, text):
    d = '%s/%s' % (OUT, pid)
    os.makedirs(d, exist_ok=True)
    p = '%s/replay_%s.txt' % (d, re.sub(r'\W+', '_', name)[:80])
    with open(p, 'w') as f:
        f.write(text)
    return p


def main(prop, argv=None):
    argv = argv or sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    verbose = '-v' in argv
    only = [a for a in argv if not a.startswith('-')]
    t0 = time.time()
    deadline = t0 + TOTAL
    started = start_harness(prop.harness, prop.id) if prop.harness is not None and '--noharness' not in argv else None
    units = {}
    specs = prop.units() if callable(prop.units) else prop.units
    with __import__('concurrent.futures').futures.ThreadPoolExecutor(6) as ex:
        for n, u in zip(specs, ex.map(load_unit, [dict(s) for s in specs.values()])):
            units[n] = u
    t_extract = time.time() - t0
    tasks = [t for t in prop.tasks(units) if not only or any(o in t.name for o in only)]
    res = run_tasks(units, tasks, deadline=deadline - 120)
    t_tasks = time.time() - t0 - t_extract
    lem = []
    by_ax = {}
    for l in prop.lemmas():
        by_ax.setdefault(tuple(a.get_id() for a in l.axioms), []).append(l)
    for ls in by_ax.values():
        os_ = [Oblig('lemma/' + l.name, list(l.hyps), l.goal, 'lemma') for l in ls]
        solve.discharge(os_, ls[0].axioms)
        lem += [dict(name=o.name, status=o.status, backend=o.backend, time=o.time, kind='lemma', goal=str(o.goal)[:2000]) for o in os_]
    for x in prop.extra(units):
        lem.append(x)
    known = known_findings(prop.id)
    kkeys = {k for k, _ in known}
    viol = []           # (replay path, suffix)
    hres = None
    if started is not None:
        hres = run_harness(prop.harness, prop.id, tier, kkeys, max(5, deadline - time.time() - 60), started)
        if verbose:
            print('harness:', {k: v for k, v in hres.items() if k != 'cmd'})

    # a failed task is decided again with longer time limits before it counts (a loaded machine must not raise an alarm)
    new_fails = [(k, l) for (k, l) in (hres or {}).get('fails', []) if k not in kkeys]
    again = [i for i, r in enumerate(res) if r['status'] == 'failed']
    retried = set()
    if again and not new_fails and '--noretry' not in argv and deadline - time.time() > 60:
        for j, r2 in zip(again, run_tasks(units, [tasks[i] for i in again], deadline=deadline - 30, scale=3.0)):
            if r2['status'] == 'proved' or r2['status'] == 'failed':
                r2['i'] = j
                res[j] = r2
                retried.add(j)
    n_ob = sum(len(r['obls']) for r in res) + len(lem)
    n_ok = sum(1 for r in res for o in r['obls'] if o['status'] == 'proved') + sum(1 for o in lem if o['status'] == 'proved')
    unreach = [r for r in res if r['status'] == 'unreachable']
    vac = [r for r in res if r['vacuous']]
    bad = [(r, o) for r in res for o in r['obls'] if o['status'] != 'proved']
    badlem = [o for o in lem if o['status'] != 'proved']
    if verbose:
        for r in res:
            print('%-60s %-11s obl=%d paths=%d loops=%d t=%.1f %s' % (r['name'], r['status'], len(r['obls']), r['paths'], r['loops'], r['time'], r['why'][:600] if r['status'] == 'unreachable' else ''))
            for o in r['obls']:
                if o['status'] != 'proved':
                    print('    !! %s [%s] %s' % (o['name'], o['status'], o['goal'][:1500]))
                    if '-m' in argv:
                        print(o.get('model', '')[:3000])
            if (r['status'] != 'proved' or '-l' in argv) and r['loops']:
                print('    loops kept:', r['loop_report'])
                print('    dropped:', r['houdini'])
        for o in badlem:
            print('    !! lemma', o['name'], o['status'], o.get('why', ''))
    # ------------------------------------------------ verdict
    failed_names = [o['name'] + (' [' + o['status'] + ']') for _, o in bad] + [o['name'] for o in badlem] + ['%s: out of reach (%s)' % (r['name'], r['why'][:200]) for r in unreach]
    if new_fails:
        seen = set()
        for (k, l) in new_fails:
            if k in seen:
                continue
            seen.add(k)
            p = write_replay(prop.id, k, 'property %s\nfailing input found on the real code (built from %s):\n%s: %s\n\nreproduce: VERIF_SEED=%d VERIF_SECS=%s, build:\n%s\n\nobligations not discharged in this run:\n%s\n' %
                             (prop.id, A.REPO, k, l, SEED, hres.get('secs'), hres.get('cmd'), '\n'.join(failed_names) or '(none: the failing input contradicts a trusted model or lies outside the contracts)'))
            viol.append((p, ''))
    elif bad or badlem:
        # no failing input found: a contract proved on the reference tree is no longer proved
        for (r, o) in bad:
            if prop.soft(r, o) or (r['i'] not in retried and not (o['status'] == 'refuted' and r['loops'] == 0)):
                continue
            p = write_replay(prop.id, o['name'], 'property %s\nfailed obligation: %s (%s)\nfunction under contract: %s\ngoal:\n%s\n\nverifier counterexample (%s):\n%s\n\nall obligations not discharged:\n%s\n\nSMT-LIB query:\n%s\n' %
                             (prop.id, o['name'], o['status'], r['name'], o.get('goal'), o['backend'], o.get('model'), '\n'.join(failed_names), o.get('smt')))
            viol.append((p, ' no-failing-input-found'))
            break
        for o in badlem:
            if not viol:
                p = write_replay(prop.id, o['name'], 'property %s\nfailed obligation: %s\n%s\n' % (prop.id, o['name'], json.dumps(o, indent=1, default=str)))
                viol.append((p, ' no-failing-input-found'))
                break
    # ------------------------------------------------ evidence
    by = {}
    tsum = 0.0
    for o in [o for r in res for o in r['obls']] + lem:
        if o['status'] == 'proved':
            by[o['backend'] or '?'] = by.get(o['backend'] or '?', 0) + 1
        tsum += o.get('time') or 0
    trusted = sorted({t for r in res for t in r['trusted']}) + list(prop.trusted_extra)
    cov = dict(obligations=n_ob, discharged=n_ok,
               checker_cmd='python3-vt check.py %s (clang AST of the sources in %s -> verification conditions -> z3-new/cvc5)' % (prop.id, A.REPO),
               trusted_base=trusted + ['clang 18 type-checked AST as the meaning of the source text', 'the VC generator in /verif/vc', 'z3, cvc5'],
               functions_under_contract=[dict(function=r['name'], line=r['line'], status=r['status'], obligations=len(r['obls']),
                                              discharged=sum(1 for o in r['obls'] if o['status'] == 'proved'), paths=r['paths'], loops=r['loops'],
                                              loop_invariants=[list(x) for x in r['loop_report']], inlined=r['inlined'], callee_contracts=r['used'], seconds=round(r['time'], 2)) for r in res],
               lemmas=[dict(name=o['name'], status=o['status'], backend=o.get('backend')) for o in lem],
               discharged_by_backend=by, solver_seconds=round(tsum, 2),
               not_discharged=[dict(obligation=o['name'], status=o['status']) for _, o in bad] + [dict(obligation=o['name'], status=o['status']) for o in badlem],
               out_of_reach=[dict(function=r['name'], why=r['why'][:300]) for r in unreach],
               vacuous_contracts=[r['name'] for r in vac])
    if hres is not None:
        cov['bounded_replay_harness'] = dict(label='bounded, not counted as proved: random/small-exhaustive inputs against the real compiled code; validates the trusted models and supplies failing inputs',
                                             status=hres['status'], cases=hres.get('cases'), distinct=hres.get('distinct'), seconds=hres.get('secs'), why=hres.get('why'))
    assume = list(prop.assumptions) + GENERIC_ASSUMPTIONS
    known_hit = [(k, l) for (k, l) in (hres or {}).get('fails', []) if k in kkeys]
    ev = dict(property=prop.id, tier=tier, seed=SEED, level='proof', coverage=cov, assumptions=assume,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % prop.id, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged over %d functions (%d out of reach); harness %s; %.1fs (extraction %.1fs, tasks %.1fs, solver %.1fs)' %
          (prop.id, n_ok, n_ob, len(res), len(unreach), (hres or {}).get('status', 'not run'), time.time() - t0, t_extract, t_tasks, tsum))
    for (k, d) in known:
        print('KNOWN-FINDING: property=%s %s' % (prop.id, d))
    if vac:
        print('NOTE: contradictory precondition in %s' % [r['name'] for r in vac])
    if viol:
        for (p, s) in viol:
            print('VIOLATION property=%s replay=%s%s' % (prop.id, p, s))
        return 1
    if bad or badlem or unreach:
        print('UNDECIDED by proof (bounded stand-in only, not counted as proved): ' + '; '.join(failed_names)[:2000])
    return 0


GENERIC_ASSUMPTIONS = [
    'machine integers are treated as mathematical integers except that unsigned subtraction must not underflow; container sizes stay below the range of their size type',
    'floating point is treated as real arithmetic (rounding, NaN and infinities are outside the contracts unless a contract states otherwise)',
    'no aliasing between distinct reference parameters; single-threaded execution',
    'memory allocation does not fail',
]
Property.trusted_extra = []
Property.soft = lambda self, r, o: False
