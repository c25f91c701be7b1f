"""Build the code under test to LLVM IR, run the symbolic jobs of one property, replay counterexamples."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(1000000)

CXX = 'clang++-18'
IRFLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-builtin', '-S', '-emit-llvm', '-w',
           '-fno-discard-value-names']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))


def par(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            for _, q in ps:
                if q.poll() is None:
                    q.kill()
            raise BuildError('%s\n%s' % (' '.join(c), out[-4000:]))


def build_ir(harness, work, defs=('DEBUG',), mock=False):
    """IR of harness + library sources + libc models, linked"""
    D = ['-D' + d for d in defs]
    inc = ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src')]
    if mock:
        inc = ['-I' + os.path.join(VERIF, 'models', 'mock')] + inc
    outs, cmds = [], []
    for src in [os.path.join(VERIF, 'harness', harness)] + sources():
        o = os.path.join(work, os.path.basename(src) + '.ll')
        cmds.append([CXX] + IRFLAGS + D + inc + [src, '-o', o])
        outs.append(o)
    o = os.path.join(work, 'models.ll')
    cmds.append([CXX] + IRFLAGS + [os.path.join(VERIF, 'models', 'libc.cpp'), '-o', o])
    outs.append(o)
    par(cmds)
    allo = os.path.join(work, 'all.ll')
    sh(['llvm-link-18', '-S'] + outs + ['-o', allo])
    opt = os.path.join(work, 'opt.ll')
    sh(['opt-18', '-S', '-passes=sroa', allo, '-o', opt])
    return opt


def build_native(harness, work, defs=('DEBUG',), san=True):
    exe = os.path.join(work, 'native')
    D = ['-D' + d for d in defs] + ['-DVP_NATIVE']
    inc = ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src')]
    base = ['g++', '-std=c++17', '-O1', '-g', '-ffp-contract=off', '-w', '-rdynamic']
    if san:
        base += ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']
    cmds, objs = [], []
    for src in [os.path.join(VERIF, 'harness', harness), os.path.join(VERIF, 'harness', 'vp_native.cpp')] + sources():
        o = os.path.join(work, os.path.basename(src) + '.o')
        cmds.append(base + D + inc + ['-c', src, '-o', o])
        objs.append(o)
    par(cmds)
    sh(base + objs + ['-ldl', '-o', exe])
    return exe


def run_native(exe, entry, tier, assigns, timeout=600):
    """assigns: list of dicts -> list of dicts(fail, reach, watch, end, err)"""
    inp = ''.join(' '.join('%s=%d' % kv for kv in a.items()) + '\n' for a in assigns)
    env = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='print_stacktrace=0:exitcode=67')
    p = subprocess.run([exe, entry, str(tier)], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=env, timeout=timeout, errors='replace')
    outs = []
    cur = None
    for ln in p.stdout.split('\n'):
        if ln.startswith('RUN '):
            cur = {'fail': [], 'reach': [], 'watch': [], 'end': None, 'assume': False, 'range': None}
            outs.append(cur)
        elif cur is None:
            continue
        elif ln.startswith('FAIL '):
            cur['fail'].append(ln[5:])
        elif ln.startswith('REACH '):
            cur['reach'].append(ln[6:])
        elif ln.startswith('WATCH '):
            l, v = ln[6:].rsplit(' ', 1)
            cur['watch'].append((l, int(v)))
        elif ln.startswith('ASSUME'):
            cur['assume'] = True
        elif ln.startswith('RANGE'):
            cur['range'] = ln
        elif ln.startswith('END '):
            cur['end'] = ln[4:]
    return outs, p.stderr


def crashed(o):
    """the native run ended by a sanitizer report, an abort, a signal or an uncaught exception"""
    e = o['end'] or ''
    return e.startswith('signal') or e in ('exit 66', 'exit 67', 'exit 1')


# ------------------------------------------------------------------ worker
MOD = None
SLOW = float(os.environ.get('VP_SLOW', 0))


class JobTimeout(Exception):
    pass


def _alarm(sig, frm):
    raise JobTimeout()


def rand_val(rng, lo, hi):
    r = rng.random()
    if r < 0.08:
        return lo
    if r < 0.16:
        return hi
    if r < 0.3:
        return max(lo, min(hi, rng.randint(-3, 3)))
    if r < 0.5:
        k = rng.randint(1, 40)
        v = rng.choice((1, -1)) * rng.randint(0, 1 << k)
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


def job_run(job):
    """job: dict(entry, fixed, timeout, qtimeout, tier, seed, cross) -> result dict"""
    import terms as t
    import lower
    import symex
    import abstr
    t0 = time.time()
    res = {'entry': job['entry'], 'fixed': job['fixed'], 'queries': 0, 'solver': 0.0, 'unsat': 0, 'trivial': 0,
           'viol': [], 'unknown': [], 'reach': {}, 'funcs': [], 'samples': [], 'instr': 0, 'cross': 0, 'modes': {}, 'smt': 0}
    t.reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(job['timeout'])))
    try:
        rng = random.Random('%s %s %s' % (job['seed'], job['entry'], sorted(job['fixed'].items())))

        nf = [0]

        def feasible(c):
            nf[0] += 1
            try:
                r = lower.solve(c, {}, 4000)
            except lower.Unsupported:
                return True
            res['solver'] += r.time
            return r.status != 'unsat'
        ex = symex.Executor(MOD, dict(job['fixed']), feasible=feasible, tier=job['tier'])
        if EAGER:
            ex.eager = re.compile(EAGER)
        try:
            ex.run(job['entry'], random.Random('before %s %s' % (job['entry'], sorted(job['fixed'].items()))) if job.get('warm') else None)
        except symex.NeedCase as e:
            signal.alarm(0)
            res['split'] = (e.name, e.cuts or split_range(e.lo, e.hi, e.parts))
            return res
        if not job.get('warm'):
            res['written'] = ex.written()
        res['feas'] = nf[0]
        res['instr'] = ex.ninstr
        res['terms'] = t.COUNT[0]
        res['funcs'] = sorted(ex.funcs)
        res['vars'] = {n: (lo, hi) for n, (v, lo, hi, w) in ex.vars.items()}
        res['unmodelled'] = sorted({l for l, g in ex.unmod})
        res['states'] = ex.nstates
        res['tsym'] = time.time() - t0
        vt = {n: v for n, (v, lo, hi, w) in ex.vars.items() if not t.isc(v)}
        # obligations grouped by label (assertions) or kind (everything else)
        groups = {}
        nobl = 0
        for o in ex.obls:
            v = o.violation()
            nobl += 1
            if v is t.FALSE:
                res['trivial'] += 1
                if o.kind == 'assert':
                    groups.setdefault(('assert', o.label), [])
                continue
            key = ('assert', o.label) if o.kind == 'assert' else (o.kind, '')
            groups.setdefault(key, []).append((o, v))
        res['obligations'] = nobl

        # concrete samples: engine self-check against the native run, and a cheap search for violations
        samples = []
        names = sorted(vt)
        sampled = job['nsample']
        for i in range(sampled):
            a = {n: rand_val(rng, vt[n].lo, vt[n].hi) for n in names}
            full = dict(a)
            for n, (v, lo, hi, w) in ex.vars.items():
                if t.isc(v):
                    full[n] = v.k
            samples.append((a, full))

        def ev(term, a):
            return t.evaluate([term], a)[0]

        def concretise(a):
            full = dict(a)
            for n, (v, lo, hi, w) in ex.vars.items():
                full[n] = v.k if t.isc(v) else a.get(n, v.lo)
            return full

        def record(a, ok_only=False):
            """expected events of a concrete run"""
            fails, reach, watch = [], [], []
            crash = []
            for key, obs in groups.items():
                for o, v in obs:
                    if ev(v, a):
                        if key[0] == 'assert':
                            fails.append(o.label)
                        else:
                            crash.append('%s: %s [%s]' % (o.kind, o.label, o.where))
            for l, g in ex.reach:
                if ev(t.And(*g), a):
                    reach.append(l)
            for l, g, v in ex.watch:
                if ev(t.And(*g), a):
                    watch.append((l, ev(v, a)))
            skip = any(ev(t.And(*g), a) for l, g in ex.unmod)
            return {'skip': skip, 'in': concretise(a), 'fail': sorted(set(fails)), 'reach': sorted(set(reach)), 'watch': watch, 'crash': crash}

        hits = {}
        try:
            for a, full in samples:
                r = record(a)
                res['samples'].append(r)
                for f in r['fail']:
                    hits.setdefault(('assert', f), a)
                if r['crash']:
                    for key, obs in groups.items():
                        if key[0] != 'assert' and any(ev(v, a) for _, v in obs):
                            hits.setdefault(key, a)
        except NotImplementedError as e:
            res['noeval'] = str(e)
        except TypeError as e:
            res['noeval'] = 'special float value'

        def hunt(obs):
            """a hard query: look for a counterexample by evaluation for a few seconds before the solver gets its full time"""
            end = time.time() + 4
            try:
                while time.time() < end:
                    a = {n: rand_val(rng, vt[n].lo, vt[n].hi) for n in names}
                    if any(ev(v, a) for _, v in obs):
                        return a
            except (NotImplementedError, TypeError):
                pass
            return None

        def query(f, label, limit=None):
            """unsat / sat+model / unknown, trying the integer encoding then bit-vectors"""
            res['queries'] += limit is None
            qt = 1000 * min(limit or job['qtimeout'], job['qtimeout'])
            g, n = abstr.abstract(f)
            if n:
                try:
                    r = lower.solve(g, {}, qt, 'int', want_smt2=job['cross'])
                    res['solver'] += r.time
                    if SLOW and r.time > SLOW:
                        sys.stderr.write('SLOW cone %.1fs %s %s by %s %s %s\n' % (r.time, r.status, label, r.by, job['entry'], job['fixed']))
                    if r.status == 'unsat':
                        res['modes']['int'] = res['modes'].get('int', 0) + 1
                        res['cones'] = res.get('cones', 0) + 1
                        return r
                except lower.Unsupported:
                    pass
            for mode in ('int', 'bv'):
                try:
                    r = lower.solve(f, vt, qt, mode, want_smt2=job['cross'] and mode == 'int')
                except lower.Unsupported as e:
                    res.setdefault('unsupported', []).append('%s: %s' % (label, e))
                    continue
                res['solver'] += r.time
                if SLOW and r.time > SLOW:
                    sys.stderr.write('SLOW %.1fs %s %s by %s terms %d: %s %s\n' % (r.time, r.status, label, r.by, t.COUNT[0], job['entry'], job['fixed']))
                res['modes'][mode] = res['modes'].get(mode, 0) + 1
                if r.status == 'unknown' and mode == 'int' and r.nl:
                    continue                # products of variables: bits may do
                return r
            return lower.Result('unknown')

        for key, obs in groups.items():
            if key in hits:
                a = hits[key]
                rec = record(a)
                res['viol'].append({'kind': key[0], 'label': key[1] or '; '.join(rec['crash'][:3]), 'rec': rec, 'by': 'evaluation'})
                continue
            if not obs:
                continue
            f = t.Or(*[v for _, v in obs])
            r = query(f, '%s %s' % key, 20)
            if r.status == 'unknown':
                a = hunt(obs)
                if a is not None:
                    rec = record(a)
                    res['viol'].append({'kind': key[0], 'label': key[1] or '; '.join(rec['crash'][:3]), 'rec': rec, 'by': 'evaluation'})
                    continue
                if job['first']:
                    res['again'] = True         # the rest of the jobs come before the hard ones
                    signal.alarm(0)
                    return res
                r = query(f, '%s %s' % key)
            else:
                res['queries'] += 1
            if r.status == 'unsat':
                res['unsat'] += 1
                if r.smt2 and job['cross']:
                    c = cross_check(r.smt2, job['qtimeout'], r.by)
                    if c == 'unsat':
                        res['cross'] += 1
                    elif c == 'sat':
                        res['viol'].append({'kind': 'solver-disagreement', 'label': key[1], 'rec': {'in': concretise({}), 'fail': [], 'reach': [], 'watch': [], 'crash': []}, 'by': 'cvc5'})
            elif r.status == 'sat':
                a = r.model
                try:
                    rec = record(a)
                except (NotImplementedError, TypeError):
                    rec = {'in': concretise(a), 'fail': [key[1]] if key[0] == 'assert' else [], 'reach': [], 'watch': [],
                           'crash': [] if key[0] == 'assert' else [o.label for o, _ in obs][:4]}
                lab = key[1] or '; '.join(rec['crash'][:3])
                res['viol'].append({'kind': key[0], 'label': lab, 'rec': rec, 'by': 'solver',
                                    'all': sorted({'%s: %s [%s]' % (o.kind, o.label, o.where) for o, _ in obs})[:20]})
            else:
                res['unknown'].append('%s %s' % key)
        # vacuity witnesses
        for l, g in ex.reach:
            if res['reach'].get(l):
                continue
            if any(l in s['reach'] for s in res['samples']):
                res['reach'][l] = 'evaluation'
                continue
            if job.get('reached') and l in job['reached']:
                continue
            c = t.And(*g)
            if c is t.FALSE:
                continue
            r = query(c, 'reach ' + l)
            if r.status == 'sat':
                res['reach'][l] = 'solver'
                try:
                    res['samples'].append(record(r.model))
                except (NotImplementedError, TypeError):
                    pass
            elif r.status == 'unknown':
                res['reach'].setdefault(l, None)
        res['labels'] = sorted({l for l, g in ex.reach})
        signal.alarm(0)
    except JobTimeout:
        if job['first']:
            res['again'] = res['slow'] = True
            return res
        res['timeout'] = True
        res['unknown'].append('job timeout')
        res['widest'] = widest(job, locals().get('ex'))
    except symex.EngineError as e:
        signal.alarm(0)
        res['error'] = 'cannot encode: %s' % e
    except RecursionError:
        signal.alarm(0)
        res['error'] = 'recursion limit'
    except Exception as e:
        signal.alarm(0)
        res['error'] = 'engine failure: ' + traceback.format_exc()[-1500:]
    if res['unknown'] and 'widest' not in res:
        res['widest'] = widest(job, locals().get('ex'))
    res['time'] = time.time() - t0
    return res


def narrow_run(job):
    """A job that the full encoding has no answer for (too slow, or a construct that it lacks): the same, with some or all
    inputs given single values.  This only looks for counterexamples; it decides nothing when it finds none."""
    import terms as t
    import lower
    import symex
    res = {'entry': job['entry'], 'fixed': job['fixed'], 'narrow': True, 'viol': [], 'unknown': [], 'samples': [], 'funcs': []}
    rng = random.Random('narrow %s %s %s' % (job['seed'], job['entry'], sorted(job['fixed'].items())))
    end = time.time() + min(job['narrow'], job['timeout'])
    signal.signal(signal.SIGALRM, _alarm)

    def feasible(c):
        try:
            return lower.solve(c, {}, 1000).status != 'unsat'
        except lower.Unsupported:
            return True
    while time.time() < end and not res['viol']:
        t.reset()
        try:
            signal.alarm(5)
            ex = symex.Executor(MOD, dict(job['fixed']), feasible=feasible, tier=job['tier'])
            if EAGER:
                ex.eager = re.compile(EAGER)
            ex.pin = (rng, rng.choice((1, 1, 0.7)), rand_val)
            ex.run(job['entry'], random.Random('before %s %s' % (job['entry'], sorted(job['fixed'].items()))) if job.get('warm') else None)
            vt = {n: v for n, (v, lo, hi, w) in ex.vars.items() if not t.isc(v)}
            for o in ex.obls:
                v = o.violation()
                if v is t.FALSE or o.kind == 'unwind':
                    continue
                a = {}
                if v is not t.TRUE:
                    r = None
                    for mode in ('int', 'bv'):
                        try:
                            r = lower.solve(v, vt, 2000, mode)
                            break
                        except lower.Unsupported:
                            pass
                    if r is None or r.status != 'sat':
                        continue
                    a = r.model
                full = {n: v2.k if t.isc(v2) else a.get(n, v2.lo) for n, (v2, lo, hi, w) in ex.vars.items()}
                rec = {'in': full, 'fail': [o.label] if o.kind == 'assert' else [], 'reach': [], 'watch': [],
                       'crash': [] if o.kind == 'assert' else ['%s: %s [%s]' % (o.kind, o.label, o.where)]}
                res['viol'].append({'kind': o.kind, 'label': o.label, 'rec': rec, 'by': 'narrowed run'})
                break
        except (JobTimeout, symex.EngineError, symex.NeedCase, RecursionError, NotImplementedError, TypeError):
            pass
        finally:
            signal.alarm(0)
    return res


def widest(job, ex):
    if ex is None:
        return None
    best = None
    for n, (v, lo, hi, w) in ex.vars.items():
        if hi > lo and (best is None or hi - lo > best[2] - best[1]):
            best = (n, lo, hi)
    return best


def cross_check(smt2, timeout, by):
    """ask the solver that did not give the verdict"""
    cmd = ['z3', '-smt2', 'smt.arith.solver=2', '-in'] if by == 'cvc5' else ['cvc5', '--lang=smt2']
    try:
        p = subprocess.run(cmd, input=('' if by == 'cvc5' else '(set-logic ALL)\n') + smt2, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        if '(error' in p.stdout:
            return 'unknown'
        return p.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'


def worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


EAGER = None


def load_module(path, eager=None, opaque=False):
    global MOD, EAGER
    EAGER = eager
    import irparse
    import symex
    symex.Executor.opaque = opaque
    with open(path) as f:
        MOD = irparse.Module(f.read())
    return MOD


def split_range(lo, hi, n):
    tot = hi - lo + 1
    n = max(1, min(n, tot))
    out = []
    a = lo
    for i in range(n):
        b = lo + tot * (i + 1) // n - 1
        out.append((a, b))
        a = b + 1
    return out


def _work(q_in, q_out):
    worker_init()
    while True:
        j = q_in.get()
        if j is None:
            return
        try:
            r = narrow_run(j) if j.get('narrow') else job_run(j)
        except BaseException as e:      # noqa
            r = {'entry': j['entry'], 'fixed': j['fixed'], 'error': 'worker: %r' % e, 'unknown': [], 'viol': [], 'samples': []}
        r['depth'], r['warm'] = j['depth'], j['warm']
        q_out.put(r)


class Runner:
    """runs all jobs of the entries of one check over a process pool"""

    def __init__(self, tier, seed, deadline, nproc=None, qtimeout=60, cross=False, nsample=12, maxdepth=12, narrow=False):
        self.tier, self.seed, self.deadline = tier, seed, deadline
        self.nproc = nproc or min(8, os.cpu_count() or 4)
        self.qtimeout, self.cross, self.nsample, self.maxdepth = qtimeout, cross, nsample, maxdepth
        self.narrow = narrow
        self.results = []
        self.incomplete = []
        self.errors = []
        self.stateful = set()

    def run(self, entries, stop_on=None):
        ctx = mp.get_context('fork')
        q_in, q_out = ctx.Queue(), ctx.Queue()
        ps = [ctx.Process(target=_work, args=(q_in, q_out), daemon=True) for _ in range(self.nproc)]
        for p in ps:
            p.start()
        pending = 0
        backlog = []
        later = []          # jobs with a query that was not decided at once
        rng = random.Random(self.seed)
        stop = failed = False

        def submit(entry, fixed, depth, first=True, warm=False):
            (backlog if first else later).append({
                'entry': entry, 'fixed': fixed, 'depth': depth, 'qtimeout': self.qtimeout,
                'timeout': 60 if first else self.qtimeout * 4 + 60, 'first': first,
                'tier': self.tier, 'seed': self.seed, 'cross': self.cross, 'nsample': self.nsample, 'warm': warm})

        count = [0]

        def narrow(r, secs):
            count[0] += 1
            backlog.append({'entry': r['entry'], 'fixed': r['fixed'], 'depth': 0, 'narrow': secs, 'timeout': secs + 5,
                            'first': True, 'tier': self.tier, 'seed': '%s %d' % (self.seed, count[0]), 'warm': r['warm']})

        for e in entries:
            submit(e, {}, 0)
        try:
            while backlog or later or pending:
                while (backlog or later) and pending < self.nproc * 2 and not stop:
                    if backlog:
                        # in random order, so that no hard part of the space keeps the rest waiting
                        i = rng.randrange(len(backlog))
                        backlog[i], backlog[-1] = backlog[-1], backlog[i]
                        j = backlog.pop()
                    else:
                        j = later.pop(0)
                    left = self.deadline - time.time()
                    if left <= 1:
                        stop = True
                        break
                    j['timeout'] = min(j['timeout'], left)
                    q_in.put(j)
                    pending += 1
                if stop and not pending:
                    break
                if stop and time.time() > self.deadline + 3:
                    break
                try:
                    r = q_out.get(timeout=1.0)
                except Exception:
                    if time.time() > self.deadline + 2:
                        stop = True
                        break
                    if not any(p.is_alive() for p in ps):
                        self.errors.append('workers died')
                        break
                    dead = [p for p in ps if not p.is_alive()]
                    if dead:
                        for p in dead:
                            ps.remove(p)
                            self.errors.append('a worker died (exit %s)' % p.exitcode)
                            pending -= 1
                            n = ctx.Process(target=_work, args=(q_in, q_out), daemon=True)
                            n.start()
                            ps.append(n)
                    continue
                pending -= 1
                if r.get('narrow'):
                    if r['viol']:
                        self.results.append(r)
                        self.deadline = min(self.deadline, time.time() + 30)
                        stop = stop or bool(stop_on and stop_on(r))
                    continue
                if failed and not r['viol']:
                    continue
                if r.get('slow'):
                    narrow(r, 5)
                if r.get('again'):
                    submit(r['entry'], r['fixed'], r['depth'], False, r['warm'])
                    continue
                if 'split' in r:
                    n, parts = r['split']
                    for a, b in reversed(parts):
                        f = dict(r['fixed'])
                        f[n] = (a, b)
                        submit(r['entry'], f, r['depth'])
                    continue
                if r.get('error'):
                    self.errors.append('%s %s: %s' % (r['entry'], r['fixed'], r['error']))
                    self.results.append(r)
                    if not self.narrow:
                        stop = True
                        continue
                    # no verdict any more, but a look for counterexamples
                    failed = True
                    some = [j for j in backlog + later if not j.get('narrow')]
                    rng.shuffle(some)
                    backlog, later = [], []
                    for j in [r] * 4 + some[:40]:
                        narrow(j, 6)
                    self.deadline = min(self.deadline, time.time() + 90)
                    continue
                self.results.append(r)
                if r.get('written') and not r['entry'].startswith('c23'):
                    # something is left behind: once more, after another call of the same
                    self.stateful.update(r['written'])
                    submit(r['entry'], r['fixed'], r['depth'], True, True)
                if r['unknown'] and not r['viol']:
                    w = r.get('widest')
                    if w and r['depth'] < self.maxdepth and time.time() < self.deadline:
                        n, lo, hi = w
                        r['refined'] = True
                        for a, b in split_range(lo, hi, 4 if r['depth'] < 2 else 2):
                            f = dict(r['fixed'])
                            f[n] = (a, b)
                            submit(r['entry'], f, r['depth'] + 1, False, r['warm'])
                    else:
                        self.incomplete.append('%s %s: %s' % (r['entry'], r['fixed'], r['unknown']))
                if r['viol']:
                    self.deadline = min(self.deadline, time.time() + 30)
                    if stop_on and stop_on(r):
                        stop = True
        finally:
            for p in ps:
                p.terminate()
            for p in ps:
                p.join(2)
                if p.is_alive():
                    p.kill()
        if backlog or later or pending:
            if not self.errors and not any(r['viol'] for r in self.results):
                self.incomplete.append('%d jobs not finished before the deadline' % (len(backlog) + len(later) + max(pending, 0)))
        return self.results
