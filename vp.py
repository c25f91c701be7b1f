#!/opt/veriftools/pyvenv/bin/python
"""vp.py check ID [--tier quick|thorough]   run one property's check
   vp.py replay FILE                        re-run a recorded counterexample against the real code
   vp.py list"""
import argparse
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import driver      # noqa
import checks      # noqa

PRELIM = 'assumed by every check: x86-64 LP64, IEEE-754 doubles with round-to-nearest, the "C" locale, clang-18 -O0 code generation'


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.strip().split('\n')
    except Exception:
        return list(names)


def entries_of(harness, pid, tier):
    with open(os.path.join(VERIF, 'harness', harness)) as f:
        src = f.read()
    es = re.findall(r'^VP_ENTRY\s+(\w+)\s*\(', src, re.M)
    pre = pid.lower() + '_'
    es = [e for e in es if e.startswith(pre)]
    if tier == 0:
        es = [e for e in es if not e.endswith('_thorough')]
    else:
        es = [e for e in es if not e.endswith('_quick')]
    return es


def load_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if ln and not ln.startswith('#') and ln.startswith('{'):
                    out.append(json.loads(ln))
    return out


def compare(exp, got):
    """difference between the engine's concrete evaluation and the native run, or None"""
    if got['range']:
        return got['range']
    if exp.get('skip'):
        return None
    if exp['crash']:
        return None if driver.crashed(got) or got['end'] in ('exit 10',) else 'engine expects %s, native run ended with %s' % (exp['crash'][:2], got['end'])
    if driver.crashed(got):
        return 'native run ended with %s, the engine expected none' % got['end']
    if sorted(set(got['fail'])) != exp['fail']:
        return 'assertions failing natively %s, in the engine %s' % (sorted(set(got['fail'])), exp['fail'])
    if sorted(set(got['reach'])) != exp['reach']:
        return 'reached natively %s, in the engine %s' % (sorted(set(got['reach'])), exp['reach'])
    if sorted(map(tuple, got['watch'])) != sorted(map(tuple, exp['watch'])):
        return 'watched values natively %s, in the engine %s' % (got['watch'], exp['watch'])
    return None


def check(pid, tier_name):
    t0 = time.time()
    tier = 0 if tier_name == 'quick' else 1
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = checks.CHECKS[pid]
    budget = float(os.environ.get('VP_BUDGET', 700 if tier == 0 else 3000))
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid.lower())
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    tot = {'jobs': 0, 'obligations': 0, 'queries': 0, 'unsat': 0, 'trivial': 0, 'solver_s': 0.0, 'symex_s': 0.0, 'instr': 0,
           'states': 0, 'cross': 0, 'validated': 0, 'feas': 0}
    funcs, reach, labels, unmod, entries_run = set(), {}, {}, set(), []
    stateful = set()
    viols, errors, incomplete, samples_out, allres = [], [], [], [], []
    unitinfo = []
    modes = {}
    try:
        for unit in spec['units']:
            es = entries_of(unit['harness'], pid, tier)
            only = os.environ.get('VP_ENTRIES')
            if only:
                es = [e for e in es if re.search(only, e)]
            if not es:
                continue
            # first with the texts that the library makes (messages of exceptions) left open; when that does not do, with
            # the standard library's strings in the encoding
            todo = [(defs, m) for defs in (checks.BOTH if tier or pid not in checks.SLOW else [('DEBUG',)]) for m in ([True] if unit.get('mock') else [False, True])]
            done, why = set(), 'the build'
            for defs, mock in todo:
                if defs in done:
                    continue
                if mock and not unit.get('mock'):
                    (tot, funcs, reach, labels, unmod, entries_run, viols, errors, incomplete, samples_out, allres, unitinfo, modes) = saved
                    print('(strings of the standard library encoded as well: %s)' % why[:300])
                else:
                    saved = copy.deepcopy((tot, funcs, reach, labels, unmod, entries_run, viols, errors, incomplete, samples_out, allres, unitinfo, modes))
                w = tempfile.mkdtemp(prefix='u', dir=work)
                nat = {}

                def bg():
                    try:
                        nat['exe'] = driver.build_native(unit['harness'], w, defs)
                    except Exception as e:
                        nat['err'] = str(e)
                th = threading.Thread(target=bg)
                th.start()
                try:
                    ir = driver.build_ir(unit['harness'], w, defs, mock)
                    driver.load_module(ir, unit.get('eager', checks.EAGER if mock else None), not mock)
                except Exception as e:
                    th.join()
                    errors.append('build: %s' % e)
                    continue
                th.join()
                if 'err' in nat:
                    errors.append('native build: %s' % nat['err'])
                    continue
                rn = driver.Runner(tier, seed, deadline, qtimeout=unit.get('qtimeout', 60) * (1 if tier == 0 else 2),
                                   cross=(tier == 1 and unit.get('cross', True)), nsample=unit.get('nsample', 12), narrow=mock)
                nviol = [0]

                def stop_on(r):
                    nviol[0] += 1
                    return nviol[0] >= 4
                res = rn.run(es, stop_on)
                allres += res
                incomplete += rn.incomplete
                errors += rn.errors
                stateful |= rn.stateful
                byent = {}
                for r in res:
                    tot['jobs'] += 1
                    for k, kk in (('obligations', 'obligations'), ('queries', 'queries'), ('unsat', 'unsat'), ('trivial', 'trivial'),
                                  ('instr', 'instr'), ('states', 'states'), ('cross', 'cross'), ('feas', 'feas')):
                        tot[kk] += r.get(k, 0)
                    tot['solver_s'] += r.get('solver', 0)
                    tot['symex_s'] += r.get('tsym', 0)
                    for m, n in r.get('modes', {}).items():
                        modes[m] = modes.get(m, 0) + n
                    funcs.update(r.get('funcs', []))
                    unmod.update(r.get('unmodelled', []))
                    for l in r.get('labels', []):
                        labels.setdefault(r['entry'], set()).add(l)
                    for l, how in r.get('reach', {}).items():
                        if how:
                            reach.setdefault(r['entry'], set()).add(l)
                    for s in r.get('samples', []):
                        for l in s['reach']:
                            reach.setdefault(r['entry'], set()).add(l)
                    byent.setdefault(r['entry'], []).append(r)
                entries_run += es
                # --- engine self-check and replay of counterexamples on the real code
                rng = random.Random(seed)
                for e, rs in byent.items():
                    ss = [s for r in rs for s in r.get('samples', [])]
                    rng.shuffle(ss)
                    # prefer samples that satisfy the assumptions
                    ss.sort(key=lambda s: not (s['reach'] or s['watch'] or s['fail']))
                    ss = ss[:unit.get('nvalid', 150)]
                    if ss:
                        got, err = driver.run_native(nat['exe'], e, tier, [s['in'] for s in ss])
                        if len(got) != len(ss):
                            errors.append('%s: native run incomplete %s' % (e, err[-300:]))
                        for s, g in zip(ss, got):
                            d = compare(s, g)
                            if d:
                                errors.append('encoding disagrees with the real code: %s %s: %s' % (e, s['in'], d))
                            else:
                                tot['validated'] += 1
                        for s in ss[:2]:
                            samples_out.append({'entry': e, 'inputs': s['in'], 'reached': s['reach'], 'values': s['watch'][:6]})
                    seen = {}
                    for r in rs:
                        for v in r.get('viol', []):
                            k = (v['kind'], v['label'])
                            if seen.get(k, 0) >= 3:
                                continue
                            seen[k] = seen.get(k, 0) + 1
                            got, err = driver.run_native(nat['exe'], e, tier, [v['rec']['in']])
                            g = got[0]
                            ok = (v['label'] in g['fail']) if v['kind'] == 'assert' else driver.crashed(g)
                            # an assertion behind undefined behaviour, or the reverse, is still a demonstrated failure
                            ok = ok or driver.crashed(g) or bool(g['fail'])
                            x = {'property': pid, 'harness': unit['harness'], 'defs': list(defs), 'entry': e, 'tier': tier,
                                 'kind': v['kind'], 'label': v['label'], 'inputs': v['rec']['in'], 'found_by': v['by'],
                                 'native': {'end': g['end'], 'fail': g['fail'], 'stderr': err[:1500]}}
                            if ok:
                                viols.append(x)
                            else:
                                errors.append('counterexample not confirmed on the real code: %s' % json.dumps(x)[:1500])
                shutil.rmtree(w, ignore_errors=True)
                if viols or mock or len(errors) == len(saved[7]):
                    done.add(defs)
                else:
                    why = errors[len(saved[7])]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    missing = []
    if not viols and not errors and not incomplete:
        for e, ls in labels.items():
            for l in ls:
                if l not in reach.get(e, ()):
                    missing.append('%s: %s' % (e, l))
        for e in set(entries_run):
            if e not in labels:
                missing.append('%s: no reachable witness' % e)
    # known findings
    findings = [f for f in load_findings() if f.get('property') == pid]
    new, known = [], {}
    for v in viols:
        f = match(findings, v)
        if f is not None:
            known[f['id']] = f
        else:
            new.append(v)
    fl = sorted(n for n in demangle(sorted(f for f in funcs if 'ngpt' in f or 'lower_strncmp' in f)))
    dis = tot['unsat'] + tot['trivial']
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier_name, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['states'], 'transitions': tot['instr'], 'traces_validated_against_impl': tot['validated'],
            'samples': samples_out[:12],
            'explanation': 'states: symbolic program states (guarded basic-block entries) executed; transitions: IR instructions executed '
                           'symbolically; traces validated: concrete inputs on which the term DAG and the natively compiled real code agreed.',
            'entries': sorted(set(entries_run)), 'jobs': tot['jobs'], 'obligations': tot['obligations'],
            'discharged_by_rewriting': tot['trivial'], 'queries': tot['queries'], 'queries_unsat': tot['unsat'],
            'queries_by_encoding': modes, 'cross_checked_cvc5': tot['cross'],
            'loop_feasibility_queries': tot['feas'],
            'solver_seconds': round(tot['solver_s'], 2), 'symbolic_execution_seconds': round(tot['symex_s'], 2),
            'functions_encoded': fl, 'bounds': spec['bounds'][tier_name] if isinstance(spec['bounds'], dict) else spec['bounds'],
            'witnesses_reached': {e: sorted(l) for e, l in sorted(reach.items())},
            'global_objects_changed': sorted(stateful), 'outside_the_model': sorted(unmod), 'incomplete': incomplete[:20], 'errors': errors[:20], 'missing_witnesses': missing,
        },
        'assumptions': [PRELIM] + spec.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d jobs, %d obligations (%d by rewriting, %d of %d queries unsat), solver %.1fs, %d native comparisons, %.1fs' % (
        pid, tier_name, tot['jobs'], tot['obligations'], tot['trivial'], tot['unsat'], tot['queries'], tot['solver_s'], tot['validated'], wall))
    for f in known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if new:
        byl = {}
        for i, v in enumerate(new):
            k = (v['entry'], v['label'])
            if k in byl:
                continue
            p = os.path.join(evdir, 'replay-%s-%d.json' % (pid, len(byl)))
            byl[k] = p
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print('  %s: %s %s on inputs %s' % (v['entry'], v['kind'], v['label'], v['inputs']))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    rc = 0
    for e in errors[:10]:
        print('ERROR: ' + e[:2000])
        rc = 2
    # Undecided obligations (solver limits) are reported and listed in the evidence.  What was decided held, so the exit
    # status is 0 as long as that is most of it.
    for e in incomplete[:10]:
        print('INCONCLUSIVE: ' + e)
    if incomplete and rc == 0 and not dis > 2 * sum(len(r.get('unknown', ())) for r in allres if not r.get('refined')):
        rc = 3
    for e in missing:
        print('VACUOUS: ' + e)
        rc = 2
    return rc


def match(findings, v):
    for f in findings:
        if f.get('status') == 'fixed':
            continue
        if f.get('entry') == v['entry'] and f.get('label') == v['label'] and all(v['inputs'].get(k) == x for k, x in f.get('inputs', {}).items()):
            return f
    return None


def replay(path):
    v = json.load(open(path))
    w = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        exe = driver.build_native(v['harness'], w, tuple(v['defs']))
        got, err = driver.run_native(exe, v['entry'], v['tier'], [v['inputs']])
        print(json.dumps(got[0], indent=1))
        print(err)
        return 1 if got[0]['fail'] or driver.crashed(got[0]) else 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.cmd == 'check':
        return check(a.arg, a.tier)
    if a.cmd == 'replay':
        return replay(a.arg)
    if a.cmd == 'list':
        for k, c in checks.CHECKS.items():
            print(k, c['units'])
        return 0
    return 2


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:           # 1 is for violations
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
