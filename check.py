#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property on /repo's working tree."""
import glob
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF + '/vcg', VERIF + '/specs']
REPO = os.environ.get('VERIF_REPO', '/repo')

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
LIMIT = 780 if TIER == 'quick' else 3000


def left():
    return LIMIT - (time.time() - T0)


def worker(args):
    name, mod, js, bounded, budget, mu = args
    import task
    importlib.import_module(mod)
    td = [t for t in task.TASKS if t.name == name][0]
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        return task.run_task(td, js, bounded, budget, mu)
    except MemoryError:
        return {'task': name, 'unsupported': 'out of memory', 'obligations': 0, 'discharged': 0, 'failed': [], 'complete': False,
                'under': [], 'inlined': [], 'contracts': [], 'models': [], 'iface': [], 'covers': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0,
                'invariants': [], 'slow': [], 'error': None, 'doc': ''}


def run_jobs(jobs, total):
    """jobs: list of worker args; hard wall-clock limit"""
    if not jobs:
        return []
    ctx = mp.get_context('fork')
    res = {}
    with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        hs = [(j, pool.apply_async(worker, (j,))) for j in jobs]
        end = time.time() + total
        for j, h in hs:
            try:
                res[j[0]] = h.get(max(1, end - time.time()))
            except mp.TimeoutError:
                res[j[0]] = None
            except Exception as e:
                res[j[0]] = None
        pool.terminate()
    out = []
    for j in jobs:
        r = res[j[0]]
        if r is None:
            r = {'task': j[0], 'unsupported': 'time limit', 'obligations': 0, 'discharged': 0, 'failed': [], 'complete': False,
                 'under': [], 'inlined': [], 'contracts': [], 'models': [], 'iface': [], 'covers': 0, 'queries': 0, 'solver_s': 0,
                 'wall_s': 0, 'invariants': [], 'slow': [], 'error': None, 'doc': ''}
        out.append(r)
    return out


def main():
    prop = sys.argv[1]
    import build
    import task
    import harness
    import props
    P = props.PROPS[prop]
    for m in P['specs']:
        importlib.import_module(m)
    tds = [t for t in task.TASKS if prop in t.props]
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    replays = VERIF + '/evidence/replay'
    os.makedirs(replays, exist_ok=True)
    violations = []
    notes = []
    try:
        # native harness is built while the proofs run
        hb = harness.start_build(P.get('harness'), scratch)
        groups = {}
        builderr = {}
        for td in tds:
            groups.setdefault((td.sources, td.flags), []).append(td)
        from concurrent.futures import ThreadPoolExecutor

        def ext(item):
            i, key = item
            try:
                srcs = [VERIF + '/' + s if s.startswith('drivers/') else s for s in key[0]]
                return key, build.extract(srcs, scratch, 'm%d' % i, key[1]), None
            except build.BuildError as e:
                return key, None, str(e)
        with ThreadPoolExecutor(4) as ex:
            built = list(ex.map(ext, enumerate(groups)))
        jobs = []
        pre = []
        for key, js, err in built:
            for td in groups[key]:
                if js is None:
                    pre.append({'task': td.name, 'unsupported': 'extraction: ' + err[:600], 'obligations': 0, 'discharged': 0, 'failed': [],
                                'complete': False, 'under': [], 'inlined': [], 'contracts': [], 'models': [], 'iface': [], 'covers': 0,
                                'queries': 0, 'solver_s': 0, 'wall_s': 0, 'invariants': [], 'slow': [], 'error': None, 'doc': td.doc})
                else:
                    jobs.append((td.name, td.fn.__module__, js, False, td.budget, 0))
        jobs.sort(key=lambda j: -j[4])
        results = pre + run_jobs(jobs, min(left() - 200, 420 if TIER == 'quick' else 1500))
        bad = [r for r in results if not r['complete']]
        # confirm failed obligations on loop-bounded, un-abstracted executions
        confirmed = []
        bj = []
        for r in bad:
            if any(f['status'] == 'failed' for f in r['failed']):
                j = [x for x in jobs if x[0] == r['task']]
                if j:
                    bj.append((r['task'], j[0][1], j[0][2], True, 90, 4))
        if bj:
            for r in run_jobs(bj, min(100, left() - 150)):
                fl = [f for f in r['failed'] if f['status'] == 'failed' and f['real'] and f['kind'] not in ('vacuity', 'invariant')]
                if fl:
                    confirmed.append((r['task'], fl))
        # native harness: bounded stand-ins, and replay of failed obligations
        hr = harness.run(hb, P.get('harness'), scratch, SEED, TIER, deep=bool(bad), budget=max(30, min(left() - 40, (110 if not bad else 240) if TIER == 'quick' else 900)), prop=prop)
        known = []
        for v in hr['failures']:
            path = replays + '/%s_%s.txt' % (prop, v['harness'].replace('/', '_'))
            with open(path, 'w') as f:
                f.write(v['output'])
                if bad:
                    f.write('\n--- undischarged obligations ---\n' + json.dumps([{k: r[k] for k in ('task', 'unsupported', 'failed')} for r in bad], indent=1))
            violations.append((path, ''))
        if not violations and confirmed:
            path = replays + '/%s_obligation.txt' % prop
            with open(path, 'w') as f:
                for t, fl in confirmed:
                    f.write('task %s\n%s\n' % (t, json.dumps(fl, indent=1)))
            violations.append((path, ' no-failing-input-found'))
        nob = sum(r['obligations'] for r in results)
        ndis = sum(r['discharged'] for r in results)
        allproved = bool(results) and not bad
        level = 'proof' if allproved and P['level'] == 'proof' else ('exploration' if not results or bad else P['level'])
        trusted = sorted(set(['model: ' + x for r in results for x in r['models']] + ['assumed contract of interface ' + x for r in results for x in r['iface']]))
        contracts = sorted(set(x for r in results for x in r['contracts']))
        cov = {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'python3-vt check.py %s (own VC generator over LLVM IR of /repo, z3 %s)' % (prop, z3v()),
            'trusted_base': ['clang 18 front end and sroa/simplifycfg/loop-simplify', 'vcg engine', 'z3'] + trusted,
            'functions_under_contract': sorted(set(x for r in results for x in r['under'])),
            'functions_inlined': len(set(x for r in results for x in r['inlined'])),
            'callee_contracts_used': contracts,
            'covers': sum(r['covers'] for r in results),
            'solver_queries': sum(r['queries'] for r in results),
            'solver_s': round(sum(r['solver_s'] for r in results), 1),
            'tasks': [{k: r.get(k) for k in ('task', 'doc', 'obligations', 'discharged', 'complete', 'unsupported', 'failed', 'wall_s', 'solver_s')} for r in results],
            'undecided_tasks': [r['task'] + ': ' + str(r['unsupported'] or r['failed'][:2]) for r in bad],
            'evaluations': hr['evaluations'], 'distinct_nontrivial': hr['nontrivial'],
            'rule': 'bounded native stand-in (%s): %s' % (', '.join(P.get('harness') or []) or 'none', P.get('rule', '')),
            'samples': hr['samples'][:6],
            'explanation': P.get('note', ''),
            'bounded_standins': hr['summary'],
        }
        if level == 'other':
            pass
        ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
              'assumptions': P.get('assumptions', []) + COMMON, 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
            json.dump(ev, f, indent=1)
        for r in results:
            print('%-45s %s %d/%d  %.1fs %s' % (r['task'], 'ok' if r['complete'] else 'UNDECIDED', r['discharged'], r['obligations'], r['wall_s'],
                                            r['unsupported'] or ''))
            for f in r['failed'][:5]:
                print('    %s: %s [%s:%s] %s' % (f['status'], f['msg'], f['fn'], f['line'], f['kind']))
            if r.get('error') and os.environ.get('VERIF_DEBUG'):
                print(r['error'])
        for l in hr['summary']:
            print(l)
        for key, text in sorted(set(hr['known'])):
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, text))
        for path, suffix in violations[:1]:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
        print('%s: %s, %d/%d obligations, %d evaluations, %.0fs' % (prop, level, ndis, nob, hr['evaluations'], time.time() - T0))
        return 1 if violations else 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)


COMMON = ['partial correctness: termination is not proved',
          'clang release-mode semantics (NDEBUG, 64-bit Linux, little-endian); code is compiled from /repo on every run',
          'memory allocation may only fail by throwing, and distinct objects do not overlap',
          'container sizes below 2^62 bytes']


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
