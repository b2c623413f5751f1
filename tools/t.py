#!/usr/bin/env python3-vt
"""developer tool: t.py MODULE [TASK-REGEX] [-b]: run proof tasks of one module in this process"""
import sys, os, re, importlib, tempfile, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/vcg', V + '/specs']
import build, task
from concurrent.futures import ProcessPoolExecutor
mod = sys.argv[1]; rx = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else ''
bounded = '-b' in sys.argv
importlib.import_module(mod)
tds = [t for t in task.TASKS if re.search(rx, t.name)]
scr = tempfile.mkdtemp(prefix='vt_')
cache = {}
def one(a):
    return task.run_task([t for t in task.TASKS if t.name == a[0]][0], a[1], bounded, None, 4)
try:
    for td in tds:
        k = (td.sources, td.flags)
        if k not in cache:
            t0 = time.time()
            cache[k] = build.extract([V + '/' + x if x.startswith('drivers/') else x for x in td.sources], scr, 'm%d' % len(cache), td.flags)
            print('extract %.1fs' % (time.time() - t0), flush=True)
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(one, [(td.name, cache[(td.sources, td.flags)]) for td in tds]):
            print('%-40s %s %d/%d cov=%d %.1fs (solver %.1f, %d q) %s' % (r['task'], 'OK' if r['complete'] else 'UNDECIDED', r['discharged'], r['obligations'], r['covers'], r['wall_s'], r['solver_s'], r['queries'], r['unsupported'] or ''))
            for f in r['failed'][:8]: print('    ', f)
            if '-v' in sys.argv:
                print('   inv', r['invariants']); print('   inl', r['inlined']); print('   slow', r['slow'][:4])
            if r['error']: print('\n'.join(r['error'].split('\n')[-20:]))
            sys.stdout.flush()
finally:
    import shutil; shutil.rmtree(scr, ignore_errors=True)
