#!/usr/bin/env python3-vt
"""developer tool: build and run one native harness"""
import sys, os, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/vcg', V + '/specs']
import harness
d = tempfile.mkdtemp(prefix='vh_')
try:
    for n in sys.argv[1:]:
        hb = harness.start_build([n], d)
        r = harness.run(hb, [n], d, int(os.environ.get('VERIF_SEED', 1)), os.environ.get('VERIF_TIER', 'quick'), bool(os.environ.get('DEEP')), int(os.environ.get('T', 100)))
        print(r['summary'], r['samples'])
        for f in r['failures']: print(f['output'][-3000:])
finally:
    shutil.rmtree(d)
