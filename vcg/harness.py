"""Native harnesses: bounded stand-ins and replay of failed obligations on the
real code, compiled from /repo's current sources."""
import os
import re
import subprocess
import threading
import time
from build import REPO, VERIF

CXX = '/usr/bin/g++'
FLAGS = ['-std=c++20', '-O1', '-g', '-w', '-ffunction-sections', '-I' + REPO + '/src', '-I' + VERIF + '/harness']


def parse(src):
    """leading '// key: value' lines of a harness source"""
    d = {'sources': [], 'flags': [], 'libs': [], 'generate': []}
    for l in open(src):
        m = re.match(r'^// (sources|flags|libs|generate): (.*)$', l)
        if m:
            d[m.group(1)] += m.group(2).split()
    return d


def closure(src, root=None, gen=None):
    """sources of /repo needed by a file: for every header it includes, directly
    or not, the source file of the same name, recursively"""
    root = root or REPO + '/src/'
    seen, out, todo, textual = set(), [], [src], set()
    while todo:
        f = todo.pop()
        if f in seen or not os.path.isfile(f):
            continue
        seen.add(f)
        if f.endswith('.cpp') and f != src:
            out.append(f)
        for m in re.finditer(r'^\s*#include "((?:joedb|external)/[^"]+)"', open(f, errors='replace').read(), re.M):
            h = root + m.group(1)
            if gen and os.path.isfile(gen + '/' + m.group(1)):
                h = gen + '/' + m.group(1)
            if h.endswith('.cpp'):
                textual.add(h)
            todo += [h, re.sub(r'\.h$', '.cpp', h)]
        if gen and f.startswith(gen):
            for m in re.finditer(r'^\s*#include "([^"/]+\.h)"', open(f, errors='replace').read(), re.M):
                h = os.path.dirname(f) + '/' + m.group(1)
                todo += [h, re.sub(r'\.h$', '.cpp', h)]
    return sorted(set([f for f in out if f not in textual] + [root + 'joedb/error/assert.cpp']))


class HB:
    pass


def start_build(names, scratch):
    h = HB()
    h.bins = {}
    h.err = {}
    h.threads = []

    def one(n):
        src = VERIF + '/harness/' + n + '.cpp'
        d = parse(src)
        objs = []
        inc = []
        g = None
        if d['generate']:
            import gen
            try:
                g = gen.generate(scratch, d['generate'])
            except Exception as e:
                h.err[n] = 'generation: ' + str(e)[-2500:]
                return
            inc = ['-I' + g]
        files = [src]
        for s in d['sources']:
            if s == 'auto':
                files += [f for f in closure(src, None, g) if f not in files]
            elif s.endswith('*'):
                import glob
                files += sorted(glob.glob(REPO + '/src/' + s + '.cpp'))
            else:
                files += [f for f in [REPO + '/src/' + s] if f not in files]
        from concurrent.futures import ThreadPoolExecutor

        def comp(i_f):
            i, f = i_f
            o = '%s/h_%s_%d.o' % (scratch, n, i)
            r = subprocess.run([CXX] + inc + FLAGS + d['flags'] + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode, r.stdout, o
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(comp, enumerate(files)))
        for rc, out, o in rs:
            if rc:
                h.err[n] = out[-2500:]
                return
            objs.append(o)
        b = '%s/h_%s' % (scratch, n)
        r = subprocess.run([CXX, '-Wl,--gc-sections'] + d['flags'] + objs + ['-o', b] + d['libs'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            h.err[n] = r.stdout[-2500:]
        else:
            h.bins[n] = b
    for n in names or []:
        t = threading.Thread(target=one, args=(n,))
        t.start()
        h.threads.append(t)
    return h


def known():
    """listed findings that are not repaired: 'known: property=<id> key=<key> <what fails>'"""
    return set(re.findall(r'^known: property=(\S+) key=(\S+)', open(VERIF + '/KNOWN_FINDINGS.txt').read(), re.M))


def run(h, names, scratch, seed, tier, deep, budget, prop=None):
    res = {'failures': [], 'evaluations': 0, 'nontrivial': 0, 'samples': [], 'summary': [], 'known': []}
    for t in h.threads:
        t.join()
    for n in names or []:
        if n in h.err:
            res['summary'].append('harness %s: does not compile: %s' % (n, h.err[n][-800:]))
    todo = [n for n in names or [] if n in h.bins]
    if not todo:
        return res
    procs = []
    per = budget
    for n in todo:
        d = scratch + '/run_' + n
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ)
        # the time allowed bounds the search; counts are fixed by the tier so that
        # results do not depend on machine speed unless the limit is reached
        env.update(VERIF_SEED=str(seed), VERIF_EFFORT={'quick': '1', 'thorough': '8'}.get(tier, '1') if not deep else ('4' if tier == 'quick' else '16'),
                   VERIF_TIME=str(int(per)), TMPDIR=d, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0')
        if prop:
            env['VERIF_PROP'] = prop
        procs.append((n, subprocess.Popen([h.bins[n]], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=open(d + '/out', 'wb'), stderr=subprocess.STDOUT, start_new_session=True), d, time.time()))
    for n, p, d, t0 in procs:
        hung = False
        try:
            p.wait(max(5, t0 + per + 30 - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            try:
                os.killpg(p.pid, 9)
            except Exception:
                p.kill()
            p.wait()
        out = open(d + '/out', errors='replace').read()
        ev = re.findall(r'^EVALUATIONS (\d+) (\d+)', out, re.M)
        if ev:
            res['evaluations'] += int(ev[-1][0])
            res['nontrivial'] += int(ev[-1][1])
        res['samples'] += re.findall(r'^SAMPLE (.*)$', out, re.M)[:3]
        bad = None
        for key, text in re.findall(r'^KNOWN (\S+) (.*)$', out, re.M):
            if (prop, key) in known():
                res['known'].append((key, text))
            else:
                bad = 'FAIL %s: %s (not a listed finding)' % (key, text)
        if bad and p.returncode == 0 and not hung:
            res['failures'].append({'harness': n, 'output': 'harness %s seed %s\n%s\n%s' % (n, seed, bad, out[-4000:])})
            res['summary'].append('harness %s: %s' % (n, bad[:300]))
        elif p.returncode == 0 and not hung:
            res['summary'].append('harness %s: ok (%.0fs) %s' % (n, time.time() - t0, 'EVALUATIONS ' + ' '.join(ev[-1]) if ev else ''))
        elif hung:
            # distinguish "one case never ends" from "slow machine"
            m = re.findall(r'^CASE .*$', out, re.M)
            res['failures'].append({'harness': n, 'output': 'harness %s did not finish (a case does not terminate?)\n%s' % (n, out[-3000:])})
            res['summary'].append('harness %s: HUNG' % n)
        else:
            res['failures'].append({'harness': n, 'output': 'harness %s seed %s exit %s\n%s' % (n, seed, p.returncode, out[-8000:])})
            res['summary'].append('harness %s: FAIL %s' % (n, (re.findall(r'^FAIL .*$', out, re.M) or [out[-200:]])[0][:300]))
    return res
