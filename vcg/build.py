"""Extract LLVM IR of the real code from /repo's working tree."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = '/usr/bin/clang++-18'
FLAGS = ['-std=c++20', '-O1', '-g', '-fstandalone-debug', '-DNDEBUG', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c',
         '-fno-access-control', '-w', '-I' + REPO + '/src', '-I' + VERIF]


def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout


def irdump_path(scratch):
    p = VERIF + '/tools/bin/irdump'
    src = VERIF + '/tools/irdump.cpp'
    if os.path.exists(p) and os.path.getmtime(p) >= os.path.getmtime(src):
        return p
    out = scratch + '/irdump'
    if os.path.exists(out):
        return out
    fl = subprocess.check_output(['/usr/bin/llvm-config-18', '--cxxflags'], text=True).split()
    ld = subprocess.check_output(['/usr/bin/llvm-config-18', '--ldflags', '--libs', '--system-libs'], text=True).split()
    rc, o = run([CXX] + fl + ['-O1', '-fno-rtti', '-w', src, '-o', out] + ld)
    if rc:
        raise RuntimeError('irdump build failed:\n' + o)
    return out


class BuildError(Exception):
    pass


def extract(sources, scratch, name, flags=()):
    """sources: paths relative to /repo/src, or absolute (drivers in /verif)"""
    dump = irdump_path(scratch)
    objs = []
    if '@gen' in flags:
        # sources generated by joedbc, itself built from the current tree
        import gen
        try:
            flags = ['-iquote', gen.generate(scratch)] + [f for f in flags if f != '@gen']
        except gen.GenError as e:
            raise BuildError('joedbc: ' + str(e))

    def one(s):
        p = s if s.startswith('/') else REPO + '/src/' + s
        o = scratch + '/' + name + '_' + hashlib.md5(p.encode()).hexdigest()[:8] + '.bc'
        rc, out = run([CXX] + FLAGS + list(flags) + [p, '-o', o])
        if rc:
            raise BuildError('%s:\n%s' % (p, out[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources))
    bc = scratch + '/' + name + '.bc'
    rc, out = run(['/usr/bin/llvm-link-18'] + objs + ['-o', bc])
    if rc:
        raise BuildError(out)
    rc, out = run(['/usr/bin/opt-18', '-passes=sroa,simplifycfg,loop-simplify', bc, '-o', bc])
    if rc:
        raise BuildError(out)
    js = scratch + '/' + name + '.json'
    rc, out = run([dump, bc, js])
    if rc:
        raise BuildError(out)
    return js
