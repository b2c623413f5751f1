"""Generated sources: joedbc is built from /repo's current tree and run on a
schema, so that what is checked is what the current compiler generates.

Only joedb::db::encoded_file is generated code inside the library; the copy
that a build leaves in /repo/src/joedb/db is ignored."""
import os
import re
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor
from build import REPO, VERIF

CXX = '/usr/bin/g++'
_lock = threading.Lock()
_done = {}


class GenError(Exception):
    pass


def joedbc(scratch):
    """joedbc built from the source list of /repo's own build description"""
    out = scratch + '/joedbc'
    txt = open(REPO + '/compcmake/joedbc_without_libjoedb.cmake').read()
    files = [REPO + '/src/' + m for m in re.findall(r'\$\{JOEDB_SRC_DIR\}/(\S+\.cpp)', txt)]
    inc = REPO + '/src'

    def comp(i_f):
        i, f = i_f
        o = '%s/jc_%d.o' % (scratch, i)
        r = subprocess.run([CXX, '-std=c++20', '-O0', '-w', '-I' + inc, '-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout, o
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(comp, enumerate(files)))
    for rc, o, _ in rs:
        if rc:
            raise GenError(o[-2000:])
    r = subprocess.run([CXX] + [o for _, _, o in rs] + ['-o', out, '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise GenError(r.stdout[-2000:])
    for _, _, o in rs:
        os.remove(o)
    return out


def generate(scratch, schemas=('encoded_file',)):
    """returns a directory to put before /repo/src in the include path, which
    holds the generated joedb/db/*; schemas: names of /repo/src/joedb/db, or
    paths in /verif without extension"""
    with _lock:
        key = scratch, tuple(schemas)
        if key in _done:
            if isinstance(_done[key], Exception):
                raise _done[key]
            return _done[key]
        try:
            g = '%s/gen%d' % (scratch, len(_done))
            db = g + '/joedb/db'
            os.makedirs(db)
            exe = scratch + '/joedbc'
            if not os.path.exists(exe):
                joedbc(scratch)
            for s in schemas:
                src = VERIF + '/' + s if '/' in s else REPO + '/src/joedb/db/' + s
                s = os.path.basename(s)
                for e in ('.joedbi', '.joedbc'):
                    shutil.copy(src + e, db)
                r = subprocess.run([exe, s], cwd=db, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                if r.returncode or not os.path.isdir(db + '/' + s):
                    raise GenError('joedbc %s: %s' % (s, r.stdout[-1500:]))
            _done[key] = g
        except Exception as e:
            _done[key] = e
            raise
        return _done[key]
