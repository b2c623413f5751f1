"""C04..C08: checkpoints, locks and the journal header."""
import z3
import engine as en
import files
import buffer as fb
import header as hd
from header import RJ, WJ, BIG
from terms import *
from task import task
from files import gf, gset

SRC = ['joedb/journal/Writable_Journal.cpp', 'joedb/journal/Readonly_Journal.cpp', 'joedb/journal/File_Buffer.cpp',
       'joedb/journal/Journal_Construction_Lock.cpp', 'joedb/journal/Abstract_File.cpp', 'drivers/journal.cpp']
PROPS = 'C04 C05 C06 C08'


class J:
    """a journal object over a file that satisfies the invariant"""

    def __init__(self, t, hi, si, cls=WJ, good=True, mode=None):
        E = self.E = t.E
        self.t, self.hi, self.si, self.cls = t, hi, si, cls
        files.install(E)
        s = self.s = t.state()
        f = self.f = files.new_file(E, s, 'file')
        self.m = hd.Model(t, s, f)
        self.mode = t.var('mode', 32)
        s.assume(z3.And(self.mode >= 0, self.mode < 6) if mode is None else self.mode == mode)
        s.put(f, files.AF, 'mode', self.mode)
        j = self.j = s.sym(cls, 'journal')
        s.put(j, cls, 'file', f)
        self.b = j.add(Lin(E.M.field(cls, 'file_buffer')[0]))
        s.put(self.b, fb.FB, 'file', f)
        fb.assume_write(E, s, self.b)
        self.C, self.H = t.var('C'), t.var('H')
        s.put(j, cls, 'hard_index', z3.BitVecVal(hi, 32))
        s.put(j, cls, 'soft_index', z3.BitVecVal(si, 32))
        s.put(j, cls, 'checkpoint_position', self.C)
        s.put(j, cls, 'hard_checkpoint_position', self.H)
        g = self.m.g(s)
        n = bv(gf(s, f, 'size'), 64)
        pos, idx, rbs = fb.scal(s, self.b)
        B, W = g['B'], g['W']
        s.assume(z3.And(self.H >= 41, self.H <= self.C, self.C <= B, B <= n, n < BIG, W >= 0, W <= n))
        # data is written in sequence, at or after the checkpoint
        s.assume(z3.Or(idx == 0, pos >= self.C))
        s.assume(z3.And(pos >= 41, pos <= B))
        s.assume(hd.visible(g['V'], hi, self.H, B))
        s.assume(hd.durable(g['D'], hi, self.H, W))
        s.assume(hd.durable(g['V'], hi, self.H, W))
        if good:
            s.assume(hd.exact(g['V'], hi, si, self.C, self.H))
        self.m.floor = self.C
        self.V0, self.D0, self.W0, self.B0, self.pos0, self.idx0 = g['V'], g['D'], W, B, pos, idx
        H0 = self.H
        self.hs = [hi]

        def check(s, what):
            g = self.m.g(s)
            t.prove(s, z3.Or([hd.visible(g['V'], hi, H0, g['B'])]), 'what readers see is complete (%s)' % what)
            t.prove(s, hd.durable(g['D'], hi, H0, g['W']), 'a crash keeps the hard checkpoint (%s)' % what)
        self.m.check = check

    def get(self, s, f, w=64):
        return bv(s.get(self.j, self.cls, f), w)

    def members(self, s):
        return self.get(s, 'hard_index', 32), self.get(s, 'soft_index', 32), self.get(s, 'checkpoint_position'), self.get(s, 'hard_checkpoint_position')

    def post(self, s, good):
        """the invariant holds again for the members of the journal"""
        t, g = self.t, self.m.g(s)
        hi, si, C, H = self.members(s)
        t.prove(s, z3.And(z3.Or(hi == 0, hi == 1), z3.Or(si == 0, si == 1)), 'indices')
        t.prove(s, z3.And(C >= self.C, H >= self.H, H <= C), 'checkpoints never decrease')
        t.prove(s, C <= g['B'], 'the checkpoint covers completely written data only')
        for k in range(2):
            t.prove(s, z3.Implies(hi == k, hd.visible(g['V'], k, H, g['B'])), 'header invariant (readers)')
            t.prove(s, z3.Implies(hi == k, z3.And(hd.durable(g['D'], k, H, g['W']), hd.durable(g['V'], k, H, g['W']))), 'header invariant (crash)')
            if good:
                for l in range(2):
                    t.prove(s, z3.Implies(z3.And(hi == k, si == l), hd.exact(g['V'], k, l, C, H)), 'readers find exactly the checkpoint')

    def locks(self, s, head=0, tail=0):
        g = self.m.g(s)
        self.t.prove(s, g['head'] == head and g['tail'] == tail, 'every lock is released')


def combos():
    return [(h, s) for h in range(2) for s in range(2)]


def checkpoint_task(t, fn, hard):
    for hi, si in combos():
        x = J(t, hi, si)
        s = x.s
        p = t.var('position')
        s.assume(z3.And(p >= x.C if hard else p >= 0, p <= fb.position(s, x.b), p < BIG))
        changes = p > (x.H if hard else x.C)
        if hard:
            # the floor of the safety checks moves once the new hard checkpoint is complete
            def check(s, what, x=x, hi=hi, p=p):
                g = x.m.g(s)
                a = hd.visible(g['V'], hi, x.H, g['B'])
                b = hd.visible(g['V'], 1 - hi, p, g['B'])
                t.prove(s, z3.Or(a, b), 'what readers see is complete (%s)' % what)
                a = hd.durable(g['D'], hi, x.H, g['W'])
                b = hd.durable(g['D'], 1 - hi, p, g['W'])
                t.prove(s, z3.Or(a, b), 'a crash keeps the hard checkpoint (%s)' % what)
            x.m.check = check
        for o in t.call(s, fn, [x.j, p]):
            x.locks(o.s)
            x.post(o.s, o.ret)
            g = x.m.g(o.s)
            h2, s2, C, H = x.members(o.s)
            if o.ret:
                t.prove(o.s, C == z3.If(changes, p, x.C), 'the checkpoint is at the requested position')
                t.prove(o.s, H == (z3.If(changes, p, x.H) if hard else x.H), 'hard checkpoint')
                t.prove(o.s, z3.Implies(z3.Not(changes), z3.And([a == b for a, b in zip(g['V'], x.V0)])), 'a covered request changes nothing')
                t.prove(o.s, z3.Implies(changes, fb.scal(o.s, x.b)[1] == 0), 'the buffer is flushed')
            else:
                t.prove(o.s, z3.And(changes, g['io']), 'fails only when a file operation fails')


@task(PROPS, SRC, budget=400)
def soft_checkpoint(t):
    """soft_checkpoint_at from any valid header: complete data only, hard checkpoint never touched, head lock, exactly readable"""
    checkpoint_task(t, r'^joedb::Writable_Journal::soft_checkpoint_at\(', False)


@task(PROPS, SRC, budget=400)
def hard_checkpoint(t):
    """hard_checkpoint_at from any valid header: at every point a crash leaves a valid hard checkpoint, the new one is durable on return"""
    checkpoint_task(t, r'^joedb::Writable_Journal::hard_checkpoint_at\(', True)


@task('C04 C07', SRC, unroll={r'read_checkpoint': 500})
def recovery(t):
    """reading any header a crash can leave gives a checkpoint inside the file and not before the last hard checkpoint"""
    E = t.E
    for hi in range(2):
        s = t.state()
        D = [t.var('D%d' % i) for i in range(4)]
        H, W, n = t.var('H'), t.var('W'), t.var('size')
        s.assume(z3.And(H >= 41, hd.durable(D, hi, H, W), W <= n, n < BIG))
        j = s.sym(RJ, 'journal')
        s.put(j, RJ, 'checkpoint_position', z3.BitVecVal(41, 64))
        s.put(j, RJ, 'hard_checkpoint_position', z3.BitVecVal(41, 64))
        a = s.bytes_obj('slots', Lin(32))
        a = Ptr(a.id, 0)
        for k in range(4):
            s.store(a.add(Lin(8 * k)), 8, D[k])
        for o in t.call(s, r'^joedb::Readonly_Journal::read_checkpoint\(', [j, a, n]):
            t.prove(o.s, o.ret, 'does not throw')
            C2, H2 = bv(o.s.get(j, RJ, 'checkpoint_position'), 64), bv(o.s.get(j, RJ, 'hard_checkpoint_position'), 64)
            t.prove(o.s, z3.And(H2 >= H, H2 <= W), 'the last hard checkpoint is found, or a later durable one')
            t.prove(o.s, z3.And(C2 >= H2, C2 <= n), 'the checkpoint is inside the file')


def pull_task(t, fn, cls, ret_value, tail):
    for hi, si in combos():
        # the reader knows an earlier state of the header written by a (good) writer
        x = J(t, hi, si, cls)
        x.m.small_reads = True
        s = x.s
        c, h = t.var('c0'), t.var('h0')
        s.assume(z3.And(h >= 41, h <= c, c <= x.C, h <= x.H))
        hi0, si0 = t.var('hi0', 32), t.var('si0', 32)
        s.assume(z3.And(z3.Or(hi0 == 0, hi0 == 1), z3.Or(si0 == 0, si0 == 1)))
        # with an unchanged checkpoint the indices are those of the header
        V = x.V0
        for k, l in combos():
            s.assume(z3.Implies(z3.And(c == x.C, h == x.H, hi0 == k, si0 == l), hd.exact(V, k, l, c, h)))
        s.put(x.j, cls, 'checkpoint_position', c)
        s.put(x.j, cls, 'hard_checkpoint_position', h)
        s.put(x.j, cls, 'hard_index', hi0)
        s.put(x.j, cls, 'soft_index', si0)
        x.mm = None
        for o in t.call(s, fn, [x.j]):
            g = x.m.g(o.s)
            shared = x.mode == 4
            if o.ret and tail:
                t.prove(o.s, g['head'] == 0 and z3.If(shared, z3.BoolVal(g['tail'] == 2), z3.BoolVal(g['tail'] == 0)), 'the tail lock is held exactly for a shared file')
            else:
                x.locks(o.s)
            h2, s2, C2, H2 = x.members(o.s)
            t.prove(o.s, z3.And(C2 >= c, H2 >= h, C2 <= x.C), 'the checkpoint never decreases nor exceeds that of the writer')
            if o.ret:
                pulled = z3.BoolVal(True) if not tail else shared
                t.prove(o.s, z3.Implies(pulled, z3.And(C2 == x.C, H2 == x.H)), 'exactly the checkpoint of the writer')
                for k, l in combos():
                    t.prove(o.s, z3.Implies(z3.And(pulled, h2 == k, s2 == l), hd.exact(V, k, l, x.C, x.H)), 'header invariant')
                t.prove(o.s, z3.And(z3.Or(h2 == 0, h2 == 1), z3.Or(s2 == 0, s2 == 1)), 'indices')
                if ret_value:
                    t.prove(o.s, bv(o.v, 64) == x.C - c, 'returns by how much the checkpoint advanced')
            else:
                t.prove(o.s, z3.And(C2 == c, H2 == h), 'a failed pull changes nothing')


@task('C05 C08', SRC, budget=400, unroll={r'read_checkpoint': 500})
def pull(t):
    """Readonly_Journal::pull sees exactly the checkpoint of the writer, under the shared head lock"""
    pull_task(t, r'^joedb::Readonly_Journal::pull\(', RJ, True, False)


@task('C05 C08', SRC, budget=400, unroll={r'read_checkpoint': 500})
def lock_pull(t):
    """Writable_Journal::lock_pull takes the tail lock of a shared file and sees exactly the checkpoint of the last writer; the lock is released on failure"""
    pull_task(t, r'^joedb::Writable_Journal::lock_pull\(', WJ, False, True)


@task('C08', SRC)
def unlock(t):
    """Writable_Journal::unlock releases the tail lock of a shared file and nothing else"""
    x = J(t, 0, 0)
    s = x.s
    for shared in (True, False):
        s2 = s.fork()
        s2.assume(x.mode == 4 if shared else x.mode != 4)
        x.m.set(s2, tail=2 if shared else 0)
        for o in t.call(s2, r'^joedb::Writable_Journal::unlock\(', [x.j]):
            t.prove(o.s, o.ret, 'does not throw')
            x.locks(o.s)


@task('C06', SRC)
def touch(t):
    """Writable_Journal::touch rewrites the signature with itself"""
    x = J(t, 0, 0)
    for o in t.call(x.s, r'^joedb::Writable_Journal::touch\(', [x.j]):
        x.locks(o.s)
        t.prove(o.s, z3.And([a == b for a, b in zip(x.m.g(o.s)['V'], x.V0)]), 'no checkpoint changes')


@task('C06', SRC)
def flush(t):
    """Writable_Journal::flush writes at or after the checkpoint only"""
    x = J(t, 0, 0)
    for o in t.call(x.s, r'^joedb::Writable_Journal::flush\(', [x.j]):
        t.prove(o.s, z3.And([a == b for a, b in zip(x.m.g(o.s)['V'], x.V0)]), 'no checkpoint changes')
        if o.ret:
            t.prove(o.s, fb.scal(o.s, x.b)[1] == 0, 'flushed')
            t.prove(o.s, fb.position(o.s, x.b) == x.pos0 + x.idx0, 'same position')


@task('C06', SRC)
def ahead_of_checkpoint(t):
    """start_writing accepts only the checkpoint position, end_writing only the position of the journal"""
    x = J(t, 0, 0)
    p = t.var('position')
    for o in t.call(x.s.fork(), r'^joedb::Writable_Journal::start_writing\(', [x.j, p]):
        t.prove(o.s, (p == x.C) if o.ret else (p != x.C), 'start_writing')
    for o in t.call(x.s.fork(), r'^joedb::Writable_Journal::end_writing\(', [x.j, p]):
        t.prove(o.s, (p == x.pos0 + x.idx0) if o.ret else (p != x.pos0 + x.idx0), 'end_writing')
    for o in t.call(x.s.fork(), r'^joedb::Writable_Journal::ahead_of_checkpoint\(', [x.j]):
        t.prove(o.s, bool(o.ret) and bv(o.v, 64) == x.pos0 + x.idx0 - x.C, 'ahead_of_checkpoint')


# ------------------------------------------------------------ construction
LOCK = 'joedb::Journal_Construction_Lock'


@task('C08', SRC)
def construction_lock(t):
    """Journal_Construction_Lock takes the locks before reading the size, keeps them until its destruction, and releases them when it fails"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    m = hd.Model(t, s, f)
    mode = t.var('mode', 32)
    s.assume(z3.And(mode >= 0, mode < 6))
    s.put(f, files.AF, 'mode', mode)
    rec = t.var('recovery', 32)
    l = s.sym(LOCK, 'lock')

    def get_size(E, s, a, ins):
        g = m.g(s)
        t.prove(s, g['head'] != 0 and z3.Implies(mode == 4, z3.BoolVal(g['tail'] == 2)), 'the size is read under the locks', 'pre')
        return en.Outs([('exc', s.fork(), files.EXC), ('ret', s, gf(s, f, 'size'))])
    E.iface[files.AF]['get_size'] = get_size
    for o in t.call(s, r'^joedb::Journal_Construction_Lock::Journal_Construction_Lock\(', [l, f, rec]):
        g = m.g(o.s)
        if not o.ret:
            t.prove(o.s, g['head'] == 0 and g['tail'] == 0, 'a failed construction releases every lock')
            continue
        h, tl = g['head'], g['tail']
        t.prove(o.s, z3.If(mode == 0, z3.BoolVal(h == 1), z3.BoolVal(h == 2)), 'head lock')
        t.prove(o.s, z3.If(mode == 4, z3.BoolVal(tl == 2), z3.BoolVal(tl == 0)), 'tail lock of a shared file')
        t.prove(o.s, bv(o.s.get(l, LOCK, 'size'), 64) == bv(gf(o.s, f, 'size'), 64), 'size')
        t.prove(o.s, bv(o.s.get(l, LOCK, 'recovery'), 32) == rec, 'recovery')
        t.prove(o.s, bv(o.s.get(l, LOCK, 'for_writable_journal'), 8) == 0, 'not for a writable journal yet')
        for o2 in t.call(o.s, r'^joedb::Journal_Construction_Lock::~Journal_Construction_Lock\(', [l]):
            g = m.g(o2.s)
            t.prove(o2.s, o2.ret and g['head'] == 0 and g['tail'] == 0, 'every lock is released')


class Open:
    """an arbitrary file being opened"""

    def __init__(self, t, cls, unknown_size=False):
        E = t.E
        self.t, self.cls = t, cls
        files.install(E)
        s = self.s = t.state()
        f = self.f = files.new_file(E, s, 'file')
        m = self.m = hd.Model(t, s, f)
        m.small_reads = True
        m.floor = z3.BitVecVal((1 << 62), 64)
        mode, rec, n, forw = t.var('mode', 32), t.var('recovery', 32), t.var('lock.size'), t.var('for_writable', 8)
        self.mode, self.rec, self.n, self.forw = mode, rec, n, forw
        s.assume(z3.And(mode >= 0, mode < 6, rec >= 0, rec < 3))
        s.assume(z3.Or(forw == 0, forw == 1))
        size = bv(gf(s, f, 'size'), 64)
        s.assume(z3.And(n == size, n < BIG) if not unknown_size else n == -1)
        s.put(f, files.AF, 'mode', mode)
        l = self.l = s.sym(LOCK, 'lock')
        for k, v in (('file', f), ('recovery', rec), ('size', n), ('for_writable_journal', forw)):
            s.put(l, LOCK, k, v)
        s.bytes_obj
        m.set(s, head=1, tail=0)
        self.V = m.g(s)['V']
        for v in self.V:
            s.assume(z3.And(v > -BIG, v < BIG))
        self.arr = gf(s, f, 'arr')
        sig = list((5).to_bytes(4, 'little') + b'joedb')
        self.sig_ok = z3.And([bv(self.arr.sel(Lin(32 + i)), 8) == c for i, c in enumerate(sig)])
        self.j = s.sym(cls, 'journal')
        self.size = size

    def get(self, s, f, w=64):
        return bv(s.get(self.j, self.cls, f), w)

    def spec(self):
        return rc_spec(self.V, self.n)

    def unchanged(self, s, what):
        t, f = self.t, self.f
        g = self.m.g(s)
        t.prove(s, z3.And([a == b for a, b in zip(g['V'], self.V)]), 'header unchanged (%s)' % what)
        a = gf(s, f, 'arr')
        t.forall(s, lambda i: bv(a.sel(i), 8) == bv(self.arr.sel(i), 8), 'contents unchanged (%s)' % what)
        t.prove(s, bv(gf(s, f, 'size'), 64) == self.size, 'size unchanged (%s)' % what)


def rc_spec(V, n):
    H = z3.BitVecVal(41, 64)
    for i in range(2):
        H = z3.If(z3.And(V[2 * i] == V[2 * i + 1], V[2 * i] > H), V[2 * i], H)
    C = H
    for v in V:
        C = z3.If(z3.And(-v > C, z3.Or(n < 0, -v <= n)), -v, C)
    return C, H


def rc_post(V, n, C, H, hi, si):
    """postconditions of read_checkpoint on a new journal"""
    sC, sH = rc_spec(V, n)
    ok = [('checkpoint', z3.And(C == sC, H == sH)), ('indices', z3.And(z3.Or(hi == 0, hi == 1), z3.Or(si == 0, si == 1)))]
    for k, l in combos():
        ok.append(('current soft checkpoint', z3.Implies(z3.And(C > H, hi == k, si == l), -V[2 * (1 - k) + l] == C)))
        for a, b in combos():
            ok.append(('indices of a valid header', z3.Implies(z3.And(hd.exact(V, a, b, C, H), hi == k, si == l), hd.exact(V, k, l, C, H))))
    # the hard checkpoint is never in the pair used for the next soft checkpoints
    for a in range(2):
        ok.append(('hard checkpoint pair', z3.Implies(z3.And(V[2 * a] == H, V[2 * a + 1] == H, z3.Or(V[2 - 2 * a] != H, V[3 - 2 * a] != H)), hi == a)))
    return ok


@task('C07 C05', SRC, budget=400, unroll={r'read_checkpoint': 500})
def read_checkpoint(t):
    """read_checkpoint of a new journal: highest hard checkpoint, highest soft checkpoint inside the file, indices of the slots"""
    s = t.state()
    V = [t.var('V%d' % i) for i in range(4)]
    n = t.var('size')
    s.assume(z3.And(n < BIG, n >= -1))
    for v in V:
        s.assume(z3.And(v > -BIG, v < BIG))
    j = s.sym(RJ, 'journal')
    for k, v, w in (('checkpoint_position', 41, 64), ('hard_checkpoint_position', 41, 64), ('hard_index', 0, 32), ('soft_index', 0, 32)):
        s.put(j, RJ, k, z3.BitVecVal(v, w))
    a = Ptr(s.bytes_obj('slots', Lin(32)).id, 0)
    for k in range(4):
        s.store(a.add(Lin(8 * k)), 8, V[k])
    for o in t.call(s, r'^joedb::Readonly_Journal::read_checkpoint\(', [j, a, n]):
        t.prove(o.s, o.ret, 'does not throw')
        g = lambda f, w=64: bv(o.s.get(j, RJ, f), w)
        for name, c in rc_post(V, n, g('checkpoint_position'), g('hard_checkpoint_position'), g('hard_index', 32), g('soft_index', 32)):
            t.prove(o.s, c, name)


def contract_read_checkpoint(t, x):
    def h(E, s, a, ins):
        j, p, n = a[0], a[1], bv(a[2], 64)
        V = [bv(E.load(s, p.add(Lin(8 * k)), 8), 64) for k in range(4)]
        g = lambda f, w=64: bv(s.get(j, RJ, f), w)
        E.prove(s, z3.And(g('checkpoint_position') == 41, g('hard_checkpoint_position') == 41, g('hard_index', 32) == 0, g('soft_index', 32) == 0), 'pre', 'read_checkpoint: new journal')
        C, H, hi, si = t.var('rc.C'), t.var('rc.H'), t.var('rc.hi', 32), t.var('rc.si', 32)
        for name, c in rc_post(V, n, C, H, hi, si):
            s.assume(c)
        for k, v in (('checkpoint_position', C), ('hard_checkpoint_position', H), ('hard_index', hi), ('soft_index', si)):
            s.put(j, RJ, k, v)
        return None
    return (r'^joedb::Readonly_Journal::read_checkpoint\(', h, 'Readonly_Journal::read_checkpoint (proved: s_header.read_checkpoint)')


@task('C07 C05', SRC, budget=400)
def open_readonly(t):
    """Readonly_Journal(lock): accepts exactly the files with the right signature, version and a checkpoint inside the file; the checkpoint is that of the header; nothing is written"""
    for unknown in (False, True):
        x = Open(t, RJ, unknown)
        C, H = x.spec()
        n = x.n
        t.E.contracts += [contract_read_checkpoint(t, x)]
        okh = z3.And(x.size >= 41, z3.Or(x.rec == 1, z3.And(x.sig_ok, z3.Or(n < 0, C <= n))))
        ok = z3.If(n == 0, x.forw == 1, okh)
        for o in t.call(x.s, r'^joedb::Readonly_Journal::Readonly_Journal\(joedb::Journal_Construction_Lock&\)', [x.j, x.l]):
            x.unchanged(o.s, 'open')
            if not o.ret:
                t.prove(o.s, z3.Or(z3.Not(ok), x.m.g(o.s)['io']), 'a consistent file is refused only when a file operation fails')
                continue
            t.prove(o.s, ok, 'only a consistent file is accepted')
            c2, h2 = x.get(o.s, 'checkpoint_position'), x.get(o.s, 'hard_checkpoint_position')
            want = z3.If(n == 0, z3.BitVecVal(41, 64), z3.If(x.rec == 1, z3.If(n > 41, n, z3.BitVecVal(41, 64)), C))
            t.prove(o.s, c2 == want, 'checkpoint')
            t.prove(o.s, h2 == z3.If(z3.Or(n == 0, x.rec == 1), z3.BitVecVal(41, 64), H), 'hard checkpoint')
            t.prove(o.s, z3.And(c2 >= h2, z3.Or(n <= 0, c2 <= n)), 'the checkpoint is inside the file')
            b = x.j.add(Lin(t.E.M.field(RJ, 'file_buffer')[0]))
            t.prove(o.s, fb.position(o.s, b) == z3.If(n == 0, z3.BitVecVal(0, 64), z3.BitVecVal(41, 64)), 'position')
            t.prove(o.s, fb.scal(o.s, b)[1] == 0, 'empty buffer')


@task('C07 C05 C06', SRC, budget=400)
def open_writable(t):
    """Writable_Journal(lock): additionally refuses read-only files and bytes after the checkpoint; an empty file becomes an empty journal; overwriting leaves a header that every reader understands exactly; nothing else is written"""
    E = t.E
    for case in ('empty', 'known', 'unknown'):
        x = Open(t, WJ, case == 'unknown')
        s, n = x.s, x.n
        s.assume((n == 0) if case == 'empty' else (n != 0))
        x.m.set(s, head=2)
        E.contracts = [c for c in E.contracts if 'read_checkpoint' not in c[0]] + [contract_read_checkpoint(t, x)]
        C, H = x.spec()
        ro = x.mode == 0
        s.assume(z3.Or(x.mode != 0, x.forw == 0))
        wrote = []
        base_pwrite = x.m.pwrite

        def pwrite(E, s, a, ins, x=x):
            t.prove(s, z3.Not(x.mode == 0), 'a read-only file is never written', 'pre')
            off, k = lin(a[3]).const(), lin(a[2]).const()
            if case == 'empty' and off == 0 and k == 41:
                arr, ai = E.read_byte_array(s, a[1], Lin(41))
                V = [z3.Concat(*[bv(arr.sel(ai.add(Lin(8 * q + 7 - b))), 8) for b in range(8)]) for q in range(4)]
                sig = list((5).to_bytes(4, 'little') + b'joedb')
                t.prove(s, z3.And([v == 41 for v in V]), 'new header: checkpoints')
                t.prove(s, z3.And([bv(arr.sel(ai.add(Lin(32 + i))), 8) == c for i, c in enumerate(sig)]), 'new header: version and signature')
                e = s.fork()
                x.m.set(e, io=True)
                x.m.set(s, V=V)
                x.m.sync_arr(s)
                gset(s, x.f, 'size', z3.BitVecVal(41, 64))
                return en.Outs([('exc', e, files.EXC), ('ret', s, None)])
            return base_pwrite(E, s, a, ins)
        E.iface[files.AF]['pwrite'] = pwrite
        okh = z3.And(x.size >= 41, z3.Or(x.rec == 1, z3.And(x.sig_ok, z3.Or(n < 0, C <= n))))
        cp = z3.If(x.rec == 1, z3.If(n > 41, n, z3.BitVecVal(41, 64)), C)
        ok = z3.And(z3.Not(ro), z3.BoolVal(True) if case == 'empty' else z3.And(okh, z3.Or(n < 0, n <= cp, x.rec == 2)))
        for o in t.call(s, r'^joedb::Writable_Journal::Writable_Journal\(joedb::Journal_Construction_Lock&\)', [x.j, x.l]):
            g = x.m.g(o.s)
            t.prove(o.s, g['head'] == 2, 'the construction lock is still held')
            if not o.ret:
                t.prove(o.s, z3.Or(z3.Not(ok), g['io']), 'a consistent file is refused only when a file operation fails')
                t.prove(o.s, z3.Or(g['io'], z3.And([a == b for a, b in zip(g['V'], x.V)])), 'a refused opening changes nothing')
                continue
            t.prove(o.s, ok, 'only a consistent and writable file is accepted')
            c2, h2, hi, si = x.get(o.s, 'checkpoint_position'), x.get(o.s, 'hard_checkpoint_position'), x.get(o.s, 'hard_index', 32), x.get(o.s, 'soft_index', 32)
            b = x.j.add(Lin(E.M.field(WJ, 'file_buffer')[0]))
            t.prove(o.s, z3.And(fb.position(o.s, b) == 41, fb.scal(o.s, b)[1] == 0), 'position')
            if case == 'empty':
                t.prove(o.s, z3.And(c2 == 41, h2 == 41), 'an empty journal')
                t.prove(o.s, bv(gf(o.s, x.f, 'size'), 64) == 41, 'an empty journal has only a header')
                for k, l in combos():
                    t.prove(o.s, z3.Implies(z3.And(hi == k, si == l), hd.exact(g['V'], k, l, c2, h2)), 'readers find exactly the checkpoint')
            else:
                t.prove(o.s, c2 == cp, 'checkpoint')
                same = z3.And([a == b for a, b in zip(g['V'], x.V)])
                t.prove(o.s, z3.Or(x.rec == 2, same), 'header unchanged')
                good = z3.Or([z3.And(x.V[2 * k] == H, x.V[2 * k + 1] == H, z3.Or(x.V[2 - 2 * k] != x.V[3 - 2 * k], x.V[2 - 2 * k] <= H)) for k in range(2)])
                for k, l in combos():
                    t.prove(o.s, z3.Implies(z3.And(x.rec == 2, n > 0, good, hi == k, si == l), hd.exact(g['V'], k, l, c2, h2)), 'after overwriting, readers find exactly the checkpoint')
