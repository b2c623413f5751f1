"""C18: journals connected through the Connection interface never mix diverging histories."""
import z3
import engine as en
import files
import lib
from files import gf
from header import RJ, WJ
from terms import *
from task import task

BIG = 1 << 60
PJ, JC, CN = 'joedb::Pullonly_Journal_Connection', 'joedb::Journal_Connection', 'joedb::Connection'
SRC = ['joedb/concurrency/File_Connection.cpp', 'joedb/concurrency/Connection.cpp', 'joedb/journal/Abstract_File.cpp',
       'joedb/journal/Writable_Journal.cpp', 'joedb/journal/Readonly_Journal.cpp', 'drivers/conn.cpp']
MISMATCH = '_ZTIN5joedb16Content_MismatchE'


class Side:
    """a journal: its file and its checkpoint"""
    def __init__(self, E, s, cls, name):
        self.E, self.cls = E, cls
        self.j = s.sym(cls, name)
        s.wobj(self.j.obj).meta = {'exact': True}
        self.f = files.new_file(E, s, name + '.file')
        s.put(self.j, cls, 'file', self.f)
        # the readonly part
        self.r = self.j.add(Lin(E.M.field(cls, 'checkpoint_position')[0] - E.M.field(RJ, 'checkpoint_position')[0]))
        c = self.cp0 = self.cp(s)
        s.assume(z3.And(c >= 41, c < BIG))
        self.a0 = gf(s, self.f, 'arr')

    def cp(self, s):
        return bv(s.get(self.j, self.cls, 'checkpoint_position'), 64)

    def arr(self, s):
        return gf(s, self.f, 'arr')


class Two:
    def __init__(self, t, client=WJ, server=WJ):
        self.t, E = t, t.E
        self.E = E
        files.install(E)
        s = self.s = t.state()
        self.c = Side(E, s, client, 'client')
        self.v = Side(E, s, server, 'server')
        E.iface[files.AF] = dict(E.iface[files.AF], equal_to=self.equal_to, copy_to=self.copy_to)     # C13
        E.contracts += [(r'^joedb::Writable_Journal::soft_checkpoint_at\(', self.soft, 'Writable_Journal::soft_checkpoint_at (C05)')]

    def side(self, p):
        for x in (self.c, self.v):
            if p.obj == x.f.obj:
                return x
        raise en.Unsupported('unknown file')

    def equal_to(self, E, s, a, ins):
        A, B = self.side(a[0]), self.side(a[1])
        frm, n = bv(a[2], 64), bv(a[3], 64)
        E.prove(s, z3.And(frm >= 0, n < BIG), 'pre', 'equal_to: range')
        E.prove(s, bool(A is not B), 'pre', 'the two journals are compared')
        x, no = s.fork(), s.fork()
        aa, ba = gf(s, A.f, 'arr'), gf(s, B.f, 'arr')
        body = lambda i: z3.Implies(z3.And(i.bv() >= frm, i.bv() < n), lib.byte_eq(aa, i, ba, i))
        for arr in (aa, ba):
            if isinstance(arr, Base):
                s.assume_forall(arr, body)
        s.ghost['eq'] = s.ghost.get('eq', ()) + ((frm, n),)
        k = fresh('differs', 64)
        no.assume(z3.And(k >= frm, k < n, z3.Not(lib.byte_eq(aa, lin(k), ba, lin(k)))))
        return en.Outs([('exc', x, files.EXC), ('ret', s, True), ('ret', no, False)])

    def copy_to(self, E, s, a, ins):
        A, B = self.side(a[0]), self.side(a[1])
        frm, n = bv(a[2], 64), bv(a[3], 64)
        E.prove(s, z3.And(frm >= 0, n >= 0, frm + n < BIG), 'pre', 'copy_to: range')
        src = gf(s, A.f, 'arr')

        def put(st, m):
            old = gf(st, B.f, 'arr')
            files.gset(st, B.f, 'arr', Copy(old, lin(frm), lin(m), src, lin(frm)))
        x = s.fork()
        m = fresh('copied', 64)
        x.assume(z3.ULE(m, n))
        put(x, m)
        put(s, n)
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def soft(self, E, s, a, ins):
        side = self.c if a[0].obj == self.c.j.obj else self.v
        p, old = bv(a[1], 64), side.cp(s)
        x = s.fork()
        s.put(side.j, side.cls, 'checkpoint_position', simp(z3.If(old >= p, old, p)))
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def appended(self, o, side, src, until, msg):
        """side now ends at max(old, until); exactly the bytes of src between"""
        t, s = self.t, o.s
        cp = side.cp0
        n = z3.If(until > cp, until - cp, z3.BitVecVal(0, 64))
        t.prove(s, side.cp(s) == cp + n, msg + ': checkpoint')
        t.forall(s, lambda i: bv(side.arr(s).sel(i), 8) == bv(ite(lin_ult(i.sub(lin(cp)), lin(n)), src.sel(i), side.a0.sel(i), 8), 8), msg + ': exactly the missing bytes')

    def kept(self, o, side, msg):
        t, s = self.t, o.s
        t.prove(s, side.cp(s) == side.cp0, msg + ': checkpoint kept')
        a = side.arr(s)
        if a is not side.a0:
            t.forall(s, lambda i: z3.Implies(z3.And(i.bv() >= 0, i.bv() < side.cp0), lib.byte_eq(a, i, side.a0, i)), msg + ': contents kept')


@task('C18', SRC)
def pull_from(t):
    """Writable_Journal::pull_from appends exactly the bytes of the other journal between the two positions; a failure keeps what is checkpointed"""
    w = Two(t)
    until = t.var('until')
    w.s.assume(z3.And(until >= 0, until < BIG))
    for o in t.call(w.s, r'^joedb::Writable_Journal::pull_from\(.*long', [w.c.j, w.v.r, until]):
        if o.ret:
            w.appended(o, w.c, w.v.a0, until, 'pull_from')
            t.prove(o.s, bv(o.v, 64) == w.c.cp(o.s), 'returns the checkpoint')
        else:
            w.kept(o, w.c, 'pull_from that fails')
        w.kept(o, w.v, 'the other journal')


CHECKS = {'none': 0, 'fast': 1, 'full': 2}


def handshake(kind, equal):
    def f(t):
        w = Two(t, RJ)
        s, E = w.s, t.E
        c = s.sym(PJ, 'connection')
        s.wobj(c.obj).meta = {'exact': True}
        s.put(c, PJ, 'server_journal', w.v.r)
        a, b = w.c.cp0, w.v.cp0
        m = z3.If(a < b, a, b)
        if equal:
            body = lambda i: z3.Implies(z3.And(i.bv() >= 41, i.bv() < m), lib.byte_eq(w.c.a0, i, w.v.a0, i))
            for arr in (w.c.a0, w.v.a0):
                s.assume_forall(arr, body)
        for o in t.call(s, r'^joedb::Pullonly_Journal_Connection::handshake\(', [c, w.c.r, z3.BitVecVal(CHECKS[kind], 32)]):
            w.kept(o, w.c, 'handshake, client')
            w.kept(o, w.v, 'handshake, server')
            if not o.ret:
                if equal:
                    t.prove(o.s, z3.BoolVal(o.v['ti'] != MISMATCH), 'equal prefixes are never refused')
                continue
            t.prove(o.s, bv(o.v, 64) == b, 'returns the checkpoint of the server')
            if equal or kind == 'none':
                continue
            eq = lambda lo, hi: (lambda i: z3.Implies(z3.And(i.bv() >= lo, i.bv() < hi), lib.byte_eq(w.c.a0, i, w.v.a0, i)))
            z = lambda x: z3.BitVecVal(x, 64)
            if kind == 'full':
                t.forall(o.s, eq(z(41), m), 'accepted only when one is a prefix of the other')
            else:
                small = o.s.fork()
                small.assume(m <= 4096)
                t.forall(small, eq(z(41), m), 'up to 4 kB, accepted only when one is a prefix of the other')
                big = o.s.fork()
                big.assume(m > 4096)
                t.forall(big, eq(z(41), z(2048)), 'the first 2 kB are compared')
                t.forall(big, eq(m - 2048, m), 'the last 2 kB of the common length are compared')
    f.__name__ = 'handshake_%s%s' % (kind, '_equal' if equal else '')
    f.__doc__ = 'Pullonly_Journal_Connection::handshake(%s): %s' % (kind, 'never refuses a prefix' if equal else 'accepts only a common prefix')
    f.__module__ = __name__
    return f


for _k in CHECKS:
    for _e in (False, True):
        task('C18', SRC)(handshake(_k, _e))


def pull(cls, lock, data):
    def f(t):
        w = Two(t)
        s, E = w.s, t.E
        c = s.sym(cls, 'connection')
        s.wobj(c.obj).meta = {'exact': True}
        s.put(c, PJ, 'server_journal', w.v.r)
        s.ghost['pulled'] = ''

        def spull(how):
            def h(E, s, a, ins):
                E.prove(s, z3.BoolVal(a[0].obj == w.v.j.obj), 'pre', 'the server journal is refreshed')
                x = s.fork()
                n = fresh('server.checkpoint', 64)
                s.assume(z3.And(n >= w.v.cp0, n < BIG))
                s.put(w.v.j, w.v.cls, 'checkpoint_position', n)
                s.ghost['pulled'] += how
                return en.Outs([('exc', x, files.EXC), ('ret', s, None)])
            return h
        E.contracts += [(r'^joedb::Readonly_Journal::pull\(', spull('p'), 'Readonly_Journal::pull (C07)'),
                        (r'^joedb::Writable_Journal::lock_pull\(', spull('l'), 'Writable_Journal::lock_pull (C08)')]
        E.iface[RJ] = {'pull': spull('p')}
        for o in t.call(s, r'^%s::pull\(' % cls, [c, z3.BitVecVal(int(lock), 32), z3.BitVecVal(int(data), 32), w.c.j, t.var('wait')], cover=not (cls == PJ and lock)):
            t.prove(o.s, bool(w.v.arr(o.s) is w.v.a0), 'the server journal is not written')
            if cls == PJ and lock:
                t.prove(o.s, z3.BoolVal(not o.ret), 'a pull-only connection can not be locked')
            if not o.ret:
                w.kept(o, w.c, 'pull that fails')
                continue
            t.prove(o.s, z3.BoolVal(o.s.ghost['pulled'] == ('l' if lock else 'p')), 'the server journal is refreshed once, locked when asked')
            t.prove(o.s, bv(o.v, 64) == w.v.cp(o.s), 'returns the checkpoint of the server')
            if data:
                w.appended(o, w.c, w.v.a0, w.v.cp(o.s), 'pull')
            else:
                w.kept(o, w.c, 'pull without data')
                t.prove(o.s, bool(w.c.arr(o.s) is w.c.a0), 'nothing is written')
    f.__name__ = 'pull_%s_%s%s' % (cls.split('::')[1], 'lock_' if lock else '', 'data' if data else 'nodata')
    f.__doc__ = '%s::pull: the server journal is refreshed and exactly the missing bytes are appended to the client' % cls
    f.__module__ = __name__
    return f


for _c in (PJ, JC):
    for _l in (False, True):
        for _d in (False, True):
            task('C18', SRC)(pull(_c, _l, _d))


def push(cls, unlock):
    def f(t):
        w = Two(t)
        s, E = w.s, t.E
        c = s.sym(cls, 'connection')
        s.wobj(c.obj).meta = {'exact': True}
        s.put(c, PJ, 'server_journal', w.v.r)
        frm, until = t.var('from'), t.var('until')
        s.assume(z3.And(until >= 41, until <= w.c.cp0))
        for o in t.call(s, r'^%s::push\(' % cls, [c, w.c.r, frm, until, z3.BitVecVal(int(unlock), 32)], cover=cls != PJ):
            w.kept(o, w.c, 'the client')
            t.prove(o.s, bool(w.c.arr(o.s) is w.c.a0), 'the client journal is not written')
            if cls == PJ:
                t.prove(o.s, z3.BoolVal(not o.ret), 'a pull-only connection can not be pushed to')
                t.prove(o.s, bool(w.v.arr(o.s) is w.v.a0), 'the server journal is not written')
            if not o.ret:
                w.kept(o, w.v, 'push that fails')
                continue
            t.prove(o.s, frm == w.v.cp0, 'a push that does not start at the checkpoint of the server is refused')
            w.appended(o, w.v, w.c.a0, until, 'push')
            t.prove(o.s, bv(o.v, 64) == w.v.cp(o.s), 'returns the checkpoint of the server')
    f.__name__ = 'push_%s%s' % (cls.split('::')[1], '_unlock' if unlock else '')
    f.__doc__ = '%s::push: refused unless it starts at the checkpoint of the server; then exactly the bytes of the range are appended' % cls
    f.__module__ = __name__
    return f


for _c in (PJ, JC):
    for _u in (False, True):
        task('C18', SRC)(push(_c, _u))


@task('C18', SRC)
def dummy(t):
    """the dummy connection: everything is up to date, nothing is written"""
    w = Two(t)
    s0, E = w.s, t.E
    c = s0.sym(CN, 'dummy')
    s0.wobj(c.obj).meta = {'exact': True}
    z = z3.BitVecVal(0, 32)
    for rx, args in ((r'^joedb::Connection::handshake\(', [c, w.c.r, t.var('check', 32)]),
                     (r'^joedb::Connection::pull\(', [c, t.var('l', 32), t.var('d', 32), w.c.j, t.var('wait')]),
                     (r'^joedb::Connection::push\(', [c, w.c.r, t.var('from'), t.var('until'), z])):
        for o in t.call(s0.fork(), rx, args):
            t.prove(o.s, z3.BoolVal(o.ret), 'does not fail')
            if o.ret:
                t.prove(o.s, bv(o.v, 64) == w.c.cp0, 'returns the checkpoint of the client')
                w.kept(o, w.c, 'dummy connection')
                t.prove(o.s, bool(w.c.arr(o.s) is w.c.a0), 'nothing is written')
