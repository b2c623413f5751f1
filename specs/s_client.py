"""C19: the client side of the wire protocol (doc/source/network_protocol.rst)."""
import z3
import engine as en
import files
import lib
import builtins_model as bm
from header import RJ
from terms import *
from task import task

CH, SC, SN = 'joedb::Channel', 'joedb::Server_Client', 'joedb::Server_Connection'
BUF = (1 << 13) + 8
BIG = 1 << 60
SRC = ['joedb/concurrency/Server_Connection.cpp', 'joedb/concurrency/Server_Client.cpp', 'joedb/concurrency/Channel.cpp',
       'joedb/journal/Async_Reader.cpp', 'drivers/client.cpp']


class Client:
    """a client, its channel and the server at the other end"""
    def __init__(self, t, channel=False):
        self.t, E = t, t.E
        self.E = E
        files.install(E)
        s = self.s = t.state()
        self.chan = s.sym(CH, 'channel', 64)
        g = s.ghost
        self.inp = Base('server', 8)       # the bytes the server sends
        g['out'], g['opos'] = Base('sent0', 8), z3.BitVecVal(0, 64)
        g['ipos'] = z3.BitVecVal(0, 64)
        g['held'] = False
        self.alone = False
        E.iface[CH] = {'write_some': self.write_some, 'read_some': self.read_some}
        E.loop_cands += [self.sent_so_far, self.cands]
        self.c = None
        self.src = None
        if channel:
            return
        self.logger = s.sym('joedb::Logger', 'logger', 8)
        self.c = s.sym(SN, 'client')
        s.wobj(self.c.obj).meta = {'exact': True}
        self.sc = self.c           # Server_Client is the first base
        s.put(self.c, SC, 'channel.t', self.chan)
        E.iface['joedb::Logger'] = {'log': lambda E, s, a, ins: None}
        E.contracts += [
            (r'^std::mutex::lock\(', self.lock, 'std::mutex::lock'),
            (r'^std::mutex::unlock\(', self.unlock, 'std::mutex::unlock'),
            (r'^joedb::Channel::write\(', self.write, 'Channel::write'),
            (r'^joedb::Channel::read\(', self.read, 'Channel::read'),
            (r'^(std::(__cxx11::)?|__gnu_cxx::)to_string\(', self.to_string, 'std::to_string (log messages)'),
            (r'^std::(__cxx11::)?to_string', self.to_string, 'std::to_string (log messages)'),
            (r'^joedb::Progress_Bar::', lambda E, s, a, ins: None, 'Progress_Bar (log messages)'),
            (r'^joedb::Server_Client::log\(', lambda E, s, a, ins: None, 'Server_Client::log'),
        ]

    def to_string(self, E, s, a, ins):
        bm.fresh_string(E, s, a[0], 'number')
        return None

    # --- the mutex: whoever holds it may use the channel and the buffer; nobody else may.
    # Another thread may send a ping whenever it is not held: the buffer is arbitrary then.
    def others(self, E, s):
        if self.alone:
            return
        off, size, ty = E.M.field(SC, 'buffer')
        E.write_bytes(s, self.c.add(Lin(off)), Lin(BUF), Base('other thread', 8), Lin(0), 'buffer')
        s.store(self.c.add(Lin(off + BUF)), 8, fresh('index', 64))

    def lock(self, E, s, a, ins):
        E.prove(s, z3.BoolVal(not s.ghost['held']), 'pre', 'the channel is not locked twice')
        s.ghost['held'] = True
        self.others(E, s)
        return None

    def unlock(self, E, s, a, ins):
        E.prove(s, z3.BoolVal(s.ghost['held']), 'pre', 'unlocking a locked channel')
        s.ghost['held'] = False
        self.others(E, s)
        return None

    def owns(self, E, s):
        if self.c is not None:
            E.prove(s, z3.BoolVal(s.ghost['held']), 'pre', 'the channel is used only while it is locked')

    # --- the channel
    def put(self, E, s, d, n):
        src, si = E.read_byte_array(s, d, n, 'data sent')
        g = s.ghost
        g['out'] = Copy(g['out'], lin(g['opos']), n, src, si)
        g['opos'] = z3.simplify(g['opos'] + n.bv())

    def take(self, E, s, d, n):
        g = s.ghost
        E.write_bytes(s, d, n, self.inp, lin(g['ipos']), 'data received')
        g['ipos'] = z3.simplify(g['ipos'] + n.bv())

    def failed(self, E, s):
        e = s.fork()
        e.ghost['broken'] = True
        return ('exc', e, files.EXC)

    def write_some(self, E, s, a, ins):
        self.owns(E, s)
        n = lin(a[2])
        E.check_ptr(s, a[1], n, 'write_some') if False else None
        x = self.failed(E, s)
        m = fresh('some', 64)
        s.assume(z3.ULE(m, n.bv()))
        E.read_byte_array(s, a[1], n, 'data sent')
        self.put(E, s, a[1], lin(m))
        return en.Outs([x, ('ret', s, m)])

    def read_some(self, E, s, a, ins):
        self.owns(E, s)
        n = lin(a[2])
        x = self.failed(E, s)
        m = fresh('some', 64)
        s.assume(z3.ULE(m, n.bv()))
        g = s.ghost
        E.write_bytes(s, a[1], n, Copy(Base('unspecified', 8), Lin(0), lin(m), self.inp, lin(g['ipos'])), Lin(0), 'data received')
        g['ipos'] = z3.simplify(g['ipos'] + m)
        return en.Outs([x, ('ret', s, m)])

    def write(self, E, s, a, ins):
        self.owns(E, s)
        x = self.failed(E, s)
        self.put(E, s, a[1], lin(a[2]))
        return en.Outs([x, ('ret', s, None)])

    def read(self, E, s, a, ins):
        self.owns(E, s)
        x = self.failed(E, s)
        self.take(E, s, a[1], lin(a[2]))
        return en.Outs([x, ('ret', s, None)])

    # --- loop invariants
    def sent_so_far(self, E, lp):
        """what the loop sent is the data given; what it received is what the server sent"""
        out = []
        if 'opos' not in lp.s0.ghost:
            return out
        if self.src:
            arr, si, start = self.src

            def f(g):
                o, p = g.s.ghost['out'], g.s.ghost['opos']
                return [o], lambda i: z3.Implies(z3.And(z3.UGE(i.bv(), start), z3.ULT(i.bv(), p)), lib.byte_eq(o, i, arr, i.sub(lin(start)).add(si)))
            out.append(en.QCand('sent so far', f, True))
            head = lp.s0.ghost['out']

            def h(g):
                o = g.s.ghost['out']
                return [o], lambda i: z3.Implies(z3.ULT(i.bv(), start), lib.byte_eq(o, i, head, i))
            if not (z3.is_bv_value(start) and start.as_long() == 0):
                out.append(en.QCand('request header', h, True))
        for m in [m for m in lp.mods if m[0] == 'seg']:
            def r(g, m=m):
                b = g.cur(m)
                if b.w != 8:
                    raise en.Unsupported('element width')
                p0, p = g.s0.ghost['ipos'], g.s.ghost['ipos']
                return [b], lambda i: z3.Implies(z3.ULT(i.bv(), p - p0), lib.byte_eq(b, i, self.inp, i.add(lin(p0))))
            out.append(en.QCand('received so far', r, True))
        return out

    def cands(self, E, lp):
        if 'opos' not in lp.s0.ghost:
            return []
        out = []
        for k, w in lp.scal:
            if w == 64:
                for p in ('opos', 'ipos'):
                    out.append(en.Cand(p + ' advances with the count', lambda g, k=k, p=p: g.s.ghost[p] == g.s0.ghost[p] + bv(g.cur(k), 64), True))
        return out

    # --- goals
    def sent(self, o, parts, msg):
        """exactly these bytes were sent; parts: byte constants, 64-bit values or (arr, index, len)"""
        t, s = self.t, o.s
        pos = 0
        for p in parts:
            if isinstance(p, str):
                for ch in p:
                    t.prove(s, bv(s.ghost['out'].sel(Lin(pos)), 8) == ord(ch), msg + ': code')
                    pos += 1
            elif isinstance(p, tuple):
                arr, i, n = p
                t.prove(s, s.ghost['opos'] == pos + n.bv(), msg + ': length')
                t.forall(s, lambda k: z3.Implies(z3.ULT(k.bv(), n.bv()), lib.byte_eq(s.ghost['out'], k.add(Lin(pos)), arr, i.add(k))), msg + ': data')
                return
            else:
                v = bv(p, p.size() if z3.is_expr(p) else 64)
                for k in range(v.size() // 8):
                    t.prove(s, bv(s.ghost['out'].sel(Lin(pos)), 8) == z3.Extract(8 * k + 7, 8 * k, v), msg + ': value')
                    pos += 1
        t.prove(s, s.ghost['opos'] == pos, msg + ': length')

    def value(self, i, w=64):
        return z3.Concat(*[bv(self.inp.sel(Lin(i + k)), 8) for k in reversed(range(w // 8))]) if w > 8 else bv(self.inp.sel(Lin(i)), 8)

    def free(self, outs, msg='the channel is unlocked'):
        for o in outs:
            self.t.prove(o.s, z3.BoolVal(not o.s.ghost['held']), msg)


@task('C19', SRC)
def channel_write(t):
    """Channel::write sends exactly the bytes, in order, however they are split"""
    c = Client(t, channel=True)
    s = c.s
    n = t.var('size')
    s.assume(z3.ULT(n, 1 << 40))
    d = Ptr(s.bytes_obj('data', lin(n)).id, 0)
    src, si = t.E.read_byte_array(s, d, lin(n))
    c.src = (src, si, z3.BitVecVal(0, 64))
    for o in t.call(s, r'^joedb::Channel::write\(', [c.chan, d, n]):
        if o.ret:
            c.sent(o, [(src, si, lin(n))], 'Channel::write')
            t.prove(o.s, o.s.ghost['ipos'] == 0, 'nothing received')


@task('C19', SRC)
def channel_read(t):
    """Channel::read receives exactly the bytes, in order, however they are split"""
    c = Client(t, channel=True)
    s = c.s
    n = t.var('size')
    s.assume(z3.ULT(n, 1 << 40))
    d = Ptr(s.bytes_obj('data', lin(n)).id, 0)
    for o in t.call(s, r'^joedb::Channel::read\(', [c.chan, d, n]):
        if o.ret:
            b, bi = t.E.read_byte_array(o.s, d, lin(n))
            t.forall(o.s, lambda k: z3.Implies(z3.ULT(k.bv(), n), lib.byte_eq(b, bi.add(k), c.inp, k)), 'bytes received in order')
            t.prove(o.s, z3.And(o.s.ghost['ipos'] == n, o.s.ghost['opos'] == 0), 'exactly the bytes')


@task('C19', SRC)
def unlock(t):
    """unlock sends M, consumes one byte and accepts only M"""
    c = Client(t)
    outs = t.call(c.s, r'^joedb::Server_Connection::unlock\(', [c.c])
    c.free(outs)
    for o in outs:
        if o.ret:
            c.sent(o, ['M'], 'unlock')
            t.prove(o.s, z3.And(o.s.ghost['ipos'] == 1, c.value(0, 8) == ord('M')), 'exactly the reply M is accepted')


def request(code, *values):
    return [code] + [z3.BitVecVal(v, 64) if isinstance(v, int) else v for v in values]


@task('C19', SRC)
def ping(t):
    """ping sends a pull of nothing and consumes its 9-byte reply; it touches only the shared buffer, under the lock"""
    c = Client(t)
    outs = t.call(c.s, r'^verif::ping\(', [c.c])
    c.free(outs)
    for o in outs:
        if o.ret:
            c.sent(o, request('D', 0, 0), 'ping')
            t.prove(o.s, o.s.ghost['ipos'] == 9, 'exactly the reply')


@task('C19', SRC)
def connect(t):
    """connect sends the greeting and accepts only the greeting of a compatible server, whose checkpoint, session and mode it takes"""
    c = Client(t)
    c.alone = True      # the keep-alive thread is started later (task construct)
    E = t.E
    outs = t.call(c.s, r'^joedb::Server_Client::connect\(', [c.c])
    c.free(outs)
    ver = c.value(5)
    for o in outs:
        if o.ret:
            for k, ch in enumerate('joedb'):
                t.prove(o.s, bv(o.s.ghost['out'].sel(Lin(k)), 8) == ord(ch), 'greeting: signature')
                t.prove(o.s, c.value(k, 8) == ord(ch), 'only a joedb server is accepted')
            v = z3.Concat(*[bv(o.s.ghost['out'].sel(Lin(5 + k)), 8) for k in reversed(range(8))])
            t.prove(o.s, o.s.ghost['opos'] == 13, 'greeting: length')
            t.prove(o.s, z3.And(ver != 0, ver >= v), 'only a server that supports the version is accepted')
            t.prove(o.s, o.s.ghost['ipos'] == 30, 'exactly the reply')
            t.prove(o.s, bv(o.s.get(c.c, SC, 'session_id'), 64) == c.value(13), 'session')
            t.prove(o.s, bv(o.s.get(c.c, SC, 'server_checkpoint'), 64) == c.value(21), 'checkpoint of the server')
            m = c.value(29, 8)
            t.prove(o.s, z3.Or(m == ord('R'), m == ord('W')), 'mode R or W')
            t.prove(o.s, (bv(o.s.get(c.c, SC, 'pullonly_server'), 8) != 0) == (m == ord('R')), 'pull-only exactly when the server says so')


@task('C19', SRC)
def pread(t):
    """pread sends the range asked, accepts only a reply inside of it, and delivers exactly its bytes"""
    c = Client(t)
    s, E = c.s, t.E
    n, off = t.var('size'), t.var('offset')
    s.assume(z3.And(z3.ULT(n, 1 << 40), off >= 0, off < BIG))
    d = Ptr(s.bytes_obj('data', lin(n)).id, 0)
    c.read_to = d
    outs = t.call(s, r'^joedb::Server_Connection::pread\(', [c.c, d, n, off])
    c.free(outs)
    for o in outs:
        if o.ret:
            c.sent(o, request('r', off, off + n), 'pread')
            u = c.value(1)
            t.prove(o.s, z3.And(c.value(0, 8) == ord('r'), u >= off, u <= off + n), 'only a reply inside of the range is accepted')
            t.prove(o.s, bv(o.v, 64) == u - off, 'number of bytes read')
            t.prove(o.s, o.s.ghost['ipos'] == 9 + (u - off), 'exactly the reply')
            b, bi = E.read_byte_array(o.s, d, lin(n))
            t.forall(o.s, lambda k: z3.Implies(z3.ULT(k.bv(), u - off), lib.byte_eq(b, bi.add(k), c.inp, k.add(9))), 'bytes received')


WJ = 'joedb::Writable_Journal'
JSRC = SRC + ['joedb/journal/Writable_Journal.cpp', 'joedb/journal/Readonly_Journal.cpp']


def journal(c):
    """the local journal: a file and a checkpoint"""
    t, s, E = c.t, c.s, c.E
    j = s.sym(WJ, 'journal')
    f = files.new_file(E, s, 'file')
    s.put(j, WJ, 'file', f)
    cp = bv(s.get(j, WJ, 'checkpoint_position'), 64)
    s.assume(z3.And(cp >= 41, cp < BIG))

    def soft(E, s, a, ins):
        p, old = bv(a[1], 64), bv(s.get(j, WJ, 'checkpoint_position'), 64)
        x = s.fork()
        s.put(j, WJ, 'checkpoint_position', simp(z3.If(old >= p, old, p)))
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])
    E.contracts.append((r'^joedb::Writable_Journal::soft_checkpoint_at\(', soft, 'Writable_Journal::soft_checkpoint_at (C05)'))
    c.file, c.cp, c.j = f, cp, j
    return j


def downloaded(c, base, n):
    """file = bytes received from the server on [cp, cp + n), old contents elsewhere"""
    def gen(E, lp):
        if 'opos' not in lp.s0.ghost:
            return []
        out = [en.Cand('no more than announced', lambda g: z3.ULE(g.s.ghost['ipos'] - base, n), True)]
        for k, w in lp.scal:
            if w != 64:
                continue
            out.append(en.Cand('write position', lambda g, k=k: bv(g.cur(k), 64) == c.cp + (g.s.ghost['ipos'] - base), True))

        def f(g):
            cur, old = files.gf(g.s, c.file, 'arr'), files.gf(g.s0, c.file, 'arr')
            m = g.s.ghost['ipos'] - base
            return [cur], lambda i: bv(cur.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(c.cp)), lin(m)), c.inp.sel(i.sub(lin(c.cp)).add(base)), old.sel(i), 8), 8)
        out.append(en.QCand('downloaded', f, True))
        return out
    return gen


def pull(lock, data):
    def f(t):
        c = Client(t)
        s, E = c.s, t.E
        j = journal(c)
        cp, f0 = c.cp, files.gf(s, c.file, 'arr')
        wait = t.var('wait')
        u = c.value(1)
        s.assume(z3.And(u >= 0, u < BIG))       # no server has more data
        n = z3.If(u > cp, u - cp, z3.BitVecVal(0, 64))
        E.loop_cands.append(downloaded(c, 9, n))
        code = 'DEFG'[int(lock) + 2 * int(data)]
        outs = t.call(s, r'^joedb::Server_Connection::pull\(', [c.c, z3.BitVecVal(int(lock), 32), z3.BitVecVal(int(data), 32), j, wait])
        c.free(outs)
        for o in outs:
            cp1, f1 = bv(o.s.get(j, WJ, 'checkpoint_position'), 64), files.gf(o.s, c.file, 'arr')
            if not data:
                t.prove(o.s, bool(f1 is f0), 'nothing is written without data transfer')
            if not o.ret:
                t.prove(o.s, cp1 == cp, 'a pull that fails does not move the checkpoint')
                if data:
                    t.forall(o.s, lambda i: z3.Implies(z3.And(i.bv() >= 0, i.bv() < cp), lib.byte_eq(f1, i, f0, i)), 'a pull that fails keeps the contents')
                continue
            c.sent(o, request(code, wait, cp), 'pull')
            t.prove(o.s, c.value(0, 8) == ord(code), 'only the reply to this request is accepted')
            t.prove(o.s, z3.And(bv(o.v, 64) == u, bv(o.s.get(c.c, SC, 'server_checkpoint'), 64) == u), 'the checkpoint of the server is returned')
            if data:
                t.prove(o.s, o.s.ghost['ipos'] == 9 + n, 'exactly the reply')
                t.prove(o.s, cp1 == cp + n, 'the checkpoint moves to the end of the new data')
                t.forall(o.s, lambda i: bv(f1.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(cp)), lin(n)), c.inp.sel(i.sub(lin(cp)).add(9)), f0.sel(i), 8), 8), 'exactly the missing bytes are appended')
            else:
                t.prove(o.s, o.s.ghost['ipos'] == 9, 'exactly the reply')
                t.prove(o.s, cp1 == cp, 'the checkpoint does not move')
    f.__name__ = 'pull_' + ('lock_' if lock else '') + ('data' if data else 'nodata')
    f.__doc__ = 'pull: request, reply, and exactly the missing bytes appended'
    f.__module__ = __name__
    return f


for _l in (False, True):
    for _d in (False, True):
        task('C18 C19', JSRC, budget=300)(pull(_l, _d))


CHECKS = {'none': 0, 'fast': 1, 'full': 2}


def handshake(kind):
    def f(t):
        c = Client(t)
        s, E = c.s, t.E
        j = s.sym(RJ, 'journal')
        lc, sc = bv(s.get(j, RJ, 'checkpoint_position'), 64), bv(s.get(c.c, SC, 'server_checkpoint'), 64)

        def hasher(full):
            def h(E, s, a, ins):
                E.prove(s, z3.BoolVal(full == (kind == 'full')), 'pre', 'kind of hash')
                E.prove(s, z3.BoolVal(a[1].same(j) if hasattr(a[1], 'same') else False), 'pre', 'hash of the client journal')
                E.write_bytes(s, a[0], Lin(32), Base('hash', 8) if not hasattr(c, 'hash') else c.hash, Lin(0), 'hash')
                x = s.fork()
                s.ghost['hashed'] = bv(a[2], 64)
                return en.Outs([('exc', x, files.EXC), ('ret', s, None)])
            return h
        c.hash = Base('hash', 8)
        E.contracts += [(r'^joedb::Journal_Hasher::get_fast_hash\(', hasher(False), 'Journal_Hasher::get_fast_hash (C12)'),
                        (r'^joedb::Journal_Hasher::get_full_hash\(', hasher(True), 'Journal_Hasher::get_full_hash (C12)'),
                        (r'^joedb::Connection::content_mismatch\(', lambda E, s, a, ins: en.Outs([('exc', s, files.EXC)]), 'content_mismatch throws')]
        outs = t.call(s, r'^joedb::Server_Connection::handshake\(', [c.c, j, z3.BitVecVal(CHECKS[kind], 32)])
        c.free(outs)
        m = z3.If(sc < lc, sc, lc)
        for o in outs:
            if not o.ret:
                continue
            t.prove(o.s, bv(o.v, 64) == sc, 'returns the checkpoint of the server')
            t.prove(o.s, bv(o.s.get(c.c, SC, 'server_checkpoint'), 64) == sc, 'the checkpoint of the server is unchanged')
            t.prove(o.s, bv(o.s.get(j, RJ, 'checkpoint_position'), 64) == lc, 'the journal is unchanged')
            if kind == 'none':
                t.prove(o.s, z3.And(o.s.ghost['opos'] == 0, o.s.ghost['ipos'] == 0), 'nothing is exchanged without a content check')
                continue
            code = 'H' if kind == 'fast' else 'I'
            t.prove(o.s, o.s.ghost['hashed'] == m if 'hashed' in o.s.ghost else z3.BoolVal(False), 'the hash covers the common checkpointed length')
            for k in range(9):
                t.prove(o.s, bv(o.s.ghost['out'].sel(Lin(k)), 8) == (ord(code) if k == 0 else z3.Extract(8 * k - 1, 8 * k - 8, m)), 'handshake request')
            for k in range(32):
                t.prove(o.s, lib.byte_eq(o.s.ghost['out'], Lin(9 + k), c.hash, Lin(k)), 'the hash is sent')
            t.prove(o.s, z3.And(o.s.ghost['opos'] == 41, o.s.ghost['ipos'] == 1), 'exactly one request and its reply')
            t.prove(o.s, c.value(0, 8) == ord(code), 'only a matching hash is accepted')
    f.__name__ = 'handshake_' + kind
    f.__doc__ = 'handshake(%s): sends the hash over the common length, accepts only the echo of the request' % kind
    f.__module__ = __name__
    return f


for _k in CHECKS:
    task('C18 C19', SRC)(handshake(_k))


AR = 'joedb::Async_Reader'


def reader_read(c):
    """Async_Reader::read as proved for C13 (s_copy.async_read)"""
    def h(E, s, a, ins):
        r, buf, cap = a[0], a[1], bv(a[2], 64)
        cur, end = bv(s.get(r, AR, 'current'), 64), bv(s.get(r, AR, 'end'), 64)
        E.prove(s, z3.And(cur <= end, cap >= 0), 'pre', 'Async_Reader::read: capacity')
        want = z3.If(cap < end - cur, cap, end - cur)
        x = s.fork()
        E.write_bytes(x, buf, lin(want), Base('junk', 8), Lin(0), 'reader buffer')
        n = fresh('read', 64)
        s.assume(z3.ULE(n, want))
        E.write_bytes(s, buf, lin(want), Copy(Base('junk', 8), Lin(0), lin(n), files.gf(s, c.file, 'arr'), lin(cur)), Lin(0), 'reader buffer')
        s.put(r, AR, 'current', cur + n)
        eof = z3.If(want == 0, bv(s.get(r, AR, 'end_of_file'), 8), z3.If(n == want, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))
        s.put(r, AR, 'end_of_file', z3.simplify(eof))
        return en.Outs([('exc', x, files.EXC), ('ret', s, n)])
    return h


def push_cands(c, frm, n):
    def gen(E, lp):
        if 'opos' not in lp.s0.ghost:
            return []
        out = []
        off = E.M.field(SC, 'buffer')[0]
        ks = [k for k, w in lp.scal if w == 64]
        for a in ks:
            out.append(en.Cand('header pending', lambda g, a=a: z3.Or(bv(g.cur(a), 64) == 0, z3.And(bv(g.cur(a), 64) == 17, g.s.ghost['opos'] == 0)), True))
            out.append(en.Cand('inside of the range', lambda g, a=a: z3.ULE(bv(g.cur(a), 64) - frm, n), True))
            for b in ks:
                if a is not b:
                    out.append(en.Cand('what is sent', lambda g, a=a, b=b: g.s.ghost['opos'] + bv(g.cur(a), 64) == 17 + (bv(g.cur(b), 64) - frm), True))
        out.append(en.Cand('nothing received', lambda g: g.s.ghost['ipos'] == 0, True))

        def hdr(g):
            b, bi = E.read_byte_array(g.s, c.c.add(Lin(off)), Lin(17))
            h, hi = E.read_byte_array(g.s0, c.c.add(Lin(off)), Lin(17))
            return [b], lambda i: z3.Implies(z3.And(z3.ULT(i.sub(bi).bv(), 17), g.s.ghost['opos'] == 0), lib.byte_eq(b, i, h, hi.add(i.sub(bi))))
        out.append(en.QCand('header kept', hdr, True))

        def sent(g):
            o = g.s.ghost['out']
            h, hi = E.read_byte_array(g.s0, c.c.add(Lin(off)), Lin(17))
            return [o], lambda i: z3.Implies(z3.ULT(i.bv(), g.s.ghost['opos']),
                                             bv(o.sel(i), 8) == bv(ite(lin_ult(i, lin(17)), h.sel(hi.add(i)), files.gf(g.s, c.file, 'arr').sel(lin(frm).add(i).sub(lin(17))), 8), 8))
        out.append(en.QCand('sent so far', sent, True))
        return out
    return gen


def push(unlock):
    def f(t):
        c = Client(t)
        s, E = c.s, t.E
        j = s.sym(RJ, 'journal')
        c.file = files.new_file(E, s, 'file')
        s.put(j, RJ, 'file', c.file)
        frm, until = t.var('from'), t.var('until')
        s.assume(z3.And(frm >= 41, frm <= until, until < BIG))
        n = until - frm
        sc0 = bv(s.get(c.c, SC, 'server_checkpoint'), 64)
        f0 = files.gf(s, c.file, 'arr')
        E.contracts.append((r'^joedb::Async_Reader::read\(', reader_read(c), 'Async_Reader::read (C13)'))
        E.loop_cands.append(push_cands(c, frm, n))
        code = 'NO'[int(unlock)]
        outs = t.call(s, r'^joedb::Server_Connection::push\(', [c.c, j, frm, until, z3.BitVecVal(int(unlock), 32)])
        c.free(outs)
        for o in outs:
            sc1 = bv(o.s.get(c.c, SC, 'server_checkpoint'), 64)
            t.prove(o.s, bool(files.gf(o.s, c.file, 'arr') is f0), 'the journal is not written')
            if not o.ret:
                t.prove(o.s, sc1 == sc0, 'a push that fails does not move the checkpoint of the server')
                continue
            for k in range(17):
                v = ord(code) if k == 0 else z3.Extract(8 * ((k - 1) % 8) + 7, 8 * ((k - 1) % 8), frm if k < 9 else until)
                t.prove(o.s, bv(o.s.ghost['out'].sel(Lin(k)), 8) == v, 'push request')
            t.prove(o.s, o.s.ghost['opos'] == 17 + n, 'exactly the announced size')
            t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), n), lib.byte_eq(o.s.ghost['out'], i.add(17), f0, lin(frm).add(i))), 'exactly the bytes of the range')
            t.prove(o.s, z3.And(o.s.ghost['ipos'] == 1, c.value(0, 8) == ord(code)), 'only the echo of the request is accepted')
            t.prove(o.s, z3.And(bv(o.v, 64) == until, sc1 == until), 'the new checkpoint of the server')
    f.__name__ = 'push' + ('_unlock' if unlock else '')
    f.__doc__ = 'push: header, exactly the bytes of the range, success only on the echo of the request'
    f.__module__ = __name__
    return f


for _u in (False, True):
    task('C18 C19', JSRC, budget=300)(push(_u))


KA, PC = 'joedb::Keep_Alive_Thread', 'joedb::Ping_Client'


@task('C19', SRC)
def construct(t):
    """the keep-alive thread is started only once the greeting has been exchanged, and only when asked for"""
    c = Client(t)
    s, E = c.s, t.E
    s.ghost['greeted'], s.ghost['started'] = False, 0
    interval = t.var('interval')

    def connect(E, s, a, ins):
        x = s.fork()
        s.ghost['greeted'] = True
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def start(E, s, a, ins):
        E.prove(s, z3.BoolVal(s.ghost['greeted']), 'pre', 'the keep-alive thread starts after the greeting')
        E.prove(s, interval > 0, 'pre', 'the keep-alive thread is started only when asked for')
        s.ghost['started'] += 1
        return None
    E.contracts += [(r'^joedb::Server_Client::connect\(', connect, 'Server_Client::connect'),
                    (r'^std::thread::thread<', start, 'std::thread::thread (starts keep_alive)'),
                    (r'^std::condition_variable::', lambda E, s, a, ins: None, 'std::condition_variable')]
    this = s.sym(SC, 'this')
    for o in t.call(s, r'^joedb::Server_Client::Server_Client\(', [this, c.chan, c.logger, interval]):
        if o.ret:
            t.prove(o.s, z3.BoolVal(o.s.ghost['greeted']), 'connected')
            t.prove(o.s, (interval > 0) == z3.BoolVal(o.s.ghost['started'] == 1), 'one keep-alive thread when asked for')


@task('C19', SRC)
def disconnect(t):
    """the quit message is the last one: the keep-alive thread has ended before"""
    c = Client(t)
    s, E = c.s, t.E
    engaged = bv(s.get(c.c, SC, 'keep_alive._M_payload._M_engaged'), 8) != 0
    s.ghost['thread'] = True
    put = c.put

    def quit(E, s, d, n):
        E.prove(s, z3.Or(z3.Not(engaged), z3.BoolVal(not s.ghost['thread'])), 'pre', 'the keep-alive thread has ended before the quit message')
        put(E, s, d, n)
    c.put = quit

    def reset(E, s, a, ins):
        E.prove(s, z3.BoolVal(not s.ghost['held']), 'pre', 'the keep-alive thread can take the lock while it is stopped')
        s.ghost['thread'] = False
        return None
    E.contracts += [(r'^joedb::Keep_Alive_Thread::(~Keep_Alive_Thread|stop)\(', reset, 'Keep_Alive_Thread::stop (ends the thread)')]
    outs = t.call(s, r'^joedb::Server_Client::disconnect\(', [c.c])
    c.free(outs)
    for o in outs:
        if o.ret:
            c.sent(o, ['Q'], 'disconnect')
            t.prove(o.s, o.s.ghost['ipos'] == 0, 'no reply is awaited')


@task('C19', SRC)
def keep_alive(t):
    """the keep-alive thread pings only while it holds the lock, and gives it back"""
    c = Client(t)
    s, E = c.s, t.E
    k = s.sym(KA, 'thread')
    s.put(k, KA, 'client', c.c.add(Lin([b['off'] for b in E.M.types[SC]['bases'] if b['type'] == PC][0])))

    def wait(E, s, a, ins):
        E.prove(s, z3.BoolVal(s.ghost['held']), 'pre', 'waiting releases a lock that is held')
        c.others(E, s)
        s.put(k, KA, 'thread_must_stop', fresh('stop', 8) & 1)
        return fresh('status', 32)

    def ping(E, s, a, ins):
        E.prove(s, z3.BoolVal(s.ghost['held']), 'pre', 'a ping is sent with the channel locked')
        E.prove(s, bv(s.get(k, KA, 'thread_must_stop'), 8) == 0, 'pre', 'no ping once the thread must stop')
        return en.Outs([('exc', s.fork(), files.EXC), ('ret', s, None)])
    E.contracts += [(r'condition_variable::wait_for<', wait, 'std::condition_variable::wait_for'),
                    (r'^joedb::Server_Client::locked_ping\(', ping, 'Server_Client::locked_ping')]
    outs = t.call(s, r'^joedb::Keep_Alive_Thread::keep_alive\(', [k])
    c.free(outs)
    for o in outs:
        t.prove(o.s, z3.BoolVal(o.ret), 'no exception leaves the thread')
