"""C26: the generic server (asio/Server.cpp, co_await and co_return erased): the buffer of a session,
and what happens when a session ends."""
import z3
import build
import engine as en
import files
from terms import *
from task import task

AS, ASS = 'joedb::asio::Server', 'joedb::asio::Server::Session'
BUF = 1 << 13
SRC = ['joedb/asio/Server.cpp']
FL = ['-I' + build.VERIF + '/drivers/asio', '-Dco_await=', '-Dco_return=return']
I64 = lambda x: z3.BitVecVal(x, 64)


class Sess:
    def __init__(self, t):
        self.t, E = t, t.E
        s = self.s = t.state()
        self.srv, self.me = s.sym(AS, 'server'), s.sym(ASS, 'session')
        s.put(self.me, ASS, 'server', self.srv)
        self.sock = self.me.add(Lin(E.M.field(ASS, 'socket')[0]))
        self.buf = self.me.add(Lin(E.M.field(ASS, 'buffer')[0]))
        s.ghost['calls'] = I64(0)
        E.contracts += [
            (r'^boost::asio::async_read\(', self.read, 'asio::async_read'),
            (r'^boost::asio::async_write\(', self.write, 'asio::async_write'),
            (r'std::operator\+<char|^std::__cxx11::to_string\(|^std::__cxx11::basic_string<char.*>::(~?basic_string|append|operator\+=)', lambda E, s, a, ins: a[0] if 'ty' in ins else None, 'std::string (contents abstract: messages only)'),
            (r'^joedb::asio::Server(::Session)?::log\(', lambda E, s, a, ins: None, 'Session::log'),
            (r'^std::__exception_ptr::exception_ptr::(_M_addref|_M_release)\(', lambda E, s, a, ins: None, 'std::exception_ptr'),
            (r'^std::rethrow_exception\(', lambda E, s, a, ins: en.Outs([('exc', s.fork(), files.EXC), ('exc', s, '_ZTIi')]), 'std::rethrow_exception'),
        ]
        E.iface['joedb::Logger'] = {'log': lambda E, s, a, ins: None}

    def index(self, s):
        return bv(s.load(self.buf.add(Lin(BUF + 8)), 8), 64)

    def mine(self, E, s, p):
        E.prove(s, z3.BoolVal(p.obj == self.sock.obj and lin(p.off).const() == lin(self.sock.off).const()), 'pre', 'the socket of the session')

    def read(self, E, s, a, ins):
        self.mine(E, s, a[0])
        p, n = a[1], bv(a[2], 64)
        x = s.fork()
        for y in (x, s):
            src = Base(fresh_name('received'), 8)
            E.write_bytes(y, p, lin(n), src, Lin(0), 'buffer')
            y.ghost['src'] = src
        s.ghost['where'] = z3.simplify(lin(p.off).sub(self.buf.off).bv())
        s.ghost['n'] = n
        s.ghost['calls'] = z3.simplify(s.ghost['calls'] + 1)
        return en.Outs([('exc', x, files.EXC), ('ret', s, n)])

    def write(self, E, s, a, ins):
        self.mine(E, s, a[0])
        p, n = a[1], bv(a[2], 64)
        E.prove(s, z3.BoolVal(p.obj == self.buf.obj), 'pre', 'the buffer of the session')
        E.prove(s, z3.And(lin(p.off).sub(self.buf.off).bv() == 0, n == self.index(s)), 'pre', 'exactly what was put in the buffer is sent')
        x = s.fork()
        s.ghost['calls'] = z3.simplify(s.ghost['calls'] + 1)
        return en.Outs([('exc', x, files.EXC), ('ret', s, n)])


@task('C26', SRC, FL)
def read_buffer(t):
    """read_buffer(offset, size): exactly size bytes are received at the offset, which is where they will be decoded from"""
    m = Sess(t)
    s, E = m.s, t.E
    off, n = t.var('offset'), t.var('size')
    s.assume(z3.And(z3.ULE(off, BUF), z3.ULE(n, BUF - off)))
    for o in t.call(s, r'^joedb::asio::Server::Session::read_buffer\(', [m.me, off, n]):
        if o.ret:
            t.prove(o.s, z3.And(o.s.ghost['calls'] == 1, o.s.ghost['where'] == off, o.s.ghost['n'] == n), 'exactly the asked bytes are read')
            t.prove(o.s, m.index(o.s) == off, 'decoding starts with them')
            t.prove(o.s, bv(o.v, 64) == n, 'the size is returned')


@task('C26', SRC, FL)
def write_buffer(t):
    """write_buffer: exactly what was put in the buffer is sent, once"""
    m = Sess(t)
    s = m.s
    i = m.index(s)
    s.assume(z3.ULE(i, BUF))
    for o in t.call(s, r'^joedb::asio::Server::Session::write_buffer\(', [m.me]):
        if o.ret:
            t.prove(o.s, o.s.ghost['calls'] == 1, 'sent once')


@task('C26', SRC, FL)
def session_end(t):
    """when a session ends, with or without an exception, cleanup is called once, while it still exists, before it is destroyed"""
    m = Sess(t)
    E, s = t.E, m.s
    g = s.ghost
    for f in ('accepted', 'cleaned', 'deleted', 'spawned'):
        g[f] = I64(0)

    def count(f, check=None):
        def h(E, s, a, ins):
            if check:
                check(E, s, a)
            s.ghost[f] = z3.simplify(s.ghost[f] + 1)
        return h

    def alive(E, s, a):
        E.prove(s, z3.BoolVal(a[0].obj == m.me.obj), 'pre', 'the session that ends')
        E.prove(s, s.ghost['deleted'] == 0, 'pre', 'a session is not used after it is destroyed')

    def cleaned(E, s, a):
        alive(E, s, a)
        E.prove(s, z3.Or(s.ghost['cleaned'] == 1, s.ghost['spawned'] == 0), 'pre', 'a session is cleaned up before it is destroyed')
    E.iface[ASS] = {'run': lambda E, s, a, ins: None, 'cleanup': count('cleaned', alive), '~dtor': count('deleted', cleaned)}
    E.iface[AS] = {'new_session': lambda E, s, a, ins: (s.store(a[0], 8, m.me), None)[1]}
    E.contracts[:0] = [(r'^std::default_delete<joedb::asio::Server::Session>::operator\(\)', lambda E, s, a, ins: count('deleted', cleaned)(E, s, [a[1]], ins), 'delete'),
                       (r'^boost::asio::local::stream_protocol::socket::~', accept, 'asio socket'),
                       (r'async_accept\(', accept, 'asio::async_accept')]

    class Done(Exception):
        pass
    found = []

    def completion(E, s, a, ins):
        n = lin(a[1])
        o = s.new_obj('completion handler', n)
        E.copy_bytes(s, Ptr(o.id, 0), a[0], n)
        # the session belongs to the handler now
        for k in range(0, n.const(), 8):
            v = s.load(a[0].add(Lin(k)), 8, 'ptr')
            if isinstance(v, Ptr) and v.obj == m.me.obj:
                s.store(a[0].add(Lin(k)), 8, NULL)
                found.append(k)
        x = s.fork()
        x.ghost['spawned'] = I64(1)
        for e in (False, True):
            y = x.fork()
            ep = y.new_obj('exception_ptr', Lin(8))
            y.store(Ptr(ep.id, 0), 8, Ptr(y.new_obj('exception', Lin(16)).id, 0) if e else NULL)
            for q in t.call(y, a[2].name, [Ptr(o.id, 0), Ptr(ep.id, 0)]):
                t.prove(q.s, z3.BoolVal(q.ret), 'the end of a session does not throw')
                t.prove(q.s, q.s.ghost['cleaned'] == 1, 'cleanup is called once')
        s.ghost['spawned'] = I64(1)
        # one session is enough
        return en.Outs([])
    E.contracts.insert(0, (r'^boost::asio::set_completion\(', completion, 'asio::co_spawn'))
    t.call(s, r'^joedb::asio::Server::listener\(\)$', [m.srv], cover=False)
    t.prove(s, z3.BoolVal(len(found) > 0), 'the session is given to the handler')


def accept(E, s, a, ins):
    return None
