"""C26: the journal server. Server.cpp is translated unchanged, with co_await and co_return erased
(drivers/asio): a suspension is a call of write_buffer, read_buffer or async_wait, whose contract lets
the other sessions do anything that keeps the invariant below (rely), which is proved at every
suspension and at every exit (guarantee).
Ghost state of the server seen from one session: other, another session has the lock; handoff, the
first waiting session has been woken; n, the length of the queue; pt, the place of this session in it
(-1: none); pp, whether it is in the list of sessions that a push wakes."""
import z3
import build
import engine as en
import files
from header import RJ, WJ
from terms import *
from task import task

BIG = 1 << 60
S, SS, AS, ASS = 'joedb::Server', 'joedb::Server::Session', 'joedb::asio::Server', 'joedb::asio::Server::Session'
WJC, JD, CL, LK = 'joedb::Writable_Journal_Client', 'joedb::detail::Writable_Journal_Client_Data', 'joedb::Client', 'joedb::Client_Lock'
BUF = 1 << 13
SRC = ['joedb/concurrency/Server.cpp', 'joedb/journal/Writable_Journal.cpp', 'joedb/journal/Readonly_Journal.cpp', 'joedb/journal/Async_Reader.cpp']
FL = ['-I' + build.VERIF + '/drivers/asio', '-Dco_await=', '-Dco_return=return']
DQ = r'std::deque<joedb::Server::Session\*.*>::'
I64 = lambda x: z3.BitVecVal(x, 64)


def b2(c):
    return z3.If(c, I64(1), I64(0))


def neg1(x):
    return x == I64(-1)


class Model:
    def __init__(self, t, writable=True, locking=None, refresh=True):
        self.t, E = t, t.E
        self.E = E
        files.install(E)
        s = self.s = t.state()
        g = s.ghost
        self.writable = writable
        self.srv = s.sym(S, 'server')
        self.me = s.sym(SS, 'session')
        self.front, self.pw = s.sym(SS, 'first waiting session'), s.sym(SS, 'session waiting for data')
        s.put(self.me, ASS, 'server', self.srv)
        self.shared = z3.Bool('shared')
        self.pullonly = z3.Bool('pullonly')
        self.file = s.sym('joedb::Abstract_File', 'file')
        if writable:
            self.jc = s.sym(WJC, 'client')
            self.j = self.jc.add(Lin(self.base(WJC, JD) + E.M.field(JD, 'data_journal')[0]))
            self.wclient = self.jc.add(Lin(self.base(WJC, 'joedb::Writable_Client')))
            self.client = self.wclient
            self.rj = self.j.add(Lin(E.M.field(WJ, 'checkpoint_position')[0] - E.M.field(RJ, 'checkpoint_position')[0]))
            s.put(self.srv, S, 'writable_journal_client', self.jc)
        else:
            self.client = s.sym(CL, 'client')
            self.rj = s.sym(RJ, 'journal')
            s.put(self.srv, S, 'writable_journal_client', NULL)
        s.put(self.srv, S, 'client', self.client)
        s.put(self.client, CL, 'journal', self.rj)
        s.put(self.rj, RJ, 'file', self.file)
        self.cp0 = self.cp(s)
        s.assume(z3.And(self.cp0 >= 41, self.cp0 < BIG))
        self.lt = bv(s.get(self.srv, S, 'lock_timeout.__r'), 64)
        s.assume(z3.And(self.lt >= 0, self.lt < 1 << 40))
        for f, v in (('other', None), ('handoff', None), ('n', None), ('pt', I64(-1)), ('pp', I64(0)), ('rx', I64(0)), ('wr', I64(0)), ('rxc', I64(0)), ('lost', I64(0)), ('pushed', I64(0)), ('expires', I64(0)), ('ncp', I64(0)), ('replies', I64(0))):
            g[f] = t.var(f) if v is None else v
        for f in ('other', 'handoff'):
            s.assume(z3.ULE(g[f], 1))
        s.assume(z3.And(g['n'] >= 0, g['n'] < 1 << 40))
        for o, c, f in ((self.srv, S, 'locked'), (self.me, SS, 'locking'), (self.srv, S, self.OPT)):
            v = t.var(f.split('.')[-1].strip('_'), 8)
            s.assume(z3.ULE(v, 1))
            s.put(o, c, f, v)
        if locking is not None:
            s.put(self.me, SS, 'locking', z3.BitVecVal(int(locking), 8))
        # the counter that the timeout handlers share with the session
        try:
            self.count = Ptr(s.new_obj('timeout counter', Lin(8)).id, 0)
            s.store(self.count, 8, t.var('count'))
            s.put(self.me, SS, 'lock_timeout_id._M_ptr', self.count)
        except (KeyError, en.Unsupported):
            self.count = None
        self.lockobj(s)
        E.iface['joedb::Logger'] = {'log': lambda E, s, a, ins: None}
        E.iface[CL] = {'pull': self.client_pull}
        E.iface['joedb::Abstract_File']['pwrite'] = self.pwrite
        self.owner_needed = True
        E.contracts += [
            (r'^joedb::asio::Server::Session::read_buffer\(', self.read_buffer, 'read_buffer (suspends)'),
            (r'^joedb::asio::Server::Session::write_buffer\(', self.write_buffer, 'write_buffer (suspends)'),
            (r'^boost::asio::steady_timer::async_wait\(boost::asio::redirect_t\)', self.wait, 'steady_timer::async_wait (suspends)'),
            (r'^boost::asio::steady_timer::expires_after\(', self.expires, 'steady_timer::expires_after'),
            (r'^boost::asio::steady_timer::cancel\(', self.cancel, 'steady_timer::cancel'),
            (r'^joedb::Client::is_shared\(', lambda E, s, a, ins: self.shared, 'Client::is_shared'),
            (r'^joedb::Client::is_pullonly\(', lambda E, s, a, ins: self.pullonly, 'Client::is_pullonly'),
            (r'^joedb::Server::Session::send\(', self.send, 'Server::Session::send (suspends)'),
            (r'std::operator\+<char|^std::__cxx11::to_string\(|^std::__cxx11::basic_string<char.*>::(~?basic_string|append|operator\+=)', lambda E, s, a, ins: a[0] if 'ty' in ins else None, 'std::string (contents abstract: messages only)'),
            (r'^joedb::asio::Server::Session::log\(', lambda E, s, a, ins: None, 'Session::log'),
            (r'^joedb::Progress_Bar::(~?Progress_Bar|print)', lambda E, s, a, ins: None, 'Progress_Bar'),
            (r'^joedb::Writable_Journal_Client_Lock::Writable_Journal_Client_Lock\(', self.cl_new, 'Client_Lock (C20)'),
            (r'^joedb::(Writable_Journal_)?Client_Lock::~', self.cl_del, 'Client_Lock (C20)'),
            (r'^joedb::Client_Lock::unlock\(', self.cl_unlock, 'Client_Lock::unlock (C20)'),
            (r'^joedb::Client_Lock::checkpoint_and_push\(', self.cl_push, 'Client_Lock::checkpoint_and_push (C20)'),
            (r'^joedb::Client_Lock::checkpoint_and_push_unlock\(', self.cl_push_unlock, 'Client_Lock::checkpoint_and_push_unlock (C20)'),
            (r'^joedb::Writable_Journal::soft_checkpoint_at\(', self.checkpoint_at, 'soft_checkpoint_at (C05)'),
            (r'^' + DQ + r'empty\(', self.q_empty, 'std::deque'),
            (r'^' + DQ + r'size\(', lambda E, s, a, ins: s.ghost['n'] if self.which(a[0]) == 'lock' else NotImplemented, 'std::deque'),
            (r'^' + DQ + r'front\(', self.q_front, 'std::deque'),
            (r'^' + DQ + r'pop_front\(', self.q_pop, 'std::deque'),
            (DQ + r'(emplace_back|push_back)\b', self.q_push, 'std::deque'),
            (r'^' + DQ + r'clear\(', self.q_clear, 'std::deque'),
            (r'^' + DQ + r'(c?begin|c?end)\(', None, 'std::deque'),
            (r'^std::_Deque_iterator<joedb::Server::Session\*', None, 'std::deque'),
        ]
        E.contracts[:] = [c for c in E.contracts if c[1] is not None]
        for nm in ('begin', 'end'):
            E.contracts.append((r'^' + DQ + nm + r'\(', self.q_iter(nm), 'std::deque iterators'))
        E.contracts += [
            (r'^std::_Deque_iterator<joedb::Server::Session\*.*>::operator\*\(', self.it_deref, 'std::deque iterators'),
            (r'^std::_Deque_iterator<joedb::Server::Session\*.*>::operator\+\+\(', self.it_next, 'std::deque iterators'),
            (r'operator==\(std::_Deque_iterator<joedb::Server::Session\*', lambda E, s, a, ins: self.it_compare(E, s, a, True), 'std::deque iterators'),
            (r'operator!=\(std::_Deque_iterator<joedb::Server::Session\*', lambda E, s, a, ins: self.it_compare(E, s, a, False), 'std::deque iterators'),
            (r' std::(find|remove)<std::_Deque_iterator<joedb::Server::Session\*', self.it_find, 'std::find'),
            (DQ + r'erase\(', self.q_erase, 'std::deque'),
        ]
        if refresh:
            E.contracts.append((r'^joedb::Server::Session::refresh_lock_timeout\(', lambda E, s, a, ins: None, 'refresh_lock_timeout (timeout_handler)'))
        s.assume(self.inv(s))

    OPT = 'client_lock._M_payload._M_engaged'
    PW = 'push_writer._M_payload._M_engaged'

    def base(self, c, b):
        for x in self.E.M.types[c]['bases']:
            if x['type'] == b:
                return x.get('off', x.get('offset', 0))
        raise en.Unsupported('base ' + b)

    def lockobj(self, s):
        """what an engaged client_lock refers to"""
        if self.writable:
            off = self.E.M.field(S, 'client_lock')[0]
            s.put(self.srv.add(Lin(off)), LK, 'client', self.wclient)

    # --- the state
    def cp(self, s):
        return bv(s.get(self.rj, RJ, 'checkpoint_position'), 64)

    def f(self, s, o, c, n):
        return bv(s.get(o, c, n), 8) != 0

    def L(self, s):
        return self.f(s, self.me, SS, 'locking')

    def locked(self, s):
        return self.f(s, self.srv, S, 'locked')

    def engaged(self, s):
        return self.f(s, self.srv, S, self.OPT)

    def writing(self, s):
        return self.f(s, self.me, SS, self.PW)

    def inv(self, s, failed_lock=False, pt=True):
        g = s.ghost
        L, other, locked, hand, eng = self.L(s), g['other'] == 1, self.locked(s), g['handoff'] == 1, self.engaged(s)
        n, p = g['n'], g['pt']
        c = [z3.Not(z3.And(L, other)),
             z3.Implies(z3.Or(L, other), z3.And(locked, z3.Not(hand))),
             z3.Implies(z3.And(locked, z3.Not(L), z3.Not(other)), hand),
             z3.Implies(hand, z3.And(n > 0, locked)),
             z3.Implies(z3.Not(locked), n == 0), z3.Implies(L, neg1(p)),
             n >= 0, n < 1 << 41, z3.Or(neg1(p), z3.And(p >= 0, p < n)), z3.ULE(g['pp'], 1),
             z3.Implies(z3.Not(self.shared), eng == z3.BoolVal(self.writable)),
             z3.Implies(z3.And(self.shared, z3.Not(locked)), z3.Not(eng))]
        if not self.writable:
            c.append(z3.Not(eng))
        elif not failed_lock:
            c.append(z3.Implies(L, eng))
        return z3.And(*c)

    def guarantee(self, E, s, what, **k):
        E.prove(s, self.inv(s, **k), 'inv', what + ': at most one session has the lock, a free lock has no waiting session, the next one is woken')

    def request(self, s, i):
        """a field of the request being served"""
        return z3.Concat(*[bv(s.ghost['rq'].sel(Lin(i + k)), 8) for k in reversed(range(8))])

    def rely(self, E, s, keep):
        """the other sessions run. keep: this session has the lock all the time"""
        g = s.ghost
        n0, p0, q0 = g['n'], g['pt'], g['pp']
        g['n'] = fresh('n', 64)
        if keep:
            s.assume(g['n'] >= n0)
        else:
            for f in ('other', 'handoff'):
                g[f] = fresh(f, 64)
                s.assume(z3.ULE(g[f], 1))
            for o, c, f in ((self.srv, S, 'locked'), (self.srv, S, self.OPT)):
                v = fresh('flag', 8)
                s.assume(z3.ULE(v, 1))
                s.put(o, c, f, v)
            self.lockobj(s)
            c = fresh('checkpoint', 64)
            s.assume(z3.And(c >= self.cp(s), c < BIG))
            s.put(self.rj, RJ, 'checkpoint_position', c)
        # nobody else adds or removes this session, except that a push takes it out of pull_waiters
        g['pt'] = p0
        pp = fresh('pp', 64)
        s.assume(z3.ULE(pp, q0))
        g['pp'] = pp
        s.assume(self.inv(s))
        return s

    def timeout(self, E, s):
        """the timeout handler of this session, which had the lock (proved by timeout_handler)"""
        g = s.ghost
        g['lost'] = I64(1)
        w = self.writing(s)
        st = bv(s.get(self.me, SS, 'push_status'), 8)
        s.put(self.me, SS, 'push_status', z3.If(w, z3.BitVecVal(ord('t'), 8), st))
        s.put(self.me, SS, self.PW, z3.BitVecVal(0, 8))
        s.put(self.me, SS, 'locking', z3.BitVecVal(0, 8))
        return self.rely(E, s, False)

    def suspend(self, E, s, what):
        """states in which this session may go on"""
        self.guarantee(E, s, what)
        L = self.L(s)
        out = []
        for c, fs in ((L, (lambda x: self.rely(E, x, True), lambda x: self.timeout(E, x))), (z3.Not(L), (lambda x: self.rely(E, x, False),))):
            for f in fs:
                x = s.fork()
                x.assume(c)
                if f is fs[-1] and len(fs) > 1:
                    x.assume(self.lt > 0)
                if E.feasible(x, z3.BoolVal(True)):
                    x = f(x)
                    x.havoc = True
                    out.append(x)
        return out

    # --- suspending calls
    def read_buffer(self, E, s, a, ins):
        off, n = bv(a[1], 64), bv(a[2], 64)
        E.prove(s, z3.And(z3.ULE(off, BUF), z3.ULE(n, BUF - off)), 'pre', 'read_buffer: inside the buffer')
        out = []
        for x in self.suspend(E, s, 'read_buffer'):
            y = x.fork()
            out.append(('exc', y, files.EXC))
            o = E.M.field(ASS, 'buffer')[0]
            src = Base(fresh_name('received'), 8)
            E.write_bytes(x, self.me.add(Lin(o)).add(lin(off)), lin(n), src, Lin(0), 'buffer')
            x.store(self.me.add(Lin(o + BUF + self.extra)), 8, off)
            if 'rq' in x.ghost:
                x.ghost['rxc'] = z3.simplify(x.ghost['rxc'] + n)
            else:
                x.ghost['rq'] = src
            x.ghost['rxsrc'] = src
            x.ghost['rxn'] = n
            out.append(('ret', x, n))
        return en.Outs(out)

    extra = 8

    def write_buffer(self, E, s, a, ins):
        off, size, ty = E.M.field(ASS, 'buffer')
        idx = bv(s.load(self.me.add(Lin(off + BUF + self.extra)), 8), 64)
        E.prove(s, z3.ULE(idx, BUF + 8), 'pre', 'write_buffer: inside the buffer')
        self.reply(E, s, z3.simplify(bv(s.load(self.me.add(Lin(off)), 1), 8)), idx)
        out = []
        for x in self.suspend(E, s, 'write_buffer'):
            out.append(('exc', x.fork(), files.EXC))
            out.append(('ret', x, None))
        return en.Outs(out)

    def reply(self, E, s, code, idx):
        s.ghost['code'] = code
        s.ghost['replies'] = z3.simplify(s.ghost['replies'] + 1)

    def send(self, E, s, a, ins):
        out = []
        for x in self.suspend(E, s, 'send'):
            out.append(('exc', x.fork(), files.EXC))
            out.append(('ret', x, None))
        return en.Outs(out)

    def is_timer(self, p, f, o=None):
        o = o or self.me
        return p.obj == o.obj and lin_const(p.off) == lin_const(o.add(Lin(self.E.M.field(SS, f)[0])).off)

    def expires(self, E, s, a, ins):
        if self.is_timer(a[0], 'timer'):
            s.ghost['expires'] = bv(a[1], 64)
        elif not self.is_timer(a[0], 'lock_timeout_timer'):
            E.prove(s, z3.BoolVal(False), 'pre', 'a session sets its own timers')
        return I64(0)

    def wait(self, E, s, a, ins):
        E.prove(s, z3.BoolVal(self.is_timer(a[0], 'timer')), 'pre', 'a session waits for its own timer')
        g = s.ghost
        out = []
        q = s.fork()
        q.assume(z3.Not(neg1(g['pt'])))
        if E.feasible(q, z3.BoolVal(True)):
            # waiting for the lock: woken by unlock only
            E.prove(q, q.ghost['expires'] == (1 << 63) - 1, 'pre', 'a session that waits for the lock does not wake up by itself')
            E.prove(q, q.ghost['pp'] == 0, 'pre', 'a session that waits for the lock is not woken by a push')
            E.prove(q, z3.Not(self.L(q)), 'pre', 'a session that waits for the lock does not have it')
            self.guarantee(E, q, 'waiting')
            h = q.ghost
            for f in ('other',):
                h[f] = I64(0)
            h['handoff'] = I64(1)
            h['pt'] = I64(0)
            h['n'] = fresh('n', 64)
            q.assume(z3.And(h['n'] >= 1, h['n'] < 1 << 40))
            q.put(self.srv, S, 'locked', z3.BitVecVal(1, 8))
            v = fresh('flag', 8)
            q.assume(z3.ULE(v, 1))
            q.put(self.srv, S, self.OPT, v)
            self.lockobj(q)
            c = fresh('checkpoint', 64)
            q.assume(z3.And(c >= self.cp(q), c < BIG))
            q.put(self.rj, RJ, 'checkpoint_position', c)
            q.assume(self.inv(q))
            q.havoc = True
            out.append(('ret', q, None))
        s.assume(neg1(g['pt']))
        if E.feasible(s, z3.BoolVal(True)):
            out += [('ret', x, None) for x in self.suspend(E, s, 'waiting for data')]
        return en.Outs(out)

    def cancel(self, E, s, a, ins):
        if self.is_timer(a[0], 'timer', self.front):
            g = s.ghost
            E.prove(s, z3.And(z3.Not(self.L(s)), g['other'] == 0, g['handoff'] == 0, self.locked(s)), 'pre', 'the first waiting session is woken when nobody has the lock')
            g['handoff'] = I64(1)
        elif self.is_timer(a[0], 'timer', self.pw) or self.is_timer(a[0], 'lock_timeout_timer'):
            pass
        else:
            E.prove(s, z3.BoolVal(False), 'pre', 'only a session that waits is woken')
        return I64(0)

    def lock_contract(self, E, s, a, ins):
        g = s.ghost
        E.prove(s, z3.And(neg1(g['pt']), g['pp'] == 0), 'pre', 'lock: the session does not wait')
        self.guarantee(E, s, 'lock')
        out = []
        x = s.fork()
        x.assume(self.L(x))
        if E.feasible(x, z3.BoolVal(True)):
            out.append(('exc', x, files.EXC))
        s.assume(z3.Not(self.L(s)))
        if not E.feasible(s, z3.BoolVal(True)):
            return en.Outs(out)
        for kind in ('exc', 'ret') if self.writable else ('ret',):
            y = s.fork()
            h = y.ghost
            n = fresh('n', 64)
            y.assume(z3.And(n >= 0, n < 1 << 40))
            h['n'], h['other'], h['handoff'] = n, I64(0), I64(0)
            y.put(self.srv, S, 'locked', z3.BitVecVal(1, 8))
            y.put(self.me, SS, 'locking', z3.BitVecVal(1, 8))
            v = fresh('flag', 8)
            y.assume(z3.ULE(v, 1))
            y.put(self.srv, S, self.OPT, v)
            self.lockobj(y)
            c = fresh('checkpoint', 64)
            y.assume(z3.And(c >= self.cp(y), c < BIG))
            y.put(self.rj, RJ, 'checkpoint_position', c)
            if not self.writable:
                y.store(self.me.add(Lin(E.M.field(ASS, 'buffer')[0])), 1, z3.BitVecVal(ord('R'), 8))
            y.assume(self.inv(y, failed_lock=kind == 'exc'))
            y.havoc = True
            out.append((kind, y, files.EXC if kind == 'exc' else None))
        return en.Outs(out)

    # --- the queues
    def which(self, p):
        for k, f in (('lock', 'lock_waiters'), ('pull', 'pull_waiters')):
            if p.obj == self.srv.obj and lin_const(p.off) == lin_const(self.srv.add(Lin(self.E.M.field(S, f)[0])).off):
                return k
        raise en.Unsupported('unknown queue '+' %s %s %s %s' % (p, self.srv, lin(p.off), [self.E.M.field(S, x) for x in ('lock_waiters', 'pull_waiters')]))

    def cell(self, s, p):
        o = s.new_obj('element', Lin(8))
        c = Ptr(o.id, 0)
        s.store(c, 8, p)
        return c

    def q_empty(self, E, s, a, ins):
        return s.ghost['n'] == 0 if self.which(a[0]) == 'lock' else fresh('b', 1) == 1

    def q_front(self, E, s, a, ins):
        if self.which(a[0]) != 'lock':
            raise en.Unsupported('front of pull_waiters')
        g = s.ghost
        E.prove(s, g['n'] > 0, 'pre', 'front of a queue that is not empty')
        x = s.fork()
        x.assume(x.ghost['pt'] == 0)
        out = []
        if E.feasible(x, z3.BoolVal(True)):
            out.append(('ret', x, self.cell(x, self.me)))
        s.assume(g['pt'] != 0)
        out.append(('ret', s, self.cell(s, self.front)))
        return en.Outs(out)

    def q_pop(self, E, s, a, ins):
        g = s.ghost
        if self.which(a[0]) != 'lock':
            raise en.Unsupported('pop_front of pull_waiters')
        E.prove(s, g['n'] > 0, 'pre', 'pop_front of a queue that is not empty')
        E.prove(s, g['pt'] == 0, 'pre', 'a session takes only itself out of the queue')
        g['n'], g['pt'], g['handoff'] = z3.simplify(g['n'] - 1), I64(-1), I64(0)
        return None

    def q_push(self, E, s, a, ins):
        g = s.ghost
        p = s.load(a[1], 8, 'ptr')
        E.prove(s, z3.BoolVal(p.obj == self.me.obj), 'pre', 'a session queues itself')
        if self.which(a[0]) == 'lock':
            E.prove(s, neg1(g['pt']), 'pre', 'a session waits once')
            g['pt'], g['n'] = g['n'], z3.simplify(g['n'] + 1)
        else:
            g['pp'] = I64(1)
        return self.cell(s, self.me)

    def q_clear(self, E, s, a, ins):
        if self.which(a[0]) == 'lock':
            E.prove(s, s.ghost['n'] == 0, 'pre', 'no waiting session is forgotten')
            s.ghost['n'] = I64(0)
        else:
            s.ghost['pp'] = I64(0)
        return None

    # iterators: _M_cur is an index in an array of pointers
    def q_iter(self, nm):
        def h(E, s, a, ins):
            k = self.which(a[1])
            n = s.ghost['n'] if k == 'lock' else s.ghost.get('pn')
            if n is None:
                n = s.ghost['pn'] = fresh('pn', 64)
                s.assume(z3.And(n >= 0, n < 1 << 40, z3.Implies(s.ghost['pp'] == 1, n > 0)))
            o = self.qobj(s, k)
            cur = Ptr(o, lin(z3.simplify(n * 8)) if nm == 'end' else 0)
            if nm == 'begin':
                s.ghost['pi'], s.ghost['found'] = I64(0), I64(0)
            for i in range(4):
                s.store(a[0].add(Lin(8 * i)), 8, cur)
            return None
        return h

    def qobj(self, s, k):
        key = 'qobj_' + k
        if key not in s.ghost:
            s.ghost[key] = s.new_obj('elements of the ' + k + ' queue', None).id
        return s.ghost[key]

    def it_deref(self, E, s, a, ins):
        cur = s.load(a[0], 8, 'ptr')
        if cur.obj == s.ghost.get('qobj_pull'):
            E.prove(s, z3.And(s.ghost['pi'] >= 0, s.ghost['pi'] < s.ghost['pn']), 'pre', 'iterator inside the queue')
            return self.cell(s, self.pw)
        raise en.Unsupported('element of lock_waiters')

    def it_compare(self, E, s, a, eq):
        x, y = s.load(a[0], 8, 'ptr'), s.load(a[1], 8, 'ptr')
        if x.obj != y.obj or x.obj is None:
            raise en.Unsupported('iterators of different queues')
        g = s.ghost
        if 'found' not in g or z3.is_true(z3.simplify(g['found'] == 1)):
            c = x.off.bv() == y.off.bv()
        else:
            # an iteration from begin() to end(): the iterator is the ghost index pi
            c = g['pi'] == g['pn']
        return c if eq else z3.Not(c)

    def it_next(self, E, s, a, ins):
        s.ghost['pi'] = z3.simplify(s.ghost['pi'] + 1)
        cur = s.load(a[0], 8, 'ptr')
        s.store(a[0], 8, cur.add(Lin(8)))
        return a[0]

    def it_find(self, E, s, a, ins):
        """std::find(begin, end, this)"""
        res, first, last, val = a[0], a[1], a[2], a[3]
        p = s.load(val, 8, 'ptr')
        E.prove(s, z3.BoolVal(p.obj == self.me.obj), 'pre', 'a session looks for itself')
        cur, end = s.load(first, 8, 'ptr'), s.load(last, 8, 'ptr')
        s.ghost['found'] = I64(1)
        lock = cur.obj == s.ghost.get('qobj_lock')
        out = []
        x = s.fork()
        inn = z3.Not(neg1(x.ghost['pt'])) if lock else x.ghost['pp'] == 1
        for y, c in ((x, inn), (s, z3.Not(inn))):
            y.assume(c)
            if not E.feasible(y, z3.BoolVal(True)):
                continue
            if c is inn:
                i = y.ghost['pt'] if lock else fresh('i', 64)
                if not lock:
                    y.assume(z3.And(i >= 0, i < y.ghost['pn']))
                r = Ptr(cur.obj, lin(z3.simplify(i * 8)))
            else:
                r = end
            for k in range(4):
                y.store(res.add(Lin(8 * k)), 8, r)
            out.append(('ret', y, None))
        return en.Outs(out)

    def q_erase(self, E, s, a, ins):
        g = s.ghost
        cur = s.load(a[2], 8, 'ptr')
        if cur.obj == g.get('qobj_lock'):
            E.prove(s, z3.And(z3.Not(neg1(g['pt'])), cur.off.bv() == g['pt'] * 8), 'pre', 'a session takes only itself out of the queue')
            # a session that was woken hands the lock on before it leaves
            E.prove(s, z3.Not(z3.And(g['pt'] == 0, g['handoff'] == 1)), 'pre', 'the session that is woken does not leave the queue without taking the lock')
            g['n'], g['pt'] = z3.simplify(g['n'] - 1), I64(-1)
        else:
            E.prove(s, g['pp'] == 1, 'pre', 'a session takes only itself out of the queue')
            g['pp'] = I64(0)
            g['pn'] = None
        return None

    # --- the lock of the file
    def cl_new(self, E, s, a, ins):
        E.prove(s, z3.And(self.L(s), s.ghost['other'] == 0), 'pre', 'the journal is locked for the session that has the lock')
        x = s.fork()
        c = fresh('checkpoint', 64)
        s.assume(z3.And(c >= self.cp(s), c < BIG))
        s.put(self.rj, RJ, 'checkpoint_position', c)
        s.put(a[0], LK, 'client', self.wclient)
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def cl_del(self, E, s, a, ins):
        return None

    def held(self, E, s, what):
        E.prove(s, self.engaged(s), 'pre', what + ': the journal is locked')

    def cl_unlock(self, E, s, a, ins):
        self.held(E, s, 'unlock')
        E.prove(s, z3.And(s.ghost['other'] == 0, s.ghost['n'] == 0), 'pre', 'the lock of the journal is given back when no session needs it')
        return None

    def owns(self, E, s, what):
        E.prove(s, z3.And(self.L(s), s.ghost['other'] == 0), 'pre', what + ': this session has the lock')

    def cl_push(self, E, s, a, ins):
        self.held(E, s, 'push')
        self.owns(E, s, 'push')
        x = s.fork()
        s.ghost['pushed'] = I64(1)
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def cl_push_unlock(self, E, s, a, ins):
        return self.cl_push(E, s, a, ins)

    def checkpoint_at(self, E, s, a, ins):
        self.owns(E, s, 'checkpoint')
        self.held(E, s, 'checkpoint')
        g = s.ghost
        p = bv(a[1], 64)
        E.prove(s, p == self.cp(s) + g['wr'], 'pre', 'exactly what was received is checkpointed')
        if 'rq' in g:
            E.prove(s, p == self.request(s, 8), 'pre', 'the whole push is checkpointed')
        x = s.fork()
        cp = self.cp(s)
        for y in (x, s):
            y.put(self.rj, RJ, 'checkpoint_position', z3.simplify(z3.If(p > cp, p, cp)))
            y.ghost['ncp'] = I64(1)
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def pwrite(self, E, s, a, ins):
        g = s.ghost
        n, off = bv(a[2], 64), bv(a[3], 64)
        self.owns(E, s, 'write')
        self.held(E, s, 'write')
        E.prove(s, off == self.cp(s) + g['wr'], 'pre', 'the data of a push is written in order at the end of the journal')
        if 'rq' in g:
            E.prove(s, self.cp(s) == self.request(s, 0), 'pre', 'a push is accepted only at the end of the journal')
        E.prove(s, n == g['rxn'], 'pre', 'everything that was received is written')
        src, si = E.read_byte_array(s, a[1], lin(n), 'data')
        E.forall(s, lambda k: z3.Implies(z3.ULT(k.bv(), n), bv(src.sel(si.add(k)), 8) == bv(g['rxsrc'].sel(k), 8)), 'pre', 'what was received is what is written')
        x = s.fork()
        g['wr'] = z3.simplify(g['wr'] + n)
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def client_pull(self, E, s, a, ins):
        E.prove(s, z3.Not(self.engaged(s)), 'pre', 'the client is pulled only while the journal is not locked')
        x = s.fork()
        for y in (x, s):
            c = fresh('checkpoint', 64)
            y.assume(z3.And(c >= self.cp(y), c < BIG))
            y.put(self.rj, RJ, 'checkpoint_position', c)
        return en.Outs([('exc', x, files.EXC), ('ret', s, fresh('pulled', 64))])


def lin_const(l):
    return lin(l).const()


def both(t, f, **k):
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        f(Model(t, writable=w, **k))


@task('C26', SRC, FL)
def unlock(t):
    """unlock: the first waiting session is woken and the lock stays taken for it; without waiting session, the lock and the file are free"""
    def f(m):
        s = m.s
        L, n = m.L(s), s.ghost['n']
        l0, h0, e0 = m.locked(s), s.ghost['handoff'], m.engaged(s)
        for o in t.call(s, r'^joedb::Server::Session::unlock\(', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, m.inv(x), 'at most one session has the lock')
            t.prove(x, z3.BoolVal(o.ret), 'unlock does not throw')
            t.prove(x, z3.Not(m.L(x)), 'the session has no lock')
            t.prove(x, z3.Implies(z3.And(L, n == 0), z3.Not(m.locked(x))), 'the lock is free')
            t.prove(x, z3.Implies(z3.And(L, n != 0), z3.And(m.locked(x), g['handoff'] == 1, m.engaged(x) == e0)), 'the first waiting session is woken')
            t.prove(x, z3.Implies(z3.Not(L), z3.And(m.locked(x) == l0, g['handoff'] == h0, m.engaged(x) == e0)), 'unlock by a session without lock does nothing')
            t.prove(x, z3.And(g['n'] == n, m.cp(x) == m.cp0), 'nothing else changes')
    both(t, f)


@task('C26', SRC, FL)
def lock(t):
    """lock: taken at once if it is free, else after waiting at the end of the queue; refused to a session that has it"""
    def f(m):
        s = m.s
        L, n, l0 = m.L(s), s.ghost['n'], m.locked(s)
        s.assume(s.ghost['pp'] == 0)
        for o in t.call(s, r'^joedb::Server::Session::lock\(', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, m.inv(x, failed_lock=not o.ret), 'at most one session has the lock')
            t.prove(x, neg1(g['pt']), 'the session is not in the queue any more')
            if o.ret:
                t.prove(x, z3.And(m.L(x), g['other'] == 0, m.locked(x)), 'the session has the lock')
                t.prove(x, z3.Not(L), 'a session that has the lock can not lock again')
                if m.writable:
                    t.prove(x, m.engaged(x), 'the journal is locked')
                else:
                    t.prove(x, bv(x.load(m.me.add(Lin(t.E.M.field(ASS, 'buffer')[0])), 1), 8) == ord('R'), 'the answer tells that the server is read-only')
            else:
                t.prove(x, z3.Implies(L, z3.And(m.L(x), g['n'] == n)), 'a refused request changes nothing')
    both(t, f)


@task('C26', SRC, FL)
def cleanup(t):
    """the end of a session gives its lock back and takes the session out of the queues"""
    def f(m):
        s = m.s
        n = s.ghost['n']
        # a session may end while it is in the list of those that wait for data, or while it waits for
        # the lock, but not between the two instants when it is woken and takes the lock
        s.ghost['pt'], s.ghost['pp'] = t.var('pt'), t.var('pp')
        s.assume(m.inv(s))
        s.assume(z3.Implies(s.ghost['pt'] == 0, s.ghost['handoff'] == 0))
        pt = s.ghost['pt']
        for o in t.call(s, r'^joedb::Server::Session::cleanup\(', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, z3.BoolVal(o.ret), 'cleanup does not throw')
            t.prove(x, m.inv(x), 'at most one session has the lock')
            t.prove(x, z3.And(z3.Not(m.L(x)), neg1(g['pt']), g['pp'] == 0), 'nothing refers to the session any more')
            t.prove(x, g['n'] == n - b2(z3.Not(neg1(pt))), 'the others stay in the queue')
    both(t, f)


def pushing(t, w, u, v):
        m = Model(t, writable=w)
        ll = bv(m.s.get(m.srv, AS, 'log_level'), 32)
        m.s.assume(ll > 2 if v else ll <= 2)
        E, s = t.E, m.s
        E.contracts.append((r'^joedb::Server::Session::lock\(', m.lock_contract, 'lock'))
        code = t.var('code', 8)
        s.assume(z3.Or(code == ord('N'), code == ord('O')))
        unlock = code == ord('O')
        b = m.me.add(Lin(E.M.field(ASS, 'buffer')[0]))
        s.store(b, 1, code)
        s.store(b.add(Lin(BUF + 8)), 8, I64(1))
        s.assume(s.ghost['pp'] == 0)
        pos = 'push_writer._M_payload._M_payload._M_value'
        off = E.M.field(SS, 'push_writer')[0]
        AW = 'joedb::Async_Writer'
        pw = m.me.add(Lin(off))
        # a writer left by an earlier push
        s.put(pw, AW, 'file', m.file)
        s.put(pw, AW, 'current', t.var('old'))

        def J(x):
            """while the data of a push arrives"""
            g = x.ghost
            frm, until = m.request(x, 0), m.request(x, 8)
            w, L, st = m.writing(x), m.L(x), bv(x.get(m.me, SS, 'push_status'), 8)
            cur = bv(x.get(pw, AW, 'current'), 64)
            return [('inv', m.inv(x)), ('queue', z3.And(neg1(g['pt']), g['pp'] == 0)),
                    ('writer', z3.Implies(w, z3.And(L, m.cp(x) == frm, cur == frm + g['wr'], st == code, g['wr'] == g['rxc']))),
                    ('no writer', z3.Implies(z3.Not(w), z3.Or(st == ord('C'), st == ord('R'), st == ord('t')))),
                    ('read-only', (st == ord('R')) == z3.BoolVal(not m.writable)),
                    ('lost', z3.Implies(g['lost'] == 0, L)), ('lost 1', z3.ULE(g['lost'], 1)),
                    ('conflict', z3.Implies(z3.And(st == ord('C'), g['lost'] == 0), m.cp(x) != frm)),
                    ('late', z3.Implies(st == ord('t'), g['lost'] == 1)),
                    ('index', z3.BoolVal(True))]

        def cands(E, lp):
            if 'rq' not in lp.s0.ghost:
                return []
            out = []
            pi = lp.s0.ghost.get('pi')
            if pi is not None and z3.is_bv_value(pi) and pi.as_long() == 0:
                # the loop that wakes the sessions that wait for data
                return [en.Cand('index', lambda g: z3.And(g.s.ghost['pi'] >= 0, g.s.ghost['pi'] <= g.s.ghost['pn']), True)]
            for i, (n, _) in enumerate(J(lp.s0)):
                out.append(en.Cand('push: ' + n, lambda g, i=i: J(g.s)[i][1] if 'rq' in g.s.ghost else z3.BoolVal(True), True))
            for k, w in lp.scal:
                if w == 64:
                    out.append(en.Cand('remaining', lambda g, k=k: bv(g.cur(k), 64) + g.s.ghost['rxc'] == m.request(g.s, 8) - m.request(g.s, 0), True))
            return out
        E.loop_cands.append(cands)

        def reply(E, x, c, idx):
            g = x.ghost
            frm, until = m.request(x, 0), m.request(x, 8)
            E.prove(x, g['replies'] == 0, 'pre', 'one answer')
            E.prove(x, idx == 1, 'pre', 'the answer is one byte')
            E.prove(x, z3.Or(c == code, c == ord('C'), c == ord('R'), c == ord('t')), 'pre', 'answer: a known code')
            E.prove(x, z3.Implies(z3.And(c == code, until > frm), z3.And(g['ncp'] == 1, g['pushed'] == 1, g['wr'] == until - frm, m.cp(x) == until)), 'pre', 'answer: accepted only if everything was written and checkpointed')
            E.prove(x, z3.Implies(z3.And(c == code, until <= frm), m.cp(x) == frm), 'pre', 'answer: accepted only at the end of the journal')
            E.prove(x, z3.Implies(c != code, g['ncp'] == 0), 'pre', 'answer: a refused push does not move the checkpoint')
            E.prove(x, (c == ord('R')) == z3.BoolVal(not m.writable), 'pre', 'answer: R exactly if the server is read-only')
            E.prove(x, z3.Implies(z3.And(c == ord('C'), g['lost'] == 0), m.cp(x) != frm), 'pre', 'answer: C only if the push is not at the end of the journal')
            E.prove(x, z3.Implies(c == ord('t'), g['lost'] == 1), 'pre', 'answer: t only after a timeout')
            g['replies'] = I64(1)
        m.reply = reply
        if True:
            x0 = s
            x0.assume(unlock == u)
            for o in t.call(x0, r'^joedb::Server::Session::push\(', [m.me, z3.BoolVal(u)], cover=m.writable):
                x, g = o.s, o.s.ghost
                t.prove(x, m.inv(x, failed_lock=not o.ret), 'at most one session has the lock')
                t.prove(x, z3.And(neg1(g['pt']), g['pp'] == 0), 'the session does not wait')
                if o.ret:
                    t.prove(x, g['replies'] == 1, 'one answer')
                    if u:
                        t.prove(x, z3.Not(m.L(x)), 'the lock is given back')
                    else:
                        t.prove(x, z3.Implies(g['lost'] == 0, m.L(x)), 'the lock is kept')


DOC = ('push (%s): written only by the session that has the lock, at the end of the journal, exactly the bytes received; '
       'refused or late pushes change nothing; the answer tells which')


def pushes():
    for w in (True, False):
        for u in (False, True):
            for v in (False, True):
                def f(t, w=w, u=u, v=v):
                    pushing(t, w, u, v)
                f.__name__ = 'push' + ('' if w else '_readonly') + ('_unlock' if u else '') + ('_verbose' if v else '')
                f.__doc__ = DOC % ', '.join(['O' if u else 'N', 'writable server' if w else 'read-only server', 'log level %s 2' % ('>' if v else '<=')])
                f.__module__ = __name__
                task('C26', SRC, FL, budget=500)(f)


pushes()


# --- timeouts
WEAK = 'std::weak_ptr'


def handler_contracts(m):
    """std::weak_ptr and std::shared_ptr of the counter that a timeout handler shares with its session"""
    E = m.E
    got = m.got = []

    def set_handler(E, s, a, ins):
        E.prove(s, z3.BoolVal(m.is_timer(a[0], 'lock_timeout_timer')), 'pre', 'the handler belongs to the timer of the lock')
        n = lin(a[2])
        o = s.new_obj('timeout handler', n)
        E.copy_bytes(s, Ptr(o.id, 0), a[1], n)
        s.ghost['armed'] = z3.simplify(s.ghost.get('armed', I64(0)) + 1)
        s.ghost['handler'] = (Ptr(o.id, 0), a[3])
        return None

    def weak_new(E, s, a, ins):
        s.store(a[0], 8, s.load(a[1], 8, 'ptr'))
        s.store(a[0].add(Lin(8)), 8, NULL)
        return None

    def weak_lock(E, s, a, ins):
        p = s.load(a[1], 8, 'ptr')
        s.store(a[0], 8, p if s.ghost.get('session') != 'ended' else NULL)
        s.store(a[0].add(Lin(8)), 8, NULL)
        return None
    E.contracts += [
        (r'^boost::asio::steady_timer::set_handler\(', set_handler, 'steady_timer::async_wait (handler)'),
        (r'^std::weak_ptr<long>::weak_ptr<long', weak_new, 'std::weak_ptr'),
        (r'^std::weak_ptr<long>::lock\(', weak_lock, 'std::weak_ptr'),
        (r'^std::(__)?(weak|shared)_ptr<long.*>::~', lambda E, s, a, ins: None, 'std::weak_ptr'),
        (r'^std::_V2::(system|generic)_category\(', lambda E, s, a, ins: Ptr(s.new_obj('category', Lin(8)).id, 0), 'std::error_category'),
    ]


def timeout_model(t, w):
    m = Model(t, writable=w, refresh=False)
    handler_contracts(m)
    s = m.s
    for f in ('armed',):
        s.ghost[f] = I64(0)
    off = t.E.M.field(SS, 'push_writer')[0]
    s.put(m.me.add(Lin(off)), 'joedb::Async_Writer', 'file', m.file)
    return m


def value(m, s):
    return bv(s.load(m.count, 8), 64)


@task('C26', SRC, FL)
def refresh(t):
    """refresh_lock_timeout: the timer of the lock is set to the timeout exactly when the session has the lock and there is a timeout; the handlers set before are void"""
    for m in models(t, timeout_model):
        s = m.s
        c0, L = value(m, s), m.L(s)
        on = z3.And(L, m.lt > 0)
        log = []
        m.E.contracts.insert(0, (r'^boost::asio::steady_timer::expires_after\(', expires_lock(m), 'steady_timer::expires_after'))
        s.ghost['delay'] = I64(-1)
        for o in t.call(s, r'^joedb::Server::Session::refresh_lock_timeout\(\)$', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, z3.BoolVal(o.ret), 'no exception')
            t.prove(x, g['armed'] == b2(on), 'the timer is set exactly when the session has the lock')
            t.prove(x, z3.Implies(on, g['delay'] == m.lt), 'the timer is set to the timeout of the server')
            t.prove(x, z3.Implies(on, value(m, x) != c0), 'the handlers set before are void')
            t.prove(x, z3.And(m.inv(x), m.L(x) == L), 'the lock is kept')


def expires_lock(m):
    def h(E, s, a, ins):
        E.prove(s, z3.BoolVal(m.is_timer(a[0], 'lock_timeout_timer')), 'pre', 'the timer of the lock')
        d = bv(a[1], 64)
        # milliseconds to the nanoseconds of the clock
        ms = fresh('ms', 64)
        s.ghost['delay'] = z3.If(d == m.lt * 1000000, m.lt, I64(-2))
        return I64(0)
    return h


def models(t, f):
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        yield f(t, w)


def armed(t, w):
    """the state after refresh_lock_timeout by a session that has the lock, and the handler it has set"""
    m = timeout_model(t, w)
    m.s.assume(z3.And(m.L(m.s), m.lt > 0))
    for o in t.call(m.s, r'^joedb::Server::Session::refresh_lock_timeout\(\)$', [m.me]):
        if o.ret and 'handler' in o.s.ghost:
            yield m, o.s


def fire(t, m, s, err):
    ec = s.new_obj('error code', Lin(4))
    s.store(Ptr(ec.id, 0), 4, err)
    h, fn = s.ghost['handler']
    return t.call(s, fn.name, [h, Ptr(ec.id, 0)])


@task('C26', SRC, FL)
def timeout(t):
    """the timeout handler: the session loses its lock, and the push it was doing is abandoned and will be answered with t"""
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        for m, s in armed(t, w):
            # the session goes on for a while without calling refresh_lock_timeout or unlock: the counter is the same
            s = s.fork()
            s.havoc = True
            m.rely(t.E, s, True)
            for f, c in ((m.PW, 1), ('push_status', 255)):
                v = fresh('v', 8)
                s.assume(z3.ULE(v, c))
                s.put(m.me, SS, f, v)
            w0, st0 = m.writing(s), bv(s.get(m.me, SS, 'push_status'), 8)
            n, e0 = s.ghost['n'], m.engaged(s)
            for o in fire(t, m, s, I32(0)):
                x, g = o.s, o.s.ghost
                st = bv(x.get(m.me, SS, 'push_status'), 8)
                t.prove(x, z3.BoolVal(o.ret), 'no exception')
                t.prove(x, m.inv(x), 'at most one session has the lock')
                t.prove(x, z3.Not(m.L(x)), 'the session loses the lock')
                t.prove(x, z3.Not(m.writing(x)), 'the push is abandoned')
                t.prove(x, st == z3.If(w0, z3.BitVecVal(ord('t'), 8), st0), 'the push will be answered with t')
                t.prove(x, z3.Implies(n > 0, z3.And(g['handoff'] == 1, m.engaged(x) == e0)), 'the first waiting session is woken')
                t.prove(x, z3.And(m.cp(x) == m.cp0, g['n'] == n), 'nothing is written')


def I32(x):
    return z3.BitVecVal(x, 32)


@task('C26', SRC, FL)
def timeout_void(t):
    """a timeout handler has no effect if it was cancelled, if the session has given its lock back or has set its timer again, or if the session has ended (which it does not touch)"""
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        for m, s in armed(t, w):
            for kind in ('cancelled', 'again', 'unlocked', 'ended'):
                x = s.fork()
                err = I32(0)
                if kind == 'cancelled':
                    err = fresh('error', 32)
                    x.assume(err != 0)
                    ys = [x]
                elif kind == 'ended':
                    x.ghost['session'] = 'ended'
                    x.wobj(m.me.obj).alive = False
                    x.wobj(m.count.obj).alive = False
                    ys = [x]
                else:
                    h = x.ghost['handler']
                    # the session, then anything, which may include taking the lock again
                    ys = [o.s for o in t.call(x, r'^joedb::Server::Session::%s\(\)$' % ('unlock' if kind == 'unlocked' else 'refresh_lock_timeout'), [m.me]) if o.ret]
                    for y in ys:
                        y.ghost['handler'] = h
                for y in ys:
                    if kind not in ('ended', 'cancelled'):
                        y.havoc = True
                        for o_, c_, f_ in ((m.srv, S, 'locked'), (m.me, SS, 'locking'), (m.srv, S, m.OPT), (m.me, SS, m.PW)):
                            v = fresh('flag', 8)
                            y.assume(z3.ULE(v, 1))
                            y.put(o_, c_, f_, v)
                        for f_ in ('other', 'handoff'):
                            y.ghost[f_] = fresh(f_, 64)
                            y.assume(z3.ULE(y.ghost[f_], 1))
                        y.ghost['n'] = fresh('n', 64)
                        y.assume(m.inv(y))
                    before = (m.locked(y), m.engaged(y), y.ghost['n'], y.ghost['handoff'])
                    mine = None if kind == 'ended' else (m.L(y), m.writing(y), bv(y.get(m.me, SS, 'push_status'), 8))
                    for o in fire(t, m, y, err):
                        z = o.s
                        t.prove(z, z3.BoolVal(o.ret), kind + ': no exception')
                        after = (m.locked(z), m.engaged(z), z.ghost['n'], z.ghost['handoff'])
                        t.prove(z, z3.And(*[p == q for p, q in zip(before, after)]), kind + ': the server is unchanged')
                        if mine:
                            t.prove(z, z3.And(*[p == q for p, q in zip(mine, (m.L(z), m.writing(z), bv(z.get(m.me, SS, 'push_status'), 8)))]), kind + ': the session is unchanged')


# --- pull, read, send
AR = 'joedb::Async_Reader'
SHA = 'joedb::SHA_256'


def suspending(m, f=None, effect=None):
    """contract of a function of the session that suspends and keeps the lock as it is, unless a timeout takes it"""
    def h(E, s, a, ins):
        E.prove(s, z3.BoolVal(a[0].obj == m.me.obj), 'pre', 'a session serves itself')
        E.prove(s, z3.And(neg1(s.ghost['pt']), s.ghost['pp'] == 0), 'pre', 'the session does not wait')
        if f:
            f(E, s, a)
        out = []
        for x in m.suspend(E, s, 'request'):
            if effect:
                effect(x)
            out += [('exc', x.fork(), files.EXC), ('ret', x, None)]
        return en.Outs(out)
    return h


def start(m, code):
    s, E = m.s, m.E
    b = m.me.add(Lin(E.M.field(ASS, 'buffer')[0]))
    s.store(b, 1, code)
    s.store(b.add(Lin(BUF + 8)), 8, I64(1))
    s.assume(s.ghost['pp'] == 0)


def pulling(t, w, lock, data):
    m = Model(t, writable=w)
    E, s = m.E, m.s
    E.contracts.append((r'^joedb::Server::Session::lock\(', m.lock_contract, 'lock'))
    L0 = m.L(s)
    start(m, z3.BitVecVal(ord('DEFG'[lock + 2 * data]), 8))

    def send(E, s, a, ins):
        r = a[1]
        cur, end = bv(s.get(r, AR, 'current'), 64), bv(s.get(r, AR, 'end'), 64)
        pc = m.request(s, 8)
        E.prove(s, end == m.cp(s), 'pre', 'the checkpoint of the journal is announced')
        E.prove(s, z3.BoolVal(s.get(r, AR, 'file').obj == m.file.obj), 'pre', 'the journal of the server is read')
        if data:
            E.prove(s, cur == z3.If(pc > end, end, pc), 'pre', 'what the client does not have is sent, up to the checkpoint')
        else:
            E.prove(s, cur == end, 'pre', 'no data is sent')
        if lock:
            E.prove(s, m.L(s), 'pre', 'the session has the lock before it receives data')
        E.prove(s, s.ghost['replies'] == 0, 'pre', 'one answer')
        s.ghost['replies'] = I64(1)
        return m.send(E, s, a, ins)
    E.contracts.insert(0, (r'^joedb::Server::Session::send\(', send, 'send'))
    for o in t.call(s, r'^joedb::Server::Session::pull\(', [m.me, z3.BoolVal(bool(lock)), z3.BoolVal(bool(data))]):
        x, g = o.s, o.s.ghost
        t.prove(x, m.inv(x, failed_lock=not o.ret), 'at most one session has the lock')
        t.prove(x, z3.And(neg1(g['pt']), g['pp'] == 0), 'the session does not wait any more')
        if o.ret:
            t.prove(x, g['replies'] == 1, 'one answer')
            if lock:
                t.prove(x, z3.Implies(g['lost'] == 0, m.L(x)), 'the session has the lock')
                t.prove(x, z3.Implies(g['lost'] == 0, z3.Not(L0)), 'a session that has the lock can not lock again')
            else:
                t.prove(x, z3.Implies(g['lost'] == 0, m.L(x) == L0), 'the session has the lock if it had it')
        elif not lock:
            t.prove(x, z3.Implies(g['lost'] == 0, m.L(x) == L0), 'the session has the lock if it had it')


def pulls():
    for w in (True, False):
        for lock in (0, 1):
            for data in (0, 1):
                def f(t, w=w, lock=lock, data=data):
                    pulling(t, w, lock, data)
                f.__name__ = 'pull' + ('' if w else '_readonly') + ('_lock' if lock else '') + ('_data' if data else '')
                f.__doc__ = 'pull (%s, %s server): the client is pulled only while the journal is not locked; the data after the position of the client is sent, up to the checkpoint, after the lock is taken if it is asked for' % ('DEFG'[lock + 2 * data], 'writable' if w else 'read-only')
                f.__module__ = __name__
                task('C26', SRC, FL)(f)


pulls()


@task('C26', SRC, FL)
def read(t):
    """read: only bytes below the checkpoint are sent"""
    def f(m):
        E, s = m.E, m.s
        start(m, z3.BitVecVal(ord('r'), 8))

        def send(E, s, a, ins):
            r = a[1]
            cur, end = bv(s.get(r, AR, 'current'), 64), bv(s.get(r, AR, 'end'), 64)
            frm, until = m.request(s, 0), m.request(s, 8)
            u = z3.If(until > m.cp(s), m.cp(s), until)
            E.prove(s, end == u, 'pre', 'up to the asked end, or to the checkpoint')
            E.prove(s, cur == z3.If(frm > u, u, frm), 'pre', 'from the asked start')
            E.prove(s, z3.BoolVal(s.get(r, AR, 'file').obj == m.file.obj), 'pre', 'the journal of the server is read')
            s.ghost['replies'] = z3.simplify(s.ghost['replies'] + 1)
            return m.send(E, s, a, ins)
        E.contracts.insert(0, (r'^joedb::Server::Session::send\(', send, 'send'))
        L0 = m.L(s)
        for o in t.call(s, r'^joedb::Server::Session::read\(', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, m.inv(x), 'at most one session has the lock')
            t.prove(x, z3.Implies(g['lost'] == 0, m.L(x) == L0), 'the lock is not touched')
            if o.ret:
                t.prove(x, g['replies'] == 1, 'one answer')
    both(t, f)


@task('C26', SRC, FL)
def run(t):
    """run: each request is dispatched to its function with the lock and unlock flags of its code; unlock is answered after the lock was given back; a session ends on Q or an unknown code"""
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        m = Model(t, writable=w)
        E, s = m.E, m.s
        s.assume(z3.And(s.ghost['pp'] == 0, z3.Not(m.L(s))))
        s.ghost['code'] = z3.BitVecVal(0, 8)

        def request(codes, flags=()):
            def f(E, s, a):
                c = s.ghost['code']
                E.prove(s, z3.Or(*[c == ord(k) for k in codes]), 'pre', 'dispatch: %s is for another request' % codes)
                for i, on in enumerate(flags):
                    v = a[1 + i]
                    v = v if isinstance(v, (bool, z3.BoolRef)) else bv(v, 1) == 1
                    v = z3.BoolVal(v) if isinstance(v, bool) else v
                    E.prove(s, v == z3.Or(*[c == ord(k) for k in on]), 'pre', 'dispatch: lock, data and unlock flags')
                # the request code is still in the buffer, with its first bytes to come
                b = m.me.add(Lin(E.M.field(ASS, 'buffer')[0]))
                if codes != 'handshake':
                    E.prove(s, bv(s.load(b, 1), 8) == c, 'pre', 'dispatch: the answer starts with the code of the request')
                s.ghost['served'] = I64(1)
            return f

        def locks(unlock):
            def e(x):
                v = fresh('locking', 8)
                x.assume(z3.ULE(v, 1))
                x.put(m.me, SS, 'locking', v)
                for f_ in ('other', 'handoff'):
                    x.ghost[f_] = fresh(f_, 64)
                    x.assume(z3.ULE(x.ghost[f_], 1))
                for f_ in ('locked',):
                    v = fresh('flag', 8)
                    x.assume(z3.ULE(v, 1))
                    x.put(m.srv, S, f_, v)
                v = fresh('flag', 8)
                x.assume(z3.ULE(v, 1))
                x.put(m.srv, S, m.OPT, v)
                m.lockobj(x)
                x.ghost['n'] = fresh('n', 64)
                x.assume(m.inv(x))
            return e

        def served(x):
            m.E.write_bytes(x, m.me.add(Lin(E.M.field(ASS, 'buffer')[0])), Lin(BUF), Base(fresh_name('b'), 8), Lin(0), 'buffer')
            x.store(m.me.add(Lin(E.M.field(ASS, 'buffer')[0] + BUF + 8)), 8, fresh('index', 64))

        def first(E, s, a):
            E.prove(s, s.ghost['greeted'] == 0, 'pre', 'dispatch: one greeting, before any request')
            s.ghost['greeted'] = I64(1)
        s.ghost['greeted'], s.ghost['served'] = I64(0), I64(1)

        def read_buffer(E, s, a, ins):
            g = s.ghost
            E.prove(s, z3.And(bv(a[1], 64) == 0, bv(a[2], 64) == 1), 'pre', 'dispatch: one byte is read')
            E.prove(s, z3.And(g['greeted'] == 1, g['served'] == 1), 'pre', 'dispatch: every request is answered')
            r = m.read_buffer(E, s, a, ins)
            for k, x, v in r.items:
                for q in ('rq', 'rxsrc', 'rxn'):
                    x.ghost.pop(q, None)
                if k == 'ret':
                    x.ghost['code'] = bv(x.load(m.me.add(Lin(E.M.field(ASS, 'buffer')[0])), 1), 8)
                    x.ghost['served'] = I64(0)
            return r

        def reply(E, s, c, idx):
            E.prove(s, z3.And(c == ord('M'), s.ghost['code'] == ord('M')), 'pre', 'unlock is the only request that run answers itself')
            E.prove(s, idx == 1, 'pre', 'the answer is one byte')
            E.prove(s, z3.Not(m.L(s)), 'pre', 'unlock is answered after the lock was given back')
            s.ghost['served'] = I64(1)
        m.reply = reply
        sus = lambda f, e: suspending(m, f, lambda x: (e(x) if e else None, served(x)))
        P = r'^joedb::Server::Session::'
        E.contracts[:0] = [
            (P + r'handshake\(', sus(first, None), 'handshake'),
            (P + r'check_hash\(', sus(request('HI'), None), 'check_hash'),
            (P + r'read\(\)', sus(request('r'), None), 'read'),
            (P + r'pull\(', sus(request('DEFG', ('EG', 'FG')), locks(False)), 'pull'),
            (P + r'push\(', sus(request('NO', ('O',)), locks(True)), 'push'),
            (r'^joedb::asio::Server::Session::read_buffer\(', read_buffer, 'read_buffer (suspends)'),
            (r'^std::map<char, char const\*.*>::find\(', lambda E, s, a, ins: m.find(E, s), 'std::map::find'),
            (r'^std::map<char, char const\*.*>::end\(', lambda E, s, a, ins: Ptr(m.mapend, 0), 'std::map::end'),
        ]
        m.mapend = s.new_obj('end of the map', None).id
        nd = s.new_obj('element of the map', Lin(48))
        txt = s.new_obj('description', None)
        s.store(Ptr(nd.id, 40), 8, Ptr(txt.id, 0))

        def find(E, s, nd=nd):
            return en.Outs([('ret', s.fork(), Ptr(nd.id, 0)), ('ret', s, Ptr(m.mapend, 0))])
        m.find = find

        def cands(E, lp):
            if 'greeted' not in lp.s0.ghost:
                return []
            return [en.Cand('inv', lambda g: m.inv(g.s), True),
                    en.Cand('queue', lambda g: z3.And(neg1(g.s.ghost['pt']), g.s.ghost['pp'] == 0), True),
                    en.Cand('flags', lambda g: z3.And(*[z3.ULE(bv(g.s.get(o_, c_, f_), 8), 1) for o_, c_, f_ in ((m.srv, S, 'locked'), (m.me, SS, 'locking'), (m.srv, S, m.OPT))], z3.ULE(g.s.ghost['other'], 1), z3.ULE(g.s.ghost['handoff'], 1)), True),
                    en.Cand('served', lambda g: z3.And(g.s.ghost['greeted'] == 1, g.s.ghost['served'] == 1), True)]
        E.loop_cands.append(cands)
        for o in t.call(s, r'^joedb::Server::Session::run\(', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, m.inv(x, failed_lock=not o.ret), 'at most one session has the lock')
            t.prove(x, z3.And(neg1(g['pt']), g['pp'] == 0), 'the session does not wait')
            if o.ret:
                t.prove(x, z3.And(g['greeted'] == 1, *[g['code'] != ord(k) for k in 'HIrDEFGMNO']), 'the session ends only on Q or an unknown code')


def reader_read(m):
    """Async_Reader::read as proved for C13 (s_copy.async_read)"""
    def h(E, s, a, ins):
        r, buf, cap = a[0], a[1], bv(a[2], 64)
        cur, end = bv(s.get(r, AR, 'current'), 64), bv(s.get(r, AR, 'end'), 64)
        E.prove(s, z3.And(cur <= end, cap >= 0), 'pre', 'Async_Reader::read: capacity')
        want = z3.If(cap < end - cur, cap, end - cur)
        x = s.fork()
        E.write_bytes(x, buf, lin(want), Base('junk', 8), Lin(0), 'reader buffer')
        n = fresh('read', 64)
        s.assume(z3.ULE(n, want))
        E.write_bytes(s, buf, lin(want), Copy(Base('junk', 8), Lin(0), lin(n), files.gf(s, m.file, 'arr'), lin(cur)), Lin(0), 'reader buffer')
        s.put(r, AR, 'current', cur + n)
        eof = z3.If(want == 0, bv(s.get(r, AR, 'end_of_file'), 8), z3.If(n == want, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))
        s.put(r, AR, 'end_of_file', z3.simplify(eof))
        return en.Outs([('exc', x, files.EXC), ('ret', s, n)])
    return h


@task('C26', SRC, FL)
def send(t):
    """send: the code of the request, the checkpoint, then exactly the bytes of the journal from the start to the end of the range; nothing else, however they are cut"""
    m = Model(t)
    E, s = m.E, m.s
    files.attach(E, s, m.file, 'journal')
    f0 = files.gf(s, m.file, 'arr')
    bo = E.M.field(ASS, 'buffer')[0]
    b = m.me.add(Lin(bo))
    code = t.var('code', 8)
    s.store(b, 1, code)
    s.assume(s.ghost['pp'] == 0)
    r = s.sym(AR, 'reader')
    cur0, end = t.var('from'), t.var('end')
    s.assume(z3.And(cur0 >= 0, cur0 <= end, end <= m.cp(s)))
    s.put(r, AR, 'file', m.file)
    s.put(r, AR, 'current', cur0)
    s.put(r, AR, 'end', end)
    s.put(r, AR, 'end_of_file', z3.BitVecVal(0, 8))
    g = s.ghost
    g['spos'] = I64(0)
    L0 = m.L(s)
    E.contracts.insert(0, (r'^joedb::Async_Reader::read\(', reader_read(m), 'Async_Reader::read (C13)'))

    def byte(k):
        """the byte of the answer at k (a z3 term)"""
        e = code
        for i in range(8):
            e = z3.If(k == 1 + i, z3.Extract(8 * i + 7, 8 * i, end), e)
        return e

    def write(E, s, a, ins):
        g = s.ghost
        idx = bv(s.load(b.add(Lin(BUF + 8)), 8), 64)
        E.prove(s, z3.ULE(idx, BUF + 8), 'pre', 'write_buffer: inside the buffer')
        src, si = E.read_byte_array(s, b, lin(idx), 'buffer')
        pos = g['spos']
        x = s.fork()
        x.assume(pos == 0)
        if E.feasible(x, z3.BoolVal(True)):
            E.prove(x, z3.UGE(idx, 9), 'pre', 'the answer starts with a header')
            for k in range(9):
                E.prove(x, bv(src.sel(si.add(Lin(k))), 8) == z3.simplify(byte(I64(k))), 'pre', 'the answer is the code of the request and the checkpoint')
            E.forall(x, lambda k: z3.Implies(z3.And(z3.UGE(k.bv(), 9), z3.ULT(k.bv(), idx)), bv(src.sel(si.add(k)), 8) == bv(f0.sel(lin(cur0).add(k).sub(9)), 8)), 'pre', 'the data is the range of the journal')
        y = s.fork()
        y.assume(pos != 0)
        if E.feasible(y, z3.BoolVal(True)):
            E.forall(y, lambda k: z3.Implies(z3.ULT(k.bv(), idx), bv(src.sel(si.add(k)), 8) == bv(f0.sel(lin(cur0).add(lin(pos)).add(k).sub(9)), 8)), 'pre', 'the data is the range of the journal')
        g['spos'] = z3.simplify(pos + idx)
        E.prove(s, g['spos'] <= 9 + end - cur0, 'pre', 'nothing after the range is sent')
        out = []
        for z in m.suspend(E, s, 'send'):
            out += [('exc', z.fork(), files.EXC), ('ret', z, None)]
        return en.Outs(out)
    E.contracts.insert(0, (r'^joedb::asio::Server::Session::write_buffer\(', write, 'write_buffer (suspends)'))

    def cands(E, lp):
        if 'spos' not in lp.s0.ghost:
            return []
        idx = lambda g: bv(g.s.load(b.add(Lin(BUF + 8)), 8), 64)
        cu = lambda g: bv(g.s.get(r, AR, 'current'), 64)
        pos = lambda g: g.s.ghost['spos']
        out = [en.Cand('header pending', lambda g: z3.Implies(pos(g) == 0, z3.And(idx(g) == 9, cu(g) == cur0)), True),
               en.Cand('what is sent', lambda g: z3.Implies(pos(g) != 0, z3.And(idx(g) == 0, pos(g) >= 9, cu(g) == cur0 + pos(g) - 9)), True),
               en.Cand('inside of the range', lambda g: z3.And(cu(g) >= cur0, cu(g) <= end, pos(g) >= 0, bv(g.s.get(r, AR, 'end'), 64) == end), True),
               en.Cand('inv', lambda g: m.inv(g.s), True),
               en.Cand('lock', lambda g: z3.Implies(g.s.ghost['lost'] == 0, m.L(g.s) == L0), True),
               en.Cand('queue', lambda g: z3.And(neg1(g.s.ghost['pt']), g.s.ghost['pp'] == 0), True),
               en.Cand('flags', lambda g: z3.And(*[z3.ULE(bv(g.s.get(o_, c_, f_), 8), 1) for o_, c_, f_ in ((m.srv, S, 'locked'), (m.me, SS, 'locking'), (m.srv, S, m.OPT))], z3.ULE(g.s.ghost['other'], 1), z3.ULE(g.s.ghost['handoff'], 1)), True)]
        def hdr(g):
            x, xi = E.read_byte_array(g.s, b, Lin(9))
            return [x], lambda i: z3.Implies(z3.And(z3.ULT(i.sub(xi).bv(), 9), g.s.ghost['spos'] == 0), bv(x.sel(i), 8) == byte(i.sub(xi).bv()))
        out.append(en.QCand('header kept', hdr, True))
        return out
    E.loop_cands.append(cands)
    for o in t.call(s, r'^joedb::Server::Session::send\(', [m.me, r]):
        x, g = o.s, o.s.ghost
        t.prove(x, m.inv(x), 'at most one session has the lock')
        t.prove(x, z3.And(neg1(g['pt']), g['pp'] == 0), 'the session does not wait')
        t.prove(x, z3.Implies(g['lost'] == 0, m.L(x) == L0), 'the lock is not touched')
        if o.ret:
            t.prove(x, g['spos'] == 9 + end - cur0, 'the whole range is sent')


HASHES = {'H': 'get_fast_hash', 'I': 'get_full_hash'}


@task('C26', SRC, FL)
def check_hash(t):
    """check_hash: the answer is the request code exactly if the checkpoint exists here and the hash of the asked kind is the same, else h"""
    for code in 'HI':
        m = Model(t)
        E, s = m.E, m.s
        start(m, z3.BitVecVal(ord(code), 8))
        L0 = m.L(s)
        mine = Base(fresh_name('sha'), 8)

        def sha(kind):
            def h(E, s, a, ins):
                # sret, journal, checkpoint
                E.prove(s, z3.BoolVal(kind == HASHES[code]), 'pre', 'the hash of the asked kind')
                E.prove(s, bv(a[2], 64) == m.request(s, 0), 'pre', 'the hash at the asked checkpoint')
                E.prove(s, bv(a[2], 64) <= m.cp(s), 'pre', 'the hash of a part of the journal that exists')
                x = s.fork()
                E.write_bytes(s, a[0], Lin(32), mine, Lin(0), 'hash')
                s.ghost['hashed'] = I64(1)
                return en.Outs([('exc', x, files.EXC), ('ret', s, None)])
            return h
        s.ghost['hashed'] = I64(0)
        E.contracts[:0] = [(r'^joedb::Journal_Hasher::get_fast_hash\(', sha('get_fast_hash'), 'Journal_Hasher::get_fast_hash (C12)'),
                           (r'^joedb::Journal_Hasher::get_full_hash\(', sha('get_full_hash'), 'Journal_Hasher::get_full_hash (C12)')]

        def reply(E, x, c, idx):
            g = x.ghost
            E.prove(x, idx == 1, 'pre', 'the answer is one byte')
            E.prove(x, g['replies'] == 0, 'pre', 'one answer')
            same = z3.And(*[bv(g['rq'].sel(Lin(8 + i)), 8) == bv(mine.sel(Lin(i)), 8) for i in range(32)])
            ok = z3.And(m.request(x, 0) <= m.cp(x), same)
            E.prove(x, z3.Implies(g['hashed'] == 1, c == z3.If(ok, z3.BitVecVal(ord(code), 8), z3.BitVecVal(ord('h'), 8))), 'pre', 'the answer tells whether the hashes are equal')
            E.prove(x, z3.Implies(g['hashed'] == 0, z3.And(c == ord('h'), m.request(x, 0) > m.cp(x))), 'pre', 'refused without comparison only if the checkpoint does not exist')
            g['replies'] = I64(1)
        m.reply = reply
        for o in t.call(s, r'^joedb::Server::Session::check_hash\(', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, m.inv(x), 'at most one session has the lock')
            t.prove(x, z3.Implies(g['lost'] == 0, m.L(x) == L0), 'the lock is not touched')
            if o.ret:
                t.prove(x, g['replies'] == 1, 'one answer')
        t.E.contracts[:] = []


@task('C26', SRC, FL)
def handshake(t):
    """handshake: only joedb clients are greeted, with the version, the checkpoint and whether the server accepts pushes"""
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        m = Model(t, writable=w)
        E, s = m.E, m.s
        s.assume(s.ghost['pp'] == 0)
        L0 = m.L(s)
        b = m.me.add(Lin(E.M.field(ASS, 'buffer')[0]))
        id_ = bv(s.get(m.me, ASS, 'id'), 64)

        def reply(E, x, c, idx):
            g = x.ghost
            word = lambda k: z3.Concat(*[bv(x.load(b.add(Lin(k + i)), 1), 8) for i in reversed(range(8))])
            E.prove(x, g['replies'] == 0, 'pre', 'one answer')
            E.prove(x, idx == 30, 'pre', 'the size of the greeting')
            for i, ch in enumerate(b'joedb'):
                E.prove(x, z3.And(bv(x.load(b.add(Lin(i)), 1), 8) == ch, bv(g['rq'].sel(Lin(i)), 8) == ch), 'pre', 'greeting: both sides say joedb')
            v = m.request(x, 5)
            E.prove(x, z3.Or(word(5) == 0, z3.And(word(5) <= v, word(5) > 0)), 'pre', 'greeting: a version that the client knows, or 0')
            E.prove(x, word(13) == id_, 'pre', 'greeting: the session')
            E.prove(x, word(21) == m.cp(x), 'pre', 'greeting: the checkpoint')
            E.prove(x, bv(x.load(b.add(Lin(29)), 1), 8) == z3.If(z3.And(z3.BoolVal(w), z3.Not(m.pullonly)), z3.BitVecVal(ord('W'), 8), z3.BitVecVal(ord('R'), 8)), 'pre', 'greeting: whether pushes are accepted')
            g['replies'] = I64(1)
        m.reply = reply
        for o in t.call(s, r'^joedb::Server::Session::handshake\(', [m.me]):
            x, g = o.s, o.s.ghost
            t.prove(x, m.inv(x), 'at most one session has the lock')
            t.prove(x, z3.Implies(g['lost'] == 0, m.L(x) == L0), 'the lock is not touched')
            if o.ret:
                t.prove(x, g['replies'] == 1, 'one answer')


@task('C26', SRC, FL)
def construct(t):
    """a server starts with a free lock; it locks its journal at once exactly if the journal is not shared; it runs in one thread"""
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        m = Model(t, writable=w)
        E, s = m.E, m.s
        new = s.sym(S, 'new server')
        tc, lt = t.var('thread_count', 32), t.var('timeout')

        def base(E, s, a, ins):
            s.put(a[0], AS, 'thread_count', bv(a[3], 32))
            s.put(a[0], AS, 'log_level', bv(a[2], 32))
            return en.Outs([('exc', s.fork(), files.EXC), ('ret', s, None)])

        def lock(E, s, a, ins):
            E.prove(s, z3.Not(m.shared), 'pre', 'a shared journal is locked only for a session')
            return en.Outs([('exc', s.fork(), files.EXC), ('ret', s, None)])

        def push(E, s, a, ins):
            E.prove(s, z3.BoolVal(w), 'pre', 'only a writable client is pushed')
            return en.Outs([('exc', s.fork(), files.EXC), ('ret', s, fresh('pushed', 64))])
        E.contracts[:0] = [
            (r'^joedb::asio::Server::Server\(', base, 'asio::Server'),
            (r'^joedb::asio::Server::~Server\(', lambda E, s, a, ins: None, 'asio::Server'),
            (r'^__dynamic_cast$', lambda E, s, a, ins: m.jc if w else NULL, 'dynamic_cast'),
            (r'^joedb::Writable_Journal_Client_Lock::Writable_Journal_Client_Lock\(', lock, 'Client_Lock (C20)'),
            (r'^joedb::get_error_message', lambda E, s, a, ins: None, 'std::string (contents abstract: messages only)'),
            (r'^' + DQ + r'(~?deque)\(', lambda E, s, a, ins: None, 'std::deque'),
        ]
        E.iface[WJC] = {'push_if_ahead': push}
        txt = s.new_obj('endpoint path', Lin(32))
        for o in t.call(s, r'^joedb::Server::Server\(', [new, s.sym('joedb::Logger', 'logger'), t.var('log_level', 32), tc, Ptr(txt.id, 0), m.client, lt]):
            x = o.s
            if o.ret:
                eng = bv(x.get(new, S, m.OPT), 8) != 0
                t.prove(x, tc == 1, 'one thread')
                t.prove(x, bv(x.get(new, S, 'locked'), 8) == 0, 'the lock is free')
                t.prove(x, z3.Implies(z3.Not(m.shared), eng == z3.BoolVal(w)), 'a journal that is not shared is locked')
                t.prove(x, z3.Implies(m.shared, z3.Not(eng)), 'a shared journal is not')
                t.prove(x, bv(x.get(new, S, 'lock_timeout.__r'), 64) == lt, 'the timeout of the lock')
                p = x.get(new, S, 'writable_journal_client')
                t.prove(x, z3.BoolVal(p.obj == (m.jc.obj if w else None)), 'pushes are written by the client, if it is writable')


@task('C26', SRC, FL)
def after_join(t):
    """when the server stops, the lock of the journal is given back if it is held"""
    c0 = list(t.E.contracts)
    for w in (True, False):
        t.E.contracts[:] = c0
        m = Model(t, writable=w)
        E, s = m.E, m.s
        s.ghost['released'] = I64(0)

        def unlock(E, s, a, ins):
            m.held(E, s, 'unlock')
            s.ghost['released'] = z3.simplify(s.ghost['released'] + 1)
            return None
        E.contracts.insert(0, (r'^joedb::Client_Lock::unlock\(', unlock, 'Client_Lock::unlock (C20)'))
        e = m.engaged(s)
        for o in t.call(s, r'^joedb::Server::cleanup_after_join\(', [m.srv]):
            if o.ret:
                t.prove(o.s, o.s.ghost['released'] == b2(e), 'the lock is given back once if it is held')
