"""C18, C20: clients over the Connection interface. The connection is described by ghost state:
S, the checkpoint of the server (others may only append while the connection is not locked);
K, the length over which the local journal is known to equal the server's;
locked, whether this client holds the lock of the connection."""
import z3
import engine as en
import files
from header import RJ, WJ
from terms import *
from task import task

BIG = 1 << 60
CL, WC, LK, CN, AC = 'joedb::Client', 'joedb::Writable_Client', 'joedb::Client_Lock', 'joedb::Connection', 'verif::Access'
SRC = ['joedb/concurrency/Client.cpp', 'joedb/journal/Readonly_Journal.cpp', 'joedb/journal/Writable_Journal.cpp', 'drivers/txn.cpp']


def mn(a, b):
    return z3.If(a < b, a, b)


def mx(a, b):
    return z3.If(a < b, b, a)


class Model:
    def __init__(self, t, cls=WC):
        self.t, E = t, t.E
        self.E = E
        files.install(E)
        s = self.s = t.state()
        g = s.ghost
        self.conn = s.sym(CN, 'connection')
        self.j = s.sym(WJ, 'journal')
        E.iface[WJ] = {'valid_data': self.write, 'timestamp': self.write, 'soft_checkpoint': self.checkpoint, 'hard_checkpoint': self.checkpoint}
        self.rj = self.j.add(Lin(E.M.field(WJ, 'checkpoint_position')[0] - E.M.field(RJ, 'checkpoint_position')[0]))
        self.cp0 = self.cp(s)
        s.assume(z3.And(self.cp0 >= 41, self.cp0 < BIG))
        self.end = t.var('end')         # where the journal is written up to
        s.assume(z3.And(self.end >= self.cp0, self.end < BIG))
        g['end'] = self.end
        g['S'] = self.S0 = t.var('S')
        g['last'] = z3.BitVecVal(41, 64)     # what the connection last returned
        g['K'] = self.K0 = t.var('K')
        s.assume(z3.And(self.S0 >= 41, self.S0 < BIG, self.K0 >= 41, self.K0 <= self.cp0, self.K0 <= self.S0))
        g['locked'] = g['tail'] = False
        g['read'] = False
        g['pushed'] = 0
        g['failed'] = ''        # the call of the connection that failed, which leaves it unusable
        E.iface[CN] = {'pull': self.pull, 'push': self.push, 'handshake': self.handshake, 'unlock': self.unlock}
        E.contracts += [(r'^joedb::Tail_Exclusive_Lock::Tail_Exclusive_Lock\(', self.tail, 'Tail_Exclusive_Lock (C08)'),
                        (r'^joedb::Tail_Exclusive_Lock::~Tail_Exclusive_Lock\(', self.untail, 'Tail_Exclusive_Lock (C08)'),
                        (r'^joedb::Writable_Journal::(valid_data|timestamp)\(', self.write, 'Writable_Journal::valid_data, timestamp (C02)'),
                        (r'^joedb::Writable_Journal::(soft|hard)_checkpoint\(', self.checkpoint, 'Writable_Journal::soft_checkpoint, hard_checkpoint (C05)'),
                        (r'^joedb::Destructor_Logger::', lambda E, s, a, ins: None, 'Destructor_Logger'),
                        (r'^time$', lambda E, s, a, ins: fresh('time', 64), 'time'),
                        (r'^verif::body(_value)?\(', self.body, 'the body of the transaction')]
        E.iface[CL] = {'read_journal': self.read}
        self.client = None
        if cls:
            self.attach(cls)

    def attach(self, cls):
        s = self.s
        c = self.client = s.sym(cls, 'client')
        s.put(c, CL, 'journal', self.rj)
        s.put(c, CL, 'connection', self.conn)
        self.cc0 = self.cc(s)
        # what the client knows about the server
        s.ghost['last'] = self.cc0
        s.assume(z3.And(self.cc0 >= 41, self.cc0 <= self.S0, self.K0 >= mn(self.cc0, self.cp0)))
        if cls == AC:
            s.wobj(c.obj).meta = None

    def cp(self, s):
        return bv(s.get(self.j, WJ, 'checkpoint_position'), 64)

    def cc(self, s):
        return bv(s.get(self.client, CL, 'connection_checkpoint'), 64)

    def inv(self, s):
        """the client never believes more than it shares with the server"""
        g = s.ghost
        return z3.And(self.cc(s) <= g['S'], g['K'] >= mn(self.cc(s), self.cp(s)), g['K'] <= self.cp(s), g['K'] <= g['S'])

    # --- the connection
    def usable(self, E, s, what):
        E.prove(s, z3.BoolVal(not s.ghost['failed']), 'pre', what + ': the connection has not failed')

    def others(self, s):
        """what other clients may do while the connection is not locked"""
        g = s.ghost
        if not g['locked']:
            n = fresh('S', 64)
            s.assume(z3.And(n >= g['S'], n < BIG))
            g['S'] = n

    def failing(self, s, what):
        x = s.fork()
        x.ghost['failed'] = what
        return ('exc', x, files.EXC)

    def pull(self, E, s, a, ins):
        lock, data = bv(a[1], 32), bv(a[2], 32)
        g = s.ghost
        E.prove(s, bool(a[3].obj == self.j.obj), 'pre', 'pull: into the journal of the client')
        E.prove(s, z3.And(z3.ULE(lock, 1), z3.ULE(data, 1)), 'pre', 'pull: arguments')
        E.prove(s, z3.BoolVal(g['tail']), 'pre', 'pull: the tail of the journal is locked')
        out = []
        # a pull that fails does not hold the lock it wanted
        out.append(self.failing(s, '') if True else None)
        for L in (False, True):
            for D in (False, True):
                b = s.fork()
                if not E.feasible(s, z3.And(lock == int(L), data == int(D))):
                    continue
                b.assume(z3.And(lock == int(L), data == int(D)))
                g = b.ghost
                if L:
                    E.prove(b, z3.BoolVal(not g['locked']), 'pre', 'pull: the connection is locked once')
                self.others(b)
                if L:
                    g['locked'] = True
                if D:
                    cp = self.cp(b)
                    E.prove(b, z3.Or(g['S'] <= cp, g['K'] == cp), 'pre', 'pull: data is appended only to a journal that is a prefix of the server')
                    ncp = mx(cp, g['S'])
                    b.put(self.j, WJ, 'checkpoint_position', z3.simplify(ncp))
                    g['K'] = z3.simplify(z3.If(g['S'] > cp, g['S'], g['K']))
                    g['end'] = z3.simplify(mx(g['end'], ncp))
                    g['read'] = False
                g['last'] = g['S']
                out.append(('ret', b, g['S']))
        return en.Outs(out)

    def push(self, E, s, a, ins):
        frm, until, how = bv(a[2], 64), bv(a[3], 64), bv(a[4], 32)
        g = s.ghost
        E.prove(s, bool(a[1].obj == self.j.obj), 'pre', 'push: the journal of the client')
        E.prove(s, z3.ULE(how, 1), 'pre', 'push: arguments')
        E.prove(s, z3.And(frm <= until, until <= self.cp(s)), 'pre', 'push: an existing range')
        E.prove(s, z3.And(frm <= g['K'], z3.Implies(frm < until, frm <= g['S'])), 'pre', 'push: only what follows the common history')
        out = [self.failing(s, 'push')]
        self.others(s)
        # refused unless it starts at the checkpoint of the server
        s.assume(frm == g['S'])
        for U in (False, True):
            b = s.fork()
            if not E.feasible(s, how == int(U)):
                continue
            b.assume(how == int(U))
            b.ghost['S'] = b.ghost['last'] = until
            b.ghost['K'] = until
            b.ghost['pushed'] += 1
            if U:
                b.ghost['locked'] = False
            out.append(('ret', b, until))
        return en.Outs(out)

    def handshake(self, E, s, a, ins):
        E.prove(s, bool(a[1].obj == self.j.obj), 'pre', 'handshake: the journal of the client')
        x = self.failing(s, '')
        check = bv(a[2], 32)
        g = s.ghost
        g['check'] = check
        # H: the checkpoint that the server had when it was last asked
        h = fresh('H', 64)
        s.assume(z3.And(h >= 41, h <= g['S'], h >= g['last']))
        if g['locked']:
            s.assume(h == g['S'])
        c = mn(self.cp(s), h)
        g['K'] = z3.simplify(mx(g['K'], z3.If(check != 0, c, g['K'])))
        return en.Outs([x, ('ret', s, h)])

    def unlock(self, E, s, a, ins):
        E.prove(s, z3.BoolVal(s.ghost['locked']), 'pre', 'unlock: the connection is locked')
        x = s.fork()
        x.ghost['locked'] = False
        s.ghost['locked'] = False
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    # --- the local journal
    def tail(self, E, s, a, ins):
        x = s.fork()
        E.prove(s, z3.BoolVal(not s.ghost['tail']), 'pre', 'the tail is locked once')
        s.ghost['tail'] = True
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def untail(self, E, s, a, ins):
        E.prove(s, z3.BoolVal(s.ghost['tail']), 'pre', 'the tail is unlocked once')
        s.ghost['tail'] = False
        return None

    def write(self, E, s, a, ins):
        self.writable(E, s)
        x = s.fork()
        for b in (x, s):
            n = fresh('end', 64)
            b.assume(z3.And(n >= b.ghost['end'], n < BIG))
            b.ghost['end'] = n
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def writable(self, E, s):
        E.prove(s, z3.BoolVal(s.ghost['tail']), 'pre', 'the journal is written with its tail locked')
        E.prove(s, z3.BoolVal(s.ghost['locked']), 'pre', 'the journal is written with the connection locked')

    def checkpoint(self, E, s, a, ins):
        x = s.fork()
        s.put(self.j, WJ, 'checkpoint_position', s.ghost['end'])
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def read(self, E, s, a, ins):
        x = s.fork()
        s.ghost['read'] = True
        return en.Outs([('exc', x, files.EXC), ('ret', s, None)])

    def body(self, E, s, a, ins):
        self.writable(E, s)
        E.prove(s, z3.BoolVal(s.ghost['read']), 'pre', 'the body starts with everything that was pulled')
        E.prove(s, self.cp(s) >= s.ghost['S'], 'pre', 'the body starts from the latest data of the server')
        x = s.fork()
        for b in (x, s):
            n = fresh('end', 64)
            b.assume(z3.And(n >= b.ghost['end'], n < BIG))
            b.ghost['end'] = n
        s.ghost['done'] = True
        v = None
        if 'ty' in ins and ins['ty'] != 'void':
            v = self.result
        return en.Outs([('exc', x, files.EXC), ('ret', s, v)])


def released(t, o, msg):
    t.prove(o.s, z3.BoolVal(not o.s.ghost['tail']), msg + ': the tail of the journal is unlocked')


def txn(which):
    def f(t):
        m = Model(t, WC if which == 'pull_push' else AC)
        m.result = t.var('result')
        for o in t.call(m.s, r'^verif::%s\(' % which, [m.client]):
            g = o.s.ghost
            released(t, o, which)
            t.prove(o.s, m.inv(o.s), 'the client knows what it shares with the server')
            if o.ret:
                t.prove(o.s, z3.BoolVal(g['pushed'] == 1), 'pushed once')
                t.prove(o.s, z3.And(g['S'] == m.cp(o.s), m.cp(o.s) == g['end'], m.cc(o.s) == g['S']), 'everything written is checkpointed and pushed')
                t.prove(o.s, z3.BoolVal(not g['locked']), 'the connection is unlocked')
                if which != 'pull_push':
                    t.prove(o.s, z3.BoolVal(g.get('done', False)), 'the body was executed')
                if which.endswith('value'):
                    t.prove(o.s, bv(o.v, 64) == m.result, 'returns the value of the body')
            else:
                t.prove(o.s, z3.BoolVal(g['pushed'] == 0), 'a transaction that fails publishes nothing')
                t.prove(o.s, z3.BoolVal(bool(g['failed']) or not g['locked']), 'a transaction that fails gives the lock of the connection back')
    f.__name__ = which
    f.__doc__ = which + ': pull, read, body, checkpoint, push; on failure nothing is published and both locks are given back'
    f.__module__ = __name__
    return f


for _w in ('transaction', 'transaction_value', 'pull_push'):
    task('C20 C18', SRC)(txn(_w))


@task('C18 C20', SRC)
def pull(t):
    """Writable_Client::pull: data is appended only to a journal that is a prefix of the server's; no lock is kept"""
    m = Model(t)
    for o in t.call(m.s, r'^verif::pull\(', [m.client, t.var('wait')]):
        released(t, o, 'pull')
        t.prove(o.s, m.inv(o.s), 'the client knows what it shares with the server')
        t.prove(o.s, z3.BoolVal(not o.s.ghost['locked'] and o.s.ghost['pushed'] == 0), 'nothing is locked or published')
        if o.ret:
            t.prove(o.s, bv(o.v, 64) == m.cp(o.s) - m.cp0, 'number of bytes pulled')
            t.prove(o.s, z3.BoolVal(o.s.ghost['read']), 'the journal is read')
            t.prove(o.s, m.cc(o.s) >= m.cc0, 'the checkpoint of the connection advances')


@task('C18', SRC)
def push_if_ahead(t):
    """push_if_ahead sends what the server misses, up to the position asked, only if the local journal is ahead"""
    m = Model(t)
    until = t.var('until')
    m.s.assume(until >= m.cc0)
    for o in t.call(m.s, r'^verif::push_if_ahead\(', [m.client, until]):
        t.prove(o.s, m.inv(o.s), 'the client knows what it shares with the server')
        t.prove(o.s, m.cp(o.s) == m.cp0, 'the local checkpoint does not move')
        if o.ret:
            ahead = m.cp0 > m.cc0
            t.prove(o.s, z3.BoolVal(o.s.ghost['pushed'] == 1) == ahead, 'pushed only if ahead')
            t.prove(o.s, bv(o.v, 64) == m.cc(o.s), 'returns the checkpoint of the connection')
            t.prove(o.s, z3.Implies(ahead, m.cc(o.s) == mn(until, m.cp0)), 'up to the position asked')


@task('C18', SRC)
def construct(t):
    """a client is connected only by a handshake with the check that was asked for"""
    m = Model(t, None)
    s = m.s
    check = t.var('check', 32)
    s.assume(z3.ULE(check, 2))
    c = m.client = s.sym(WC, 'client')
    s.ghost['check'] = None
    for o in t.call(s, r'^verif::construct\([^)]*\)$', [c, m.j, m.conn, check]):
        if o.ret:
            t.prove(o.s, z3.BoolVal(o.s.ghost['check'] is not None), 'a handshake was made')
            if o.s.ghost['check'] is not None:
                t.prove(o.s, o.s.ghost['check'] == check, 'with the check asked for')
                t.prove(o.s, z3.Implies(check != 0, m.inv(o.s)), 'the client knows what it shares with the server')
            t.prove(o.s, m.cp(o.s) == m.cp0, 'the journal is unchanged')


class Locked(Model):
    """a Client_Lock that holds both locks"""
    def __init__(self, t, locked=True):
        Model.__init__(self, t)
        s = self.s
        l = self.l = s.sym(LK, 'lock')
        s.put(l, LK, 'client', self.client)
        s.put(l, LK, 'locked', 1 if locked else 0)
        g = s.ghost
        g['tail'], g['locked'], g['read'] = True, locked, True
        # established by the constructor, kept by the other functions
        s.assume(z3.And(self.cc0 == self.S0, self.cp0 >= self.S0, self.K0 >= self.S0))

    def holds(self, s):
        return bv(s.get(self.l, LK, 'locked'), 8) != 0


@task('C20 C18', SRC)
def lock_construct(t):
    """Client_Lock: both locks are held and the journal is up to date, or it throws and neither is held"""
    m = Model(t)
    l = m.s.sym(LK, 'lock')
    for o in t.call(m.s, r'^verif::lock_construct\(', [l, m.client]):
        g = o.s.ghost
        t.prove(o.s, m.inv(o.s), 'the client knows what it shares with the server')
        if o.ret:
            t.prove(o.s, z3.BoolVal(g['locked'] and g['tail'] and g['read']), 'locked and read')
            t.prove(o.s, bv(o.s.get(l, LK, 'locked'), 8) != 0, 'known to be locked')
            t.prove(o.s, z3.And(m.cc(o.s) == g['S'], m.cp(o.s) >= g['S'], g['K'] >= g['S']), 'up to date')
        else:
            t.prove(o.s, z3.BoolVal(not g['locked'] and not g['tail']), 'no lock is kept')


def lock_op(name, push, unlock, check):
    def f(t):
        m = Locked(t)
        for o in t.call(m.s, r'^verif::lock_%s\(' % name, [m.l]):
            g = o.s.ghost
            t.prove(o.s, m.inv(o.s), 'the client knows what it shares with the server')
            t.prove(o.s, z3.BoolVal(g['tail']), 'the tail stays locked')
            if not o.ret:
                if name != 'unlock':
                    t.prove(o.s, m.holds(o.s), 'a failure leaves the lock to the destructor')
                continue
            t.prove(o.s, m.holds(o.s) == z3.BoolVal(g['locked']), 'knows whether it is locked')
            t.prove(o.s, z3.BoolVal(g['locked'] == (not unlock)), 'locked or not')
            if check:
                t.prove(o.s, m.cp(o.s) == g['end'], 'checkpointed')
            if push:
                t.prove(o.s, z3.And(g['S'] == m.cp(o.s), m.cc(o.s) == g['S']), 'pushed up to the checkpoint')
            else:
                t.prove(o.s, z3.BoolVal(g['pushed'] == 0), 'nothing is published')
    f.__name__ = 'lock_' + name
    f.__doc__ = 'Client_Lock::' + name
    f.__module__ = __name__
    return f


for _a in (('checkpoint', 0, 0, 1), ('push_if_ahead', 1, 0, 0), ('checkpoint_and_push', 1, 0, 1), ('checkpoint_and_push_unlock', 1, 1, 1), ('unlock', 0, 1, 0)):
    task('C20', SRC)(lock_op(*_a))


def destroy(locked):
    def f(t):
        m = Locked(t, locked)
        for o in t.call(m.s, r'^verif::lock_destroy\(', [m.l]):
            t.prove(o.s, z3.BoolVal(o.ret), 'no exception leaves the destructor')
            t.prove(o.s, z3.BoolVal(not o.s.ghost['locked'] and not o.s.ghost['tail']), 'both locks are given back')
            t.prove(o.s, z3.BoolVal(o.s.ghost['pushed'] == 0), 'nothing is published')
    f.__name__ = 'lock_destroy' + ('_locked' if locked else '')
    f.__doc__ = 'the destructor of Client_Lock gives both locks back and publishes nothing'
    f.__module__ = __name__
    return f


for _l in (False, True):
    task('C20', SRC)(destroy(_l))
