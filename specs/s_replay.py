"""C24: the replay loop. One operation is replayed by one_step, which starts at
the current position and ends at a later one (that it delivers exactly the
operation written there is C03)."""
import z3
import engine as en
import files
from header import RJ, BIG
from terms import *
from task import task
from s_journal import WR, FBUF

SRC = ['joedb/journal/Readonly_Journal.cpp', 'drivers/journal.cpp']
CTX = (('table_of_last_operation', 16, 0), ('record_of_last_operation', 64, -1), ('field_of_last_update', 16, 0))


class Play:
    def __init__(self, t, end=None, skip=True):
        E, self.t = t.E, t
        files.install(E)
        s = self.s = t.state()
        self.j, self.w = s.sym(RJ, 'journal'), s.sym(WR, 'receiver', 64)
        self.cp = s.get(self.j, RJ, 'checkpoint_position')
        self.pos, self.wpos = t.var('position'), t.var('receiver position')
        self.end = end if end is not None else t.var('end')
        if isinstance(self.end, str):
            self.end = bv(self.cp, 64)
        self.skip = skip
        for v in (bv(self.cp, 64), self.pos, self.wpos, self.end):
            s.assume(z3.And(v >= 0, v < BIG))
        s.ghost['pos'] = self.pos
        s.ghost['seek'] = z3.BitVecVal(0, 64)     # number of repositionings
        s.ghost['started'] = z3.BitVecVal(0, 64)
        s.ghost['ended'] = z3.BitVecVal(0, 64)
        s.ghost['ckpt'] = z3.BitVecVal(0, 64)
        E.contracts += [(r'joedb::Readonly_Journal::one_step\(', self.one_step, 'Readonly_Journal::one_step (C03)'),
                        (FBUF + r'get_position\(', lambda E, s, a, ins: s.ghost['pos'], 'File_Buffer::get_position (C02)'),
                        (FBUF + r'set_position\(', self.set_position, 'File_Buffer::set_position (C02)'),
                        (FBUF + r'flush\(', lambda E, s, a, ins: None, 'File_Buffer::flush (C02)')]
        E.iface[WR] = {'*': self.method}
        E.loop_cands += [self.still]

    def still(self, E, lp):
        # if nothing was to be replayed, nothing has been
        def f(g):
            p, p0 = g.s.ghost['pos'], g.s0.ghost['pos']
            return z3.Or(p == p0, p0 < self.end)
        return [en.Cand('nothing to replay', f, True)]

    def set_position(self, E, s, a, ins):
        s.ghost['pos'] = bv(a[1], 64)
        s.ghost['seek'] = s.ghost['seek'] + 1

    def one_step(self, E, s, a, ins):
        p = s.ghost['pos']
        E.prove(s, p < self.end, 'pre', 'an operation is replayed only if it starts before the end')
        if isinstance(a[1], Ptr) and a[1].obj == self.w.obj:
            if self.skip:
                E.prove(s, p >= self.wpos, 'pre', 'an operation the receiver already has is not delivered')
                E.prove(s, z3.And(s.ghost['started'] == 1, s.ghost['ended'] == 0), 'pre', 'operations are delivered between start_writing and end_writing')
        else:
            E.prove(s, z3.BoolVal(self.skip), 'pre', 'operations are delivered to the receiver given')
            E.prove(s, p < self.wpos, 'pre', 'an operation is skipped only if the receiver already has it')
        e = s.fork()
        q = fresh('next', 64)
        s.assume(z3.And(q > p, q < BIG + 1))
        s.ghost['pos'] = q
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])

    def method(self, E, s, a, ins, meth):
        if meth == 'get_position':
            return self.wpos
        p = s.ghost['pos']
        if meth == 'start_writing':
            E.prove(s, bv(a[1], 64) == p, 'pre', 'start_writing gets the position of the first operation delivered')
            s.ghost['started'] = s.ghost['started'] + 1
        elif meth == 'end_writing':
            E.prove(s, bv(a[1], 64) == p, 'pre', 'end_writing gets the position after the last operation delivered')
            E.prove(s, s.ghost['started'] == 1, 'pre', 'end_writing after start_writing')
            s.ghost['ended'] = s.ghost['ended'] + 1
        elif meth == 'soft_checkpoint':
            E.prove(s, z3.Or(s.ghost['ended'] == s.ghost['started']), 'pre', 'the receiver is checkpointed after the last operation')
            s.ghost['ckpt'] = s.ghost['ckpt'] + 1
        elif meth == 'comment':
            pass
        else:
            E.prove(s, z3.BoolVal(False), 'pre', 'the replay loop calls %s' % meth)
        e = s.fork()
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])

    def done(self, outs, end, start=None, seeks=0, empty=True):
        t = self.t
        for o in outs:
            g = o.s.ghost
            t.prove(o.s, g['seek'] == seeks, 'no operation is replayed twice or jumped over')
            if not o.ret:
                continue
            t.prove(o.s, g['pos'] >= end, 'everything before the end has been replayed')
            if empty and start is not None:
                t.prove(o.s, z3.Implies(start >= end, g['pos'] == start), 'nothing is replayed past the end')
            if self.skip:
                t.prove(o.s, z3.And(g['started'] == g['ended'], z3.ULE(g['started'], 1)), 'start_writing and end_writing are balanced')


@task('C24', SRC)
def raw_play_until(t):
    """raw_play_until executes every operation from the position to the end, and stops"""
    p = Play(t, skip=False)
    p.done(t.call(p.s, r'^joedb::Readonly_Journal::raw_play_until\(', [p.j, p.w, p.end]), p.end, p.pos)


@task('C24', SRC)
def play_until(t):
    """play_until: skips what the receiver has, delivers the rest, stops at the end"""
    p = Play(t)
    p.done(t.call(p.s, r'^joedb::Readonly_Journal::play_until\(', [p.j, p.w, p.end]), p.end, p.pos)


@task('C24', SRC)
def replay_log(t):
    """replay_log: rewinds, then plays until the checkpoint"""
    p = Play(t, end='checkpoint')
    outs = t.call(p.s, r'^joedb::Readonly_Journal::replay_log\(', [p.j, p.w])
    p.done(outs, p.end, z3.BitVecVal(41, 64), seeks=1)


@task('C24', SRC)
def replay_with_checkpoint_comments(t):
    """replay_with_checkpoint_comments: the same, with comments, from the start"""
    p = Play(t, end='checkpoint', skip=False)
    outs = t.call(p.s, r'^joedb::Readonly_Journal::replay_with_checkpoint_comments\(', [p.j, p.w])
    p.done(outs, p.end, z3.BitVecVal(41, 64), seeks=1)


@task('C24', SRC)
def rewind(t):
    """rewind: position of the first operation, initial context"""
    p = Play(t)
    for o in t.call(p.s, r'^joedb::Readonly_Journal::rewind\(', [p.j]):
        t.prove(o.s, z3.BoolVal(o.ret), 'does not fail')
        t.prove(o.s, o.s.ghost['pos'] == 41, 'position of the first operation')
        for n, w, v in CTX:
            t.prove(o.s, bv(o.s.get(p.j, RJ, n), w) == z3.BitVecVal(v, w), 'initial ' + n)
