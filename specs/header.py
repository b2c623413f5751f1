"""Contract of Abstract_File refined with the journal header: the four
checkpoint slots as seen by readers (V) and as they may be found on disk after
a crash (D: each write independently reaches the disk or not, slots being
written atomically), the durable size W, the completely written size B and the
locks."""
import z3
import engine as en
import files
import buffer as fb
from terms import *
from files import gf, gset

RJ, WJ = 'joedb::Readonly_Journal', 'joedb::Writable_Journal'
BIG = 1 << 60
LAST = (1 << 63) - 1


class Slots(Arr):
    """file contents whose first 32 bytes are four little-endian words"""

    def __init__(self, V, body):
        self.w = 8
        self.V, self.body = list(V), body
        self.bytes = [z3.Extract(8 * k + 7, 8 * k, v) for v in V for k in range(8)]

    def _sel(self, i):
        c = i.const()
        if c is not None:
            c &= (1 << 64) - 1
            return self.bytes[c] if c < 32 else self.body.sel(i)
        x = i.bv()
        r = bv(self.body.sel(i), 8)
        for k in range(31, -1, -1):
            r = z3.If(x == k, self.bytes[k], r)
        return r


class Model:
    def __init__(self, t, s, f, name='file'):
        self.t, self.E, self.f = t, t.E, f
        E = t.E
        self.k = ('hdr', f.obj)
        s.ghost[self.k] = dict(V=[t.var('V%d' % i) for i in range(4)], D=[t.var('D%d' % i) for i in range(4)],
                               W=t.var('W'), B=t.var('B'), head=0, tail=0, io=False)
        self.sync_arr(s)
        self.check = None      # called at every point where a crash or a reader can intervene
        self.floor = None      # C06: data writes at or after this position
        self.log = None
        self.slots = True
        self.small_reads = False
        E.iface[files.AF] = dict(E.iface[files.AF], pwrite=self.pwrite, pread=self.pread, sync=self.sync, datasync=self.datasync,
                                 shared_lock=self.shared_lock, exclusive_lock=self.exclusive_lock, unlock=self.unlock)

    def g(self, s):
        return s.ghost[self.k]

    def set(self, s, **kw):
        s.ghost[self.k] = dict(s.ghost[self.k], **kw)

    def sync_arr(self, s):
        a = gf(s, self.f, 'arr')
        if isinstance(a, Slots):
            a = a.body
        gset(s, self.f, 'arr', Slots(self.g(s)['V'], a))

    def ev(self, s, what):
        if self.check:
            self.check(s, what)

    def mine(self, p):
        return p.obj == self.f.obj

    def pread(self, E, s, a, ins):
        if not self.mine(a[0]):
            return files.m_pread(E, s, a, ins)
        off, n = lin(a[3]), lin(a[2])
        if off.const() == 0:
            self.t.prove(s, self.g(s)['head'] != 0 or self.g(s)['tail'] != 0, 'the header is read under a lock', 'pre')
        r = files.m_pread(E, s, a, ins)
        for kind, st, v in r.items:
            if kind == 'exc':
                self.set(st, io=True)
        if n.const() is not None and n.const() <= 64 and self.small_reads:
            # documented: small reads are not truncated
            for kind, st, v in r.items:
                if kind == 'ret':
                    sz = bv(gf(st, self.f, 'size'), 64)
                    st.assume(z3.Implies(off.bv() + n.bv() <= sz, bv(v, 64) == n.bv()))
        return r

    def pwrite(self, E, s, a, ins):
        if not self.mine(a[0]):
            return files.m_pwrite(E, s, a, ins)
        buf, n, off = a[1], lin(a[2]), lin(a[3])
        off, n = lin(simp(off.bv())), lin(simp(n.bv()))
        nc = n.const()
        if nc == 8 and off.const() is None:
            # a slot chosen at run time
            vals = E.enum_values(s, off, 6)
            if vals is not None and all(v < 41 for v in vals):
                items = []
                for v in vals:
                    s2 = s.fork()
                    s2.assume(off.bv() == v)
                    items += self.head_write(E, s2, buf, nc, v).items
                return en.Outs(items)
        if off.const() is not None and nc is not None and off.const() < 41:
            return self.head_write(E, s, buf, nc, off.const())
        c = z3.BoolVal(True)
        if self.floor is not None:
            c = z3.Or(n.bv() == 0, z3.And(off.bv() >= self.floor, off.bv() >= 41))
        self.t.prove(s, c, 'no byte before the checkpoint is written', 'pre')
        r = files.m_pwrite(E, s, a, ins)
        for kind, st, v in r.items:
            if kind == 'ret':
                B = self.g(st)['B']
                end = off.bv() + n.bv()
                self.set(st, B=simp(z3.If(z3.And(off.bv() <= B, end > B), end, B)))
            else:
                self.set(st, io=True)
        return r

    def head_write(self, E, s, buf, n, off):
        g = self.g(s)
        if off + n <= 32:
            self.t.prove(s, n == 8 and off % 8 == 0, 'header writes address one checkpoint slot', 'pre')
            self.t.prove(s, g['head'] == 2, 'the header is written under the exclusive head lock', 'pre')
            if not (n == 8 and off % 8 == 0):
                raise en.Unsupported('header write of %d bytes at %d' % (n, off))
            k = off // 8
            val = bv(E.load(s, buf, 8), 64)
            e = s.fork()
            c, d, d2 = fresh_bool('wr'), fresh_bool('disk'), fresh_bool('disk')
            V, D = list(g['V']), list(g['D'])
            V[k] = z3.If(c, val, V[k])
            D[k] = z3.If(z3.And(c, d), val, D[k])
            self.set(e, V=V, D=D, io=True)
            self.sync_arr(e)
            V, D = list(g['V']), list(g['D'])
            V[k], D[k] = val, z3.If(d2, val, D[k])
            self.set(s, V=V, D=D)
            self.sync_arr(s)
            self.ev(e, 'interrupted header write')
            self.ev(s, 'header write')
            return en.Outs([('exc', e, files.EXC), ('ret', s, None)])
        if off >= 32:
            # version and signature: must not change
            arr, ai = E.read_byte_array(s, buf, Lin(n))
            cur = gf(s, self.f, 'arr')
            sig = list((5).to_bytes(4, 'little') + b'joedb')
            for i in range(n):
                self.t.prove(s, bv(arr.sel(ai.add(Lin(i))), 8) == sig[off - 32 + i], 'the signature keeps its value', 'pre')
            e = s.fork()
            self.set(e, io=True)
            return en.Outs([('exc', e, files.EXC), ('ret', s, None)])
        raise en.Unsupported('header write of %d bytes at %d' % (n, off))

    def sync(self, E, s, a, ins, data=False):
        e = s.fork()
        self.set(e, io=True)
        g = self.g(s)
        self.set(s, D=list(g['V']))
        if not data:
            self.set(s, W=bv(gf(s, self.f, 'size'), 64))
        self.ev(s, 'sync')
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])

    def datasync(self, E, s, a, ins):
        return self.sync(E, s, a, ins, True)

    def which(self, a):
        st, n = lin(a[1]).const(), lin(a[2]).const()
        if n != 1 or st not in (0, LAST):
            raise en.Unsupported('lock range')
        return 'head' if st == 0 else 'tail'

    def lock(self, E, s, a, v):
        w = self.which(a)
        self.t.prove(s, self.g(s)[w] == 0, 'the %s lock is not already held' % w, 'pre')
        e = s.fork()
        self.set(e, io=True)
        self.set(s, **{w: v})
        if w == 'tail':
            self.got_tail(s)
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])

    def got_tail(self, s):
        pass

    def shared_lock(self, E, s, a, ins):
        return self.lock(E, s, a, 1)

    def exclusive_lock(self, E, s, a, ins):
        return self.lock(E, s, a, 2)

    def unlock(self, E, s, a, ins):
        w = self.which(a)
        self.t.prove(s, self.g(s)[w] != 0, 'only a held %s lock is released' % w, 'pre')
        self.set(s, **{w: 0})
        return None


def pairs(X, hi):
    q = 1 - hi
    return X[2 * hi], X[2 * hi + 1], X[2 * q], X[2 * q + 1]


def visible(V, hi, H, B):
    """G: what readers can see is complete (see DESIGN)"""
    h0, h1, a, b = pairs(V, hi)
    return z3.And(h0 == H, h1 == H, z3.Implies(a == b, a <= B), -a <= B, -b <= B, a >= -BIG, b >= -BIG, a < BIG, b < BIG)


def durable(D, hi, H, W):
    """R: after a crash, the hard checkpoint survives and no checkpoint exceeds the durable size"""
    h0, h1, a, b = pairs(D, hi)
    return z3.And(h0 == H, h1 == H, H <= W, b <= W, a >= -BIG, b >= -BIG, a < BIG)


def exact(V, hi, si, C, H):
    """F: a reader finds exactly (C, H)"""
    h0, h1, a, b = pairs(V, hi)
    q = 1 - hi
    return z3.And(h0 == H, h1 == H, H >= 41, H <= C, z3.Implies(a == b, a <= H), -a <= C, -b <= C, a >= -BIG, b >= -BIG,
                  z3.Implies(C > H, -V[2 * q + si] == C))
