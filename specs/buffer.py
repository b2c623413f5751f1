"""Abstract state of joedb::File_Buffer, shared by several specifications.

Write mode: the abstract file is the file overlaid by the buffered bytes, the
position is after them. Read mode: the buffer caches a range of the file."""
import z3
import engine as en
import files
import lib
from terms import *
from files import gf, gset

FB = 'joedb::File_Buffer'
BIG = 1 << 60
SIZE = 4096


def fget(s, b, name):
    return bv(s.get(b, FB, name), 64)


def data_ptr(E, b):
    off, size, ty = E.M.field(FB, 'buffer.data')
    return b.add(Lin(off)), size


def buf_arr(E, s, b):
    p, n = data_ptr(E, b)
    return E.read_byte_array(s, p, Lin(n))


def new(E, s, f, name='fb'):
    b = s.sym(FB, name)
    s.put(b, FB, 'file', f)
    return b


def scal(s, b):
    return fget(s, b, 'position'), fget(s, b, 'buffer.index'), fget(s, b, 'read_buffer_size')


def set_scal(s, b, pos, idx, rbs):
    s.put(b, FB, 'position', pos)
    s.put(b, FB, 'buffer.index', idx)
    s.put(b, FB, 'read_buffer_size', rbs)


def position(s, b):
    p, i, r = scal(s, b)
    return simp(p - r + i)


# ------------------------------------------------------------- write mode
def assume_write(E, s, b, name='fb'):
    pos, idx = z3.BitVec(fresh_name(name + '.position'), 64), z3.BitVec(fresh_name(name + '.index'), 64)
    E.inputs[name + '.position'], E.inputs[name + '.index'] = pos, idx
    s.assume(z3.And(pos >= 0, pos < BIG, idx >= 0, idx < SIZE))
    set_scal(s, b, pos, idx, 0)


class Overlay(Arr):
    """file contents overlaid by the write buffer"""

    def __init__(self, E, s, b, f):
        self.w = 8
        self.pos, self.idx, _ = scal(s, b)
        self.buf, self.bi = buf_arr(E, s, b)
        self.arr = gf(s, f, 'arr')

    def _sel(self, i):
        r = i.sub(lin(self.pos))
        return ite(lin_ult(r, lin(self.idx)), self.buf.sel(self.bi.add(r)), self.arr.sel(i), 8)


def abs_size(s, b, f):
    """size of the file once flushed"""
    pos, idx, _ = scal(s, b)
    n = bv(gf(s, f, 'size'), 64)
    return simp(z3.If(z3.And(idx != 0, pos + idx > n), pos + idx, n))


def inv_write(s, b):
    pos, idx, rbs = scal(s, b)
    return simp(z3.And(rbs == 0, z3.ULT(idx, SIZE), pos >= 0))


# -------------------------------------------------------------- read mode
def assume_read(E, s, b, f, name='fb'):
    pos, idx, rbs = [z3.BitVec(fresh_name(name + '.' + k), 64) for k in ('position', 'index', 'read_size')]
    for k, v in (('position', pos), ('index', idx), ('read_size', rbs)):
        E.inputs[name + '.' + k] = v
    set_scal(s, b, pos, idx, rbs)
    s.assume(z3.And(pos >= 0, pos < BIG, z3.ULE(idx, rbs), z3.ULE(rbs, SIZE), rbs <= pos,
                    z3.Or(rbs == 0, pos <= bv(gf(s, f, 'size'), 64))))
    a, ai = buf_arr(E, s, b)
    assume_cached(s, a, ai, pos, idx, rbs, gf(s, f, 'arr'))


def cached(a, ai, pos, idx, rbs, arr):
    def body(i):
        return z3.Implies(z3.And(z3.ULE(idx, i.bv()), z3.ULT(i.bv(), rbs)), lib.byte_eq(a, ai.add(i), arr, lin(pos).sub(lin(rbs)).add(i)))
    return body


def assume_cached(s, a, ai, pos, idx, rbs, arr):
    if not isinstance(a, Base) or ai.const() != 0:
        raise en.Unsupported('read buffer is not a plain array')
    s.assume_forall(a, cached(a, ai, pos, idx, rbs, arr))


def inv_read_scalar(s, b, f):
    pos, idx, rbs = scal(s, b)
    return simp(z3.And(z3.ULE(idx, rbs), z3.ULE(rbs, SIZE), rbs <= pos, pos >= 0,
                       z3.Or(rbs == 0, pos <= bv(gf(s, f, 'size'), 64))))


def prove_read(t, s, b, f, what=''):
    t.prove(s, inv_read_scalar(s, b, f), 'read buffer bounds' + what)
    a, ai = buf_arr(t.E, s, b)
    pos, idx, rbs = scal(s, b)
    t.forall(s, cached(a, ai, pos, idx, rbs, gf(s, f, 'arr')), 'unread part of the buffer caches the file' + what)


def contract_read_data(E, f, keep=None):
    """callee contract of File_Buffer::read_data (proved by C02 tasks)"""
    def h(E, s, a, ins):
        b, d, n = a[0], a[1], lin(a[2])
        E.prove(s, inv_read_scalar(s, b, f), 'pre', 'read_data: buffer invariant')
        p0 = position(s, b)
        arr = gf(s, f, 'arr')
        outs = []
        e = s.fork()
        try:
            E.write_bytes(e, d, n, Base('junk', 8), Lin(0), 'read_data destination')
            clobber(E, e, b)
            outs.append(('exc', e, files.EXC))
        except en.PathEnd:
            pass
        E.write_bytes(s, d, n, arr, lin(p0), 'read_data destination')
        s.assume(z3.Or(n.bv() == 0, p0 + n.bv() <= bv(gf(s, f, 'size'), 64)))
        clobber(E, s, b)
        s.assume(inv_read_scalar(s, b, f))
        s.assume(position(s, b) == p0 + n.bv())
        ba, bi = buf_arr(E, s, b)
        pos, idx, rbs = scal(s, b)
        assume_cached(s, ba, bi, pos, idx, rbs, arr)
        outs.append(('ret', s, n.val()))
        return en.Outs(outs)
    return (r'^joedb::File_Buffer::read_data\(', h, 'File_Buffer::read_data (proved: s_buffer.read_data)')


def clobber(E, s, b):
    """forget buffer contents and scalars"""
    p, n = data_ptr(E, b)
    set_scal(s, b, *[z3.BitVec(fresh_name('fb.' + k), 64) for k in ('position', 'index', 'read_size')])
    off = sx(p.off.c, 64)
    o = s.wobj(p.obj)
    for sg in o.segs:
        if sg.off == off and sg.stride == 1:
            sg.fields = {(0, 1): Base('fb.buffer', 8)}
            return
    raise en.Unsupported('layout of the read buffer')


def contract_append(E, f, rx, nbytes, byte, label):
    """callee contract of an appending function: nbytes(E,s,args) -> 64-bit count, byte(E,s,args,n) -> fn(Lin)->8-bit"""
    def h(E, s, a, ins):
        b = a[0]
        E.prove(s, inv_write(s, b), 'pre', label + ': buffer invariant')
        n = nbytes(E, s, a)
        by = byte(E, s, a, n)
        before = Overlay(E, s, b, f)
        p0, sz0 = position(s, b), abs_size(s, b, f)
        e = s.fork()
        clobber(E, e, b)
        gset(e, f, 'arr', Base('torn', 8))
        nn = lin(n)
        clobber(E, s, b)
        A = Base('file', 8)
        gset(s, f, 'arr', A)
        ns = fresh('size', 64)
        gset(s, f, 'size', ns)
        s.assume(z3.And(ns >= 0, ns < (1 << 61)))
        s.assume(inv_write(s, b))
        s.assume(position(s, b) == p0 + nn.bv())
        s.assume(abs_size(s, b, f) == z3.If(z3.And(nn.bv() != 0, p0 + nn.bv() > sz0), p0 + nn.bv(), sz0))
        after = Overlay(E, s, b, f)
        def body(i):
            return bv(after.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(p0)), nn), by(i.sub(lin(p0))), before.sel(i), 8), 8)
        s.assume_forall(A, body)
        s.assume_forall(after.buf, lambda j: body(lin(after.pos).add(j)))
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])
    return (rx, h, label)
