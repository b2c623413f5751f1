"""C14: every implementation of Abstract_File refines the interface contract."""
import z3
import engine as en
import files
import lib
import builtins_model as bm
from terms import *
from task import task

MEM = ['joedb/journal/Memory_File.cpp', 'drivers/files.cpp']
RO = ['drivers/files.cpp']
POS = ['joedb/journal/Posix_File.cpp']
STR = ['joedb/journal/Stream_File.cpp']
BIG = 1 << 60
EXC = '_ZTIN5joedb9ExceptionE'


def buf(s, name, n):
    o = s.bytes_obj(name, lin(n))
    return Ptr(o.id, 0)


def args(t, s):
    n, off = t.var('size'), t.var('offset')
    s.assume(z3.And(n >= 0, n < BIG, off >= 0))
    return n, off


def read_post(t, o, r, b, bi, n, off, arr, ai, size):
    """the contract of pread (specs/files.py)"""
    t.prove(o.s, z3.ULE(r, n), 'no more than asked')
    t.prove(o.s, z3.Implies(z3.Or(off >= size, n == 0), r == 0), 'nothing at or past the end')
    t.prove(o.s, z3.Implies(z3.And(off < size, n != 0), z3.And(r != 0, z3.ULE(r, size - off))), 'something before the end, nothing past it')
    t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), r), lib.byte_eq(b, bi.add(i), arr, ai.add(lin(off)).add(i))), 'the bytes are those of the file')


@task('C14', MEM)
def memory_pread(t):
    """Memory_File::pread refines the contract of Abstract_File::pread for every size, offset and contents"""
    E = t.E
    s = t.state()
    f = s.sym('joedb::Memory_File', 'file')
    n, off = args(t, s)
    d = f.add(Lin(E.M.field('joedb::Memory_File', 'data')[0]))
    bm.fresh_string(E, s, d, 'contents')
    arr, ai, ln = bm.str_arr(E, s, d)
    p = buf(s, 'buffer', n)
    for o in t.call(s, r'^joedb::Memory_File::pread\(', [f, p, n, off]):
        t.prove(o.s, bool(o.ret), 'does not throw')
        if o.ret:
            b, bi = E.read_byte_array(o.s, p, lin(n))
            read_post(t, o, bv(o.v, 64), b, bi, n, off, arr, ai, ln.bv())
            a2, i2, l2 = bm.str_arr(E, o.s, d)
            t.prove(o.s, l2.bv() == ln.bv(), 'size unchanged')
            t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), ln.bv()), lib.byte_eq(a2, i2.add(i), arr, ai.add(i))), 'contents unchanged')


@task('C14', MEM)
def memory_pwrite(t):
    """Memory_File::pwrite refines the contract of Abstract_File::pwrite (writes of at least one byte, or inside the file); bytes of a gap are zero"""
    E = t.E
    s = t.state()
    f = s.sym('joedb::Memory_File', 'file')
    n, off = args(t, s)
    d = f.add(Lin(E.M.field('joedb::Memory_File', 'data')[0]))
    bm.fresh_string(E, s, d, 'contents')
    arr, ai, ln = bm.str_arr(E, s, d)
    s.assume(z3.And(off < BIG, ln.bv() < BIG, z3.Or(n != 0, off <= ln.bv())))
    p = buf(s, 'buffer', n)
    b, bi = E.read_byte_array(s, p, lin(n))
    for o in t.call(s, r'^joedb::Memory_File::pwrite\(', [f, p, n, off]):
        if o.ret:
            a2, i2, l2 = bm.str_arr(E, o.s, d)
            t.prove(o.s, l2.bv() == z3.If(off + n > ln.bv(), off + n, ln.bv()), 'size extended as needed')
            t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.sub(lin(off)).bv(), n), lib.byte_eq(a2, i2.add(i), b, bi.add(i.sub(lin(off))))), 'the addressed bytes are the data')
            t.forall(o.s, lambda i: z3.Implies(z3.And(z3.ULT(i.bv(), ln.bv()), z3.Not(z3.ULT(i.sub(lin(off)).bv(), n))), lib.byte_eq(a2, i2.add(i), arr, ai.add(i))), 'no other byte changes')
            t.forall(o.s, lambda i: z3.Implies(z3.And(z3.UGE(i.bv(), ln.bv()), z3.ULT(i.bv(), off)), bv(a2.sel(i2.add(i)), 8) == 0), 'a gap is filled with zeros')


@task('C14', MEM)
def memory_size(t):
    """Memory_File::get_size is the number of bytes"""
    E = t.E
    s = t.state()
    f = s.sym('joedb::Memory_File', 'file')
    d = f.add(Lin(E.M.field('joedb::Memory_File', 'data')[0]))
    bm.fresh_string(E, s, d, 'contents')
    arr, ai, ln = bm.str_arr(E, s, d)
    for o in t.call(s, r'^joedb::Memory_File::get_size\(', [f]):
        t.prove(o.s, bool(o.ret) and bv(o.v, 64) == ln.bv(), 'size')


@task('C14', RO)
def readonly_pread(t):
    """Readonly_Memory_File::pread (also of File_Slice) refines the contract of Abstract_File::pread"""
    E = t.E
    s = t.state()
    C = 'joedb::Readonly_Memory_File'
    f = s.sym(C, 'file')
    n, off = args(t, s)
    size = t.var('data_size')
    s.assume(z3.And(size >= 0, size < BIG))
    m = buf(s, 'memory', size)
    arr, ai = E.read_byte_array(s, m, lin(size))
    s.put(f, C, 'data', m)
    s.put(f, C, 'data_size', size)
    p = buf(s, 'buffer', n)
    for o in t.call(s, r'^joedb::Readonly_Memory_File::pread\(', [f, p, n, off]):
        t.prove(o.s, bool(o.ret), 'does not throw')
        if o.ret:
            b, bi = E.read_byte_array(o.s, p, lin(n))
            read_post(t, o, bv(o.v, 64), b, bi, n, off, arr, ai, size)
    s = t.state()
    f = s.sym(C, 'file')
    s.put(f, C, 'data_size', size)
    for o in t.call(s, r'^joedb::Readonly_Memory_File::get_size\(', [f]):
        t.prove(o.s, bool(o.ret) and bv(o.v, 64) == size, 'size')


# --------------------------------------------------------------- posix
# assumed contracts of the system calls (POSIX: any short count, any error)

def sys_install(t, s, fd):
    E = t.E
    g = s.ghost
    g[('os', 'arr')] = Base('os.content', 8)
    n = t.var('os.size')
    s.assume(z3.And(n >= 0, n < BIG))
    g[('os', 'size')] = n
    g[('os', 'err')] = z3.BoolVal(False)
    bs = lambda o: 0

    def rd(E, s, a, ins):
        t.prove(s, bv(a[0], 32) == fd, 'system call on the descriptor of the file')
        b, n, off = a[1], lin(a[2]), lin(a[3])
        size, arr = bv(s.ghost[('os', 'size')], 64), s.ghost[('os', 'arr')]
        e = s.fork()
        e.ghost[('os', 'err')] = z3.BoolVal(True)
        r = fresh('sys.r', 64)
        o = off.bv()
        s.assume(z3.And(z3.ULE(r, n.bv()), z3.Implies(z3.Or(o >= size, n.bv() == 0), r == 0), z3.Implies(z3.And(o < size, n.bv() != 0), z3.And(r != 0, z3.ULE(r, size - o)))))
        E.write_bytes(s, b, n, Copy(Base('tail', 8), Lin(0), lin(r), arr, off), Lin(0), 'pread buffer')
        return en.Outs([('ret', e, z3.BitVecVal(-1, 64)), ('ret', s, r)])

    def wr(E, s, a, ins):
        t.prove(s, bv(a[0], 32) == fd, 'system call on the descriptor of the file')
        b, n, off = a[1], lin(a[2]), lin(a[3])
        size, arr = bv(s.ghost[('os', 'size')], 64), s.ghost[('os', 'arr')]
        src, si = E.read_byte_array(s, b, n, 'pwrite buffer')
        e = s.fork()
        e.ghost[('os', 'err')] = z3.BoolVal(True)
        r = fresh('sys.w', 64)
        s.assume(z3.And(z3.ULE(r, n.bv())))
        s.ghost[('os', 'arr')] = Copy(arr, off, lin(r), src, si)
        end = off.bv() + r
        s.ghost[('os', 'size')] = simp(z3.If(z3.And(r != 0, end > size), end, size))
        return en.Outs([('ret', e, z3.BitVecVal(-1, 64)), ('ret', s, r)])
    E.contracts += [(r'^pread(64)?$', rd, 'system call pread (assumed)'), (r'^pwrite(64)?$', wr, 'system call pwrite (assumed)'),
                    (r'^joedb::Posix_FD::throw_last_error\(', lambda E, s, a, ins: en.Outs([('exc', s, EXC)]), 'Posix_FD::throw_last_error throws (assumed)')]


def posix(t):
    s = t.state()
    C = 'joedb::Posix_FD'
    f = s.sym(C, 'file')
    fd = t.var('fd', 32)
    s.put(f, C, 'fd', fd)
    sys_install(t, s, fd)
    return s, f


@task('C14', POS)
def posix_pread(t):
    """Posix_FD::pread refines the contract of Abstract_File::pread; a failed system call throws"""
    E = t.E
    s, f = posix(t)
    n, off = args(t, s)
    p = buf(s, 'buffer', n)
    arr, size = s.ghost[('os', 'arr')], s.ghost[('os', 'size')]
    for o in t.call(s, r'^joedb::Posix_FD::pread\(', [f, p, n, off]):
        if o.ret:
            t.prove(o.s, z3.Not(o.s.ghost[('os', 'err')]), 'an error is never taken for success')
            b, bi = E.read_byte_array(o.s, p, lin(n))
            read_post(t, o, bv(o.v, 64), b, bi, n, off, arr, Lin(0), size)


@task('C14', POS)
def posix_pwrite(t):
    """Posix_FD::pwrite writes exactly all the bytes, whatever short counts the system call returns; a failed system call throws"""
    E = t.E
    s, f = posix(t)
    n, off = args(t, s)
    s.assume(off < BIG)
    p = buf(s, 'buffer', n)
    b, bi = E.read_byte_array(s, p, lin(n))
    a0, z0 = s.ghost[('os', 'arr')], s.ghost[('os', 'size')]

    def cands(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue

            def f(g, k=k):
                cur = g.s.ghost[('os', 'arr')]
                hi = lin(g.cur(k))
                return [cur], lambda i: bv(cur.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(off)), hi), b.sel(bi.add(i.sub(lin(off)))), a0.sel(i), 8), 8)
            out.append(en.QCand('written so far', f, True))

            def h(g, k=k):
                end = off + bv(g.cur(k), 64)
                return bv(g.s.ghost[('os', 'size')], 64) == z3.If(z3.And(bv(g.cur(k), 64) != 0, end > z0), end, z0)
            out.append(en.Cand('size so far', h, True))
        return out
    E.loop_cands += [cands]
    for o in t.call(s, r'^joedb::Posix_FD::pwrite\(', [f, p, n, off]):
        if o.ret:
            cur = o.s.ghost[('os', 'arr')]
            t.prove(o.s, z3.Not(o.s.ghost[('os', 'err')]), 'an error is never taken for success')
            t.forall(o.s, lambda i: bv(cur.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(off)), lin(n)), b.sel(bi.add(i.sub(lin(off)))), a0.sel(i), 8), 8), 'file = old contents overwritten by the data')
            t.prove(o.s, bv(o.s.ghost[('os', 'size')], 64) == z3.If(z3.And(n != 0, off + n > z0), off + n, z0), 'size extended as needed')


# -------------------------------------------------------------- streams
# assumed contract of std::streambuf: joint or distinct read and write positions

def stream_install(t, s):
    E = t.E
    g = s.ghost
    SB = r'^std::basic_streambuf<char, std::char_traits<char>>::'
    g[('st', 'arr')] = Base('stream.content', 8)
    n = t.var('stream.size')
    s.assume(z3.And(n >= 0, n < BIG))
    g[('st', 'size')] = n
    g[('st', 'gpos')], g[('st', 'ppos')] = t.var('gpos'), t.var('ppos')
    s.assume(z3.And(g[('st', 'gpos')] >= 0, g[('st', 'gpos')] < BIG, g[('st', 'ppos')] >= 0, g[('st', 'ppos')] < BIG))

    def fpos(v):
        return v

    def seekoff(E, s, a, ins):
        off, way, which = bv(a[1], 64), bv(a[2], 32), bv(a[3], 32)
        size = bv(s.ghost[('st', 'size')], 64)
        e = s.fork()
        e.ghost[('st', 'gpos')], e.ghost[('st', 'ppos')] = fresh('g', 64), fresh('p', 64)
        base = z3.If(way == 0, z3.BitVecVal(0, 64), z3.If(way == 2, size, fresh('cur', 64)))
        to = simp(base + off)
        s.assume(to >= 0)
        junkg, junkp = fresh('g', 64), fresh('p', 64)
        s.assume(z3.And(junkg >= 0, junkg < BIG, junkp >= 0, junkp < BIG))
        s.ghost[('st', 'gpos')] = simp(z3.If(which & 8 != 0, to, junkg))
        s.ghost[('st', 'ppos')] = simp(z3.If(which & 16 != 0, to, junkp))
        return en.Outs([('ret', e, mk(E, e, ins, z3.BitVecVal(-1, 64))), ('ret', s, mk(E, s, ins, to))])

    def mk(E, s, ins, v):
        # std::fpos<mbstate_t> is returned as a pair of registers
        return [v, z3.BitVecVal(0, 64)]

    def sgetn(E, s, a, ins):
        b, n = a[1], lin(a[2])
        size, arr, pos = bv(s.ghost[('st', 'size')], 64), s.ghost[('st', 'arr')], bv(s.ghost[('st', 'gpos')], 64)
        r = fresh('st.r', 64)
        nb = n.bv()
        s.assume(z3.And(z3.ULE(r, nb), z3.Implies(z3.Or(pos >= size, nb == 0), r == 0), z3.Implies(z3.And(pos < size, nb != 0), z3.And(r != 0, z3.ULE(r, size - pos)))))
        E.write_bytes(s, b, n, Copy(Base('tail', 8), Lin(0), lin(r), arr, lin(pos)), Lin(0), 'sgetn buffer')
        s.ghost[('st', 'gpos')] = simp(pos + r)
        s.ghost[('st', 'ppos')] = fresh('p', 64)
        return r

    def sputn(E, s, a, ins):
        b, n = a[1], lin(a[2])
        size, arr, pos = bv(s.ghost[('st', 'size')], 64), s.ghost[('st', 'arr')], bv(s.ghost[('st', 'ppos')], 64)
        src, si = E.read_byte_array(s, b, n, 'sputn buffer')
        r = fresh('st.w', 64)
        s.assume(z3.Or(r == -1, z3.And(r >= 0, r <= n.bv())))
        w = z3.If(r < 0, z3.BitVecVal(0, 64), r)
        s.ghost[('st', 'arr')] = Copy(arr, lin(pos), lin(w), src, si)
        end = pos + w
        s.ghost[('st', 'size')] = simp(z3.If(z3.And(w != 0, end > size), end, size))
        s.ghost[('st', 'ppos')] = simp(end)
        s.ghost[('st', 'gpos')] = fresh('g', 64)
        return r

    def pubsync(E, s, a, ins):
        r = fresh('sync', 32)
        return r
    E.contracts += [(SB + r'pubseekoff\(', seekoff, 'std::streambuf::pubseekoff (assumed)'), (SB + r'sgetn\(', sgetn, 'std::streambuf::sgetn (assumed)'),
                    (SB + r'sputn\(', sputn, 'std::streambuf::sputn (assumed)'), (SB + r'pubsync\(', pubsync, 'std::streambuf::pubsync (assumed)')]


def stream(t):
    s = t.state()
    C = 'joedb::Stream_File'
    f = s.sym(C, 'file')
    stream_install(t, s)
    return s, f


def stream_inv(E, s, f):
    """a non-negative stored position is the read or the write position, according to the last operation"""
    C = 'joedb::Stream_File'
    pos = bv(s.get(f, C, 'pos._M_off'), 64)
    w = bv(s.get(f, C, 'writing'), 8)
    return z3.And(pos >= -1, w & 0xfe == 0, z3.Implies(pos >= 0, pos == z3.If(w != 0, s.ghost[('st', 'ppos')], s.ghost[('st', 'gpos')])))


@task('C14', STR)
def stream_pread(t):
    """Stream_File::pread refines the contract of Abstract_File::pread over any stream, with joint or distinct read and write positions"""
    E = t.E
    s, f = stream(t)
    n, off = args(t, s)
    s.assume(off < BIG)
    s.assume(stream_inv(E, s, f))
    p = buf(s, 'buffer', n)
    arr, size = s.ghost[('st', 'arr')], s.ghost[('st', 'size')]
    for o in t.call(s, r'^joedb::Stream_File::pread\(', [f, p, n, off]):
        t.prove(o.s, stream_inv(E, o.s, f), 'position invariant')
        if o.ret:
            b, bi = E.read_byte_array(o.s, p, lin(n))
            read_post(t, o, bv(o.v, 64), b, bi, n, off, arr, Lin(0), size)


@task('C14', STR)
def stream_pwrite(t):
    """Stream_File::pwrite writes exactly all the bytes at the offset, whatever short counts the stream returns, or throws"""
    E = t.E
    s, f = stream(t)
    n, off = args(t, s)
    s.assume(off < BIG)
    s.assume(stream_inv(E, s, f))
    p = buf(s, 'buffer', n)
    b, bi = E.read_byte_array(s, p, lin(n))
    a0, z0 = s.ghost[('st', 'arr')], s.ghost[('st', 'size')]

    def cands(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue

            def fq(g, k=k):
                cur = g.s.ghost[('st', 'arr')]
                hi = lin(g.cur(k))
                return [cur], lambda i: bv(cur.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(off)), hi), b.sel(bi.add(i.sub(lin(off)))), a0.sel(i), 8), 8)
            out.append(en.QCand('written so far', fq, True))

            def h(g, k=k):
                end = off + bv(g.cur(k), 64)
                return bv(g.s.ghost[('st', 'size')], 64) == z3.If(z3.And(bv(g.cur(k), 64) != 0, end > z0), end, z0)
            out.append(en.Cand('size so far', h, True))
            out.append(en.Cand('position so far', lambda g, k=k: bv(g.s.ghost[('st', 'ppos')], 64) == off + bv(g.cur(k), 64), True))
            out.append(en.Cand('stored position so far', lambda g, k=k: bv(g.cur(k), 64) == bv(g.s.ghost[('st', 'ppos')], 64), True))
        return out
    E.loop_cands += [cands]
    for o in t.call(s, r'^joedb::Stream_File::pwrite\(', [f, p, n, off]):
        t.prove(o.s, stream_inv(E, o.s, f), 'position invariant')
        if o.ret:
            cur = o.s.ghost[('st', 'arr')]
            t.forall(o.s, lambda i: bv(cur.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(off)), lin(n)), b.sel(bi.add(i.sub(lin(off)))), a0.sel(i), 8), 8), 'file = old contents overwritten by the data')
            t.prove(o.s, bv(o.s.ghost[('st', 'size')], 64) == z3.If(z3.And(n != 0, off + n > z0), off + n, z0), 'size extended as needed')


@task('C14', STR)
def stream_size(t):
    """Stream_File::get_size is the size of the stream (or -1), and keeps the position invariant"""
    E = t.E
    s, f = stream(t)
    s.assume(stream_inv(E, s, f))
    size = s.ghost[('st', 'size')]
    for o in t.call(s, r'^joedb::Stream_File::get_size\(', [f]):
        t.prove(o.s, stream_inv(E, o.s, f), 'position invariant')
        if o.ret:
            t.prove(o.s, z3.Or(bv(o.v, 64) == size, bv(o.v, 64) == -1), 'size of the stream')
