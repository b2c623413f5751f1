"""C13: copying, comparing and streaming file ranges."""
import z3
import engine as en
import files
import lib
from terms import *
from task import task
from files import gf

SRC = ['joedb/journal/Abstract_File.cpp', 'joedb/journal/Async_Reader.cpp']
DRV = SRC + ['drivers/copy.cpp']
BIG = 1 << 60


def rng(t, s, *names):
    out = []
    for n in names:
        v = t.var(n)
        s.assume(z3.And(v >= 0, v < BIG))
        out.append(v)
    return out


def copied(start, size, src0, dst0, cur):
    return lambda i: bv(cur.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(start)), lin(size)), src0.sel(i), dst0.sel(i), 8), 8)


@task('C13', SRC)
def copy_to(t):
    """copy_to(dst, start, size): dst == old dst overwritten by src on exactly [start, start+size); returns only if the source covers the range"""
    E = t.E
    files.install(E)
    s = t.state()
    src, dst = files.new_file(E, s, 'src'), files.new_file(E, s, 'dst')
    start, size = rng(t, s, 'start', 'size')
    E.loop_cands += [lib.region_copied(src, dst, start), lib.covered(src, start)]
    a0, d0, ssz, dsz = gf(s, src, 'arr'), gf(s, dst, 'arr'), gf(s, src, 'size'), gf(s, dst, 'size')
    for o in t.call(s, r'^joedb::Abstract_File::copy_to\(joedb::Abstract_File&, long, long\) const$', [src, dst, start, size]):
        if o.ret:
            t.forall(o.s, copied(start, size, a0, d0, gf(o.s, dst, 'arr')), 'destination = source on exactly the range')
            t.prove(o.s, z3.Or(size == 0, start + size <= bv(ssz, 64)), 'normal return only if the source covers the range')
        t.prove(o.s, bool(gf(o.s, src, 'arr') is a0), 'source unchanged')


@task('C13', SRC)
def copy_to_all(t):
    """copy_to(dst, start, size < 0) copies everything from start to the end of the source"""
    E = t.E
    files.install(E)
    s = t.state()
    src, dst = files.new_file(E, s, 'src'), files.new_file(E, s, 'dst')
    start, = rng(t, s, 'start')
    size = t.var('size')
    s.assume(size < 0)
    ssz = bv(gf(s, src, 'size'), 64)
    E.loop_cands += [lib.region_copied(src, dst, start), lib.covered(src, start)]
    a0, d0 = gf(s, src, 'arr'), gf(s, dst, 'arr')
    n = z3.If(ssz > start, ssz - start, z3.BitVecVal(0, 64))
    for o in t.call(s, r'^joedb::Abstract_File::copy_to\(joedb::Abstract_File&, long, long\) const$', [src, dst, start, size]):
        if o.ret:
            t.forall(o.s, copied(start, n, a0, d0, gf(o.s, dst, 'arr')), 'destination = source on everything from start')


@task('C13', SRC, budget=300)
def equal_to_sound(t):
    """equal_to returns true only if all bytes of [from, until) are equal"""
    E = t.E
    files.install(E)
    s = t.state()
    a, b = files.new_file(E, s, 'f0'), files.new_file(E, s, 'f1')
    lo, hi = rng(t, s, 'from', 'until')
    E.loop_cands += [lib.ranges_equal(a, b, lo), lib.buffer_prefix([b])]
    a0, b0 = gf(s, a, 'arr'), gf(s, b, 'arr')
    for o in t.call(s, r'^joedb::Abstract_File::equal_to\(', [a, b, lo, hi]):
        if o.ret:
            t.forall(o.s, lambda i: z3.Implies(z3.And(o.v if z3.is_expr(o.v) else z3.BoolVal(bool(o.v)), i.bv() >= lo, i.bv() < hi), lib.byte_eq(a0, i, b0, i)),
                     'true implies equal ranges')
            t.prove(o.s, bool(gf(o.s, a, 'arr') is a0 and gf(o.s, b, 'arr') is b0), 'files unchanged')


@task('C13', SRC, budget=300)
def equal_to_complete(t):
    """equal_to returns true whenever all bytes of [from, until) exist in both files and are equal"""
    E = t.E
    files.install(E)
    s = t.state()
    a, b = files.new_file(E, s, 'f0'), files.new_file(E, s, 'f1')
    lo, hi = rng(t, s, 'from', 'until')
    a0, b0 = gf(s, a, 'arr'), gf(s, b, 'arr')
    s.assume(z3.And(hi <= bv(gf(s, a, 'size'), 64), hi <= bv(gf(s, b, 'size'), 64)))
    for base in (a0, b0):
        s.assume_forall(base, lambda i: z3.Implies(z3.And(i.bv() >= lo, i.bv() < hi), lib.byte_eq(a0, i, b0, i)))
    E.loop_cands += [lib.buffer_prefix([b])]
    for o in t.call(s, r'^joedb::Abstract_File::equal_to\(', [a, b, lo, hi]):
        if o.ret:
            t.prove(o.s, o.v, 'equal ranges compare equal')


def ext_buf(s, name, n):
    """caller's buffer of exactly n bytes"""
    o = s.bytes_obj(name, lin(n))
    return Ptr(o.id, 0)


@task('C13', DRV)
def async_read(t):
    """Async_Reader::read(buffer, capacity) transfers exactly the next min(capacity, remaining) bytes, or fewer with end-of-file reported; nothing beyond capacity is touched"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    a = s.sym('joedb::Async_Reader', 'reader')
    end, cur, = rng(t, s, 'end', 'current')
    cap = t.var('capacity')
    s.assume(z3.And(cap >= 0, cap < BIG, cur <= end))
    s.put(a, 'joedb::Async_Reader', 'file', f)
    s.put(a, 'joedb::Async_Reader', 'end', end)
    s.put(a, 'joedb::Async_Reader', 'current', cur)
    s.put(a, 'joedb::Async_Reader', 'end_of_file', t.var('eof0', 8) & 1)
    buf = ext_buf(s, 'buffer', cap)
    E.loop_cands += [lib.buffer_prefix([f]), lib.progress_clears()]
    arr, fsz = gf(s, f, 'arr'), bv(gf(s, f, 'size'), 64)
    want = z3.If(cap < end - cur, cap, end - cur)
    for o in t.call(s, r'^verif::async_read\(', [a, buf, cap]):
        if not o.ret:
            continue
        r = bv(o.v, 64)
        b, bi = E.read_byte_array(o.s, buf, lin(cap))
        t.prove(o.s, z3.ULE(r, want), 'at most the requested bytes')
        t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), r), lib.byte_eq(b, bi.add(i), arr, lin(cur).add(i))), 'bytes are those of the file')
        c1 = bv(o.s.get(a, 'joedb::Async_Reader', 'current'), 64)
        t.prove(o.s, c1 == cur + r, 'cursor advances by the bytes returned')
        eof = bv(o.s.get(a, 'joedb::Async_Reader', 'end_of_file'), 8)
        t.prove(o.s, z3.Or(r == want, z3.And(eof != 0, c1 >= fsz)), 'short only at the end of the file, which is reported')
        t.prove(o.s, z3.Implies(z3.And(want != 0, eof != 0), c1 >= fsz), 'end of file is not reported early')
        t.prove(o.s, bv(o.s.get(a, 'joedb::Async_Reader', 'end'), 64) == end, 'end unchanged')


@task('C13', DRV)
def async_reader_init(t):
    """Async_Reader(file, start, end) covers [min(start,end), end)"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    a = s.sym('joedb::Async_Reader', 'reader')
    start, end = rng(t, s, 'start', 'end')
    for o in t.call(s, r'^joedb::Async_Reader::Async_Reader\(', [a, f, start, end]):
        if o.ret:
            c = bv(o.s.get(a, 'joedb::Async_Reader', 'current'), 64)
            t.prove(o.s, c == z3.If(start < end, start, end), 'starts at start, never past end')
            t.prove(o.s, bv(o.s.get(a, 'joedb::Async_Reader', 'end'), 64) == end, 'ends at end')
            t.prove(o.s, bv(o.s.get(a, 'joedb::Async_Reader', 'end_of_file'), 8) == 0, 'end of file not yet reported')
            t.prove(o.s, o.s.get(a, 'joedb::Async_Reader', 'file').same(f), 'reads the given file')


@task('C13', DRV)
def async_write(t):
    """Async_Writer::write puts exactly the given bytes at the current position and advances by their number"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    a = s.sym('joedb::Async_Writer', 'writer')
    cur, n = rng(t, s, 'current', 'size')
    s.put(a, 'joedb::Async_Writer', 'file', f)
    s.put(a, 'joedb::Async_Writer', 'current', cur)
    buf = ext_buf(s, 'data', n)
    d, di = E.read_byte_array(s, buf, lin(n))
    f0, sz0 = gf(s, f, 'arr'), bv(gf(s, f, 'size'), 64)
    for o in t.call(s, r'^verif::async_write\(', [a, buf, n]):
        if o.ret:
            f1, sz1 = gf(o.s, f, 'arr'), bv(gf(o.s, f, 'size'), 64)
            t.forall(o.s, lambda i: bv(f1.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(cur)), lin(n)), d.sel(i.sub(lin(cur)).add(di)), f0.sel(i), 8), 8), 'file = old contents overwritten by the data')
            t.prove(o.s, sz1 == z3.If(z3.And(n != 0, cur + n > sz0), cur + n, sz0), 'size extended as needed')
            t.prove(o.s, bv(o.s.get(a, 'joedb::Async_Writer', 'current'), 64) == cur + n, 'position advances')


@task('C13', SRC)
def read_blob(t):
    """read_blob returns exactly the bytes of the locator, or throws: locator invalid, too large, or beyond the end of the file"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    pos, n, mx = t.var('position'), t.var('size'), t.var('max_size')
    s.assume(z3.And(pos < BIG, n < BIG))
    res = Ptr(s.new_obj('result', 32).id, 0)
    E.loop_cands += [lib.buffer_prefix([f]), lib.covered(f, pos)]
    arr, fsz = gf(s, f, 'arr'), bv(gf(s, f, 'size'), 64)
    import builtins_model as bm
    for o in t.call(s, r'^joedb::Abstract_File::read_blob(\[abi:cxx11\])?\(', [res, f, pos, n, mx]):
        if o.ret:
            a, i0, ln = bm.str_arr(E, o.s, res)
            t.prove(o.s, z3.And(pos >= 0, n >= 0, z3.Or(mx < 0, n < mx)), 'invalid locators and locators above the limit are refused')
            t.prove(o.s, ln.bv() == n, 'size of the result')
            t.prove(o.s, z3.Or(n == 0, pos + n <= fsz), 'the range is inside the file')
            t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), n), lib.byte_eq(a, i0.add(i), arr, lin(pos).add(i))), 'bytes are those of the file')
