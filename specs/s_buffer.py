"""C01, C02: buffered journal I/O and compact integers."""
import z3
import engine as en
import files
import lib
import buffer as fb
from terms import *
from task import task
from files import gf
from buffer import BIG

DRV = ['joedb/journal/File_Buffer.cpp', 'joedb/journal/Abstract_File.cpp', 'joedb/journal/Async_Reader.cpp', 'drivers/buffer.cpp']


def setup(t, mode):
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    b = fb.new(E, s, f)
    if mode == 'w':
        fb.assume_write(E, s, b)
    else:
        fb.assume_read(E, s, b, f)
    return E, s, f, b


def bytes_of(v, n):
    v = bv(v, 8 * n)
    return [z3.Extract(8 * k + 7, 8 * k, v) for k in range(n)]


def pick(bs, i):
    r = bs[-1]
    for k in range(len(bs) - 2, -1, -1):
        r = z3.If(i.bv() == k, bs[k], r)
    return r


def check_appended(t, o, b, f, before, p0, sz0, n, byte):
    """the abstract stream is the old one with n bytes appended at the position"""
    after = fb.Overlay(t.E, o.s, b, f)
    t.prove(o.s, fb.inv_write(o.s, b), 'write buffer invariant')
    nn = lin(n)
    t.prove(o.s, fb.position(o.s, b) == p0 + nn.bv(), 'position advances by the bytes written')
    t.forall(o.s, lambda i: bv(after.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(p0)), nn), byte(i.sub(lin(p0))), before.sel(i), 8), 8),
             'stream = previous stream with exactly the new bytes appended')
    t.prove(o.s, fb.abs_size(o.s, b, f) == z3.If(z3.And(nn.bv() != 0, p0 + nn.bv() > sz0), p0 + nn.bv(), sz0), 'file size')


def append_task(t, fn, args, n, byte, pre=None, contracts=()):
    E, s, f, b = setup(t, 'w')
    E.contracts += [c(E, f) for c in contracts]
    if pre is not None:
        s.assume(pre)
    extra = []
    if callable(args):
        args, n, byte = args(E, s)
    before = fb.Overlay(E, s, b, f)
    p0, sz0 = fb.position(s, b), fb.abs_size(s, b, f)
    for o in t.call(s, fn, [b] + args):
        if o.ret:
            check_appended(t, o, b, f, before, p0, sz0, n, byte)


def mk_write(T, n):
    def f(t):
        x = t.var('x', 8 * n)
        bs = bytes_of(x, n)
        append_task(t, r'^verif::w_%s\(' % T, [x], n, lambda i: pick(bs, i))
    f.__name__ = 'write_' + T
    f.__doc__ = 'File_Buffer::write<%s> appends the %d little-endian bytes of the value' % (T, n)
    f.__module__ = 's_buffer'
    task('C02', DRV)(f)


for T, n in (('uint8_t', 1), ('int16_t', 2), ('int32_t', 4), ('int64_t', 8)):
    mk_write(T, n)


# ---------------------------------------------------- compact integer format
def enc_len(x):
    """minimal number of bytes, x a 64-bit term below 2^61"""
    r = z3.BitVecVal(8, 64)
    for k in range(7, 0, -1):
        r = z3.If(z3.ULT(x, z3.BitVecVal(1 << (8 * k - 3), 64)), z3.BitVecVal(k, 64), r)
    return r


def enc_byte(x, n, i):
    """byte i of the n-byte encoding of x"""
    sh = (n - 1 - i) * 8
    v = z3.LShR(x, sh)
    return z3.Extract(7, 0, z3.If(i == 0, v | ((n - 1) << 5), v))


def dec_len(first):
    return z3.ZeroExt(56, z3.LShR(first, 5)) + 1


def dec_val(byte, n_of_first):
    """value decoded from bytes byte(0), byte(1)..."""
    first = byte(0)
    e = z3.LShR(first, 5)
    acc = z3.ZeroExt(56, first & 0x1f)
    r = acc
    for k in range(1, 8):
        acc = (acc << 8) | z3.ZeroExt(56, byte(k))
        r = z3.If(z3.UGE(e, k), acc, r)
    return r


CU = {r'compact_write<': 9, r'compact_read<': 9}


def mk_compact(T, w):
    def f(t):
        x = t.var('x', w)
        X = z3.ZeroExt(64 - w, x) if w < 64 else x
        n = enc_len(X)
        pre = z3.ULT(x, z3.BitVecVal(1 << 61, 64)) if w == 64 else None
        append_task(t, r'^verif::cw_%s\(' % T, [x], n, lambda i: enc_byte(X, n, i.bv()), pre)
    f.__name__ = 'compact_write_' + T
    f.__doc__ = 'compact_write<%s>(x) appends exactly the minimal encoding of x, for every x below 2^61' % T
    f.__module__ = 's_buffer'
    task('C01', DRV, unroll=CU)(f)

    def g(t):
        E, s, f, b = setup(t, 'r')
        rx, h, lab = fb.contract_read_data(E, f)
        E.contracts.append((rx, h, lab))
        arr, p0, fsz = gf(s, f, 'arr'), fb.position(s, b), bv(gf(s, f, 'size'), 64)
        at = lambda k: bv(arr.sel(lin(p0).add(Lin(k))), 8)
        n = dec_len(at(0))
        v = dec_val(at, n)
        for o in t.call(s, r'^verif::cr_%s\(' % T, [b]):
            if o.ret:
                t.prove(o.s, bv(o.v, w) == z3.Extract(w - 1, 0, v), 'value decoded from the bytes at the position')
                t.prove(o.s, fb.position(o.s, b) == p0 + n, 'exactly the bytes of the encoding are consumed')
                t.prove(o.s, p0 + n <= fsz, 'nothing is read beyond the end of the file')
                fb.prove_read(t, o.s, b, f)
    g.__name__ = 'compact_read_' + T
    g.__doc__ = 'compact_read<%s> returns the value encoded at the position and consumes exactly its bytes, wherever buffer boundaries fall' % T
    g.__module__ = 's_buffer'
    task('C01', DRV, unroll=CU)(g)


for T, w in (('int64_t', 64), ('size_t', 64), ('uint16_t', 16)):
    mk_compact(T, w)


@task('C01', DRV, covers=False)
def round_trip(t):
    """lemma: decoding the encoding of x gives x and its length; the length is the least k in 1..8 with x < 2^(8k-3)"""
    s = t.state()
    x = t.var('x')
    s.assume(z3.ULT(x, z3.BitVecVal(1 << 61, 64)))
    n = enc_len(x)
    byte = lambda k: enc_byte(x, n, z3.BitVecVal(k, 64))
    t.prove(s, dec_len(byte(0)) == n, 'length decoded = length encoded', 'lemma')
    t.prove(s, dec_val(byte, None) == x, 'value decoded = value encoded', 'lemma')
    k = t.var('k')
    s.assume(z3.And(z3.UGE(k, 1), z3.ULE(k, 8), z3.ULT(x, z3.BitVecVal(1, 64) << (8 * k - 3))))
    t.prove(s, z3.ULE(n, k), 'no shorter length can hold the value', 'lemma')
    t.prove(s, z3.And(z3.UGE(n, 1), z3.ULE(n, 8)), 'one to eight bytes', 'lemma')


@task('C01', DRV, unroll=CU)
def reference(t):
    """write_reference appends the encoding of id+1 (null is 0), for every id from -1 below 2^61-1"""
    x = t.var('id')
    n = enc_len(x + 1)
    append_task(t, r'^verif::w_ref\(', [x], n, lambda i: enc_byte(x + 1, n, i.bv()), z3.And(x >= -1, x < (1 << 61) - 1), [contract_compact_write])


@task('C01', DRV, unroll=CU)
def read_reference(t):
    """read_reference returns the decoded value minus one"""
    E, s, f, b = setup(t, 'r')
    E.contracts.append(contract_compact_read(E, f))
    arr, p0 = gf(s, f, 'arr'), fb.position(s, b)
    at = lambda k: bv(arr.sel(lin(p0).add(Lin(k))), 8)
    for o in t.call(s, r'^verif::r_ref\(', [b]):
        if o.ret:
            t.prove(o.s, bv(o.v, 64) == dec_val(at, None) - 1, 'reference = decoded value - 1')
            t.prove(o.s, fb.position(o.s, b) == p0 + dec_len(at(0)), 'exactly the bytes of the encoding are consumed')


@task('C01', DRV, unroll=CU)
def write_blob(t):
    """write_blob appends the encoding of the position followed by the encoding of the size"""
    x, y = t.var('blob_position'), t.var('blob_size')
    n, m = enc_len(x), enc_len(y)
    append_task(t, r'^verif::w_blob\(', [x, y], simp(n + m),
                lambda i: z3.If(z3.ULT(i.bv(), n), enc_byte(x, n, i.bv()), enc_byte(y, m, i.bv() - n)),
                z3.And(x >= 0, x < (1 << 61), y >= 0, y < (1 << 61)), [contract_compact_write])


@task('C01', DRV, unroll=CU, budget=300)
def read_blob_locator(t):
    """read_blob returns the position then the size encoded at the position"""
    E, s, f, b = setup(t, 'r')
    E.contracts.append(contract_compact_read(E, f))
    arr, p0 = gf(s, f, 'arr'), fb.position(s, b)
    at = lambda k: bv(arr.sel(lin(p0).add(Lin(k))), 8)
    n = dec_len(at(0))
    at2 = lambda k: bv(arr.sel(lin(simp(p0 + n + k))), 8)
    out = s.sym('joedb::Blob', 'out')
    for o in t.call(s, r'^verif::r_blob\(', [b, out]):
        if o.ret:
            t.prove(o.s, bv(o.s.get(out, 'joedb::Blob', 'position'), 64) == dec_val(at, None), 'position')
            t.prove(o.s, bv(o.s.get(out, 'joedb::Blob', 'size'), 64) == dec_val(at2, None), 'size')
            t.prove(o.s, fb.position(o.s, b) == p0 + n + dec_len(at2(0)), 'exactly the bytes of both encodings are consumed')


def contract_compact_write(E, f):
    def nb(E, s, a):
        x = bv(a[1], 64)
        E.prove(s, z3.ULT(x, z3.BitVecVal(1 << 61, 64)), 'pre', 'compact_write: value below 2^61')
        return simp(enc_len(x))
    return fb.contract_append(E, f, r'^void joedb::File_Buffer::compact_write<(unsigned )?long>\(', nb,
                              lambda E, s, a, n: (lambda i: enc_byte(bv(a[1], 64), n, i.bv())),
                              'File_Buffer::compact_write<64-bit> (proved: s_buffer.compact_write_int64_t, compact_write_size_t)')


def contract_compact_read(E, f):
    def h(E, s, a, ins):
        b = a[0]
        E.prove(s, fb.inv_read_scalar(s, b, f), 'pre', 'compact_read: buffer invariant')
        p0 = fb.position(s, b)
        arr = gf(s, f, 'arr')
        at = lambda k: bv(arr.sel(lin(p0).add(Lin(k))), 8)
        e = s.fork()
        fb.clobber(E, e, b)
        n = dec_len(at(0))
        fb.clobber(E, s, b)
        s.assume(fb.inv_read_scalar(s, b, f))
        s.assume(z3.And(fb.position(s, b) == p0 + n, p0 + n <= bv(gf(s, f, 'size'), 64)))
        ba, bi = fb.buf_arr(E, s, b)
        pos, idx, rbs = fb.scal(s, b)
        fb.assume_cached(s, ba, bi, pos, idx, rbs, arr)
        return en.Outs([('exc', e, files.EXC), ('ret', s, simp(dec_val(at, None)))])
    return (r'^long joedb::File_Buffer::compact_read<long>\(\)|^unsigned long joedb::File_Buffer::compact_read<unsigned long>\(\)', h, 'File_Buffer::compact_read<64-bit> (proved: s_buffer.compact_read_int64_t, compact_read_size_t)')


# ------------------------------------------------------------------- C02
@task('C02', DRV, budget=300)
def write_data(t):
    """File_Buffer::write_data(d, n) appends exactly the n bytes, for every n and buffer fill"""
    def args(E, s):
        n = t.var('n')
        s.assume(z3.And(n >= 0, n < BIG))
        o = s.bytes_obj('data', lin(n))
        p = Ptr(o.id, 0)
        d, di = E.read_byte_array(s, p, lin(n))
        return [p, n], n, lambda i: d.sel(di.add(i))
    append_task(t, r'^verif::w_data\(', args, None, None)


@task('C02', DRV, budget=300)
def write_string(t):
    """write_string appends the encoded length then exactly the bytes"""
    def args(E, s):
        n = t.var('n')
        s.assume(z3.And(n >= 0, n < BIG))
        p = Ptr(s.bytes_obj('data', lin(n)).id, 0)
        d, di = E.read_byte_array(s, p, lin(n))
        m = enc_len(n)
        return [p, n], simp(m + n), lambda i: z3.If(z3.ULT(i.bv(), m), enc_byte(n, m, i.bv()), bv(d.sel(di.add(i).sub(lin(m))), 8))
    append_task(t, r'^verif::w_string\(', args, None, None, contracts=[contract_compact_write, contract_write_data])


def contract_write_data(E, f):
    def arr(E, s, a, n):
        d, di = E.read_byte_array(s, a[1], lin(a[2]))
        return lambda i: d.sel(di.add(i))

    def nb(E, s, a):
        E.prove(s, z3.ULT(bv(a[2], 64), BIG), 'pre', 'write_data: size in range')
        return bv(a[2], 64)
    return fb.contract_append(E, f, r'^joedb::File_Buffer::write_data\(', nb, arr, 'File_Buffer::write_data (proved: s_buffer.write_data)')


def flush_like(t, fn, mode, target=None):
    E, s, f, b = setup(t, mode)
    args = [b]
    if target is not None:
        s.assume(z3.And(target >= 0, target < BIG))
        args.append(target)
    p0 = fb.position(s, b)
    a0 = gf(s, f, 'arr')
    before = fb.Overlay(E, s, b, f) if mode == 'w' else a0
    sz0 = fb.abs_size(s, b, f) if mode == 'w' else bv(gf(s, f, 'size'), 64)
    for o in t.call(s, fn, args):
        if o.ret:
            pos, idx, rbs = fb.scal(o.s, b)
            t.prove(o.s, z3.And(idx == 0, rbs == 0), 'buffer is empty')
            t.prove(o.s, pos == (p0 if target is None else target), 'position')
            after = gf(o.s, f, 'arr')
            t.forall(o.s, lambda i: bv(after.sel(i), 8) == bv(before.sel(i), 8), 'file = stream contents, nothing else changes')
            t.prove(o.s, bv(gf(o.s, f, 'size'), 64) == sz0, 'file size')


@task('C02', DRV)
def flush_write(t):
    """flush after writing: the file holds exactly the stream"""
    flush_like(t, r'^joedb::File_Buffer::flush\(', 'w')


@task('C02', DRV)
def flush_read(t):
    """flush after reading keeps the position and the file"""
    flush_like(t, r'^joedb::File_Buffer::flush\(', 'r')


@task('C02', DRV)
def set_position_write(t):
    """set_position flushes pending writes, then moves"""
    flush_like(t, r'^joedb::File_Buffer::set_position\(', 'w', t.var('target'))


@task('C02', DRV)
def set_position_read(t):
    """set_position moves the read position and drops the cache"""
    flush_like(t, r'^joedb::File_Buffer::set_position\(', 'r', t.var('target'))


@task('C02', DRV)
def get_position(t):
    """get_position is the logical position"""
    for mode in 'wr':
        E, s, f, b = setup(t, mode)
        p0 = fb.position(s, b)
        for o in t.call(s, r'^verif::get_position\(', [b]):
            if o.ret:
                t.prove(o.s, bv(o.v, 64) == p0, 'position')


@task('C02', DRV)
def ignore(t):
    """ignore(n) moves the read position by n"""
    E, s, f, b = setup(t, 'r')
    n = t.var('n')
    s.assume(z3.And(n >= 0, n < BIG))
    p0 = fb.position(s, b)
    for o in t.call(s, r'^verif::ignore\(', [b, n]):
        if o.ret:
            t.prove(o.s, fb.position(o.s, b) == p0 + n, 'position')
            fb.prove_read(t, o.s, b, f)


@task('C02', DRV, budget=400)
def read_data(t):
    """read_data(d, n) delivers exactly the n bytes at the position whatever short reads occur, or throws; nothing outside d[0..n) is touched"""
    E, s, f, b = setup(t, 'r')
    n = t.var('n')
    s.assume(z3.And(n >= 0, n < BIG))
    p = Ptr(s.bytes_obj('data', lin(n)).id, 0)
    arr, p0, fsz = gf(s, f, 'arr'), fb.position(s, b), bv(gf(s, f, 'size'), 64)
    E.loop_cands += [lib.buffer_prefix([f], extra=[p0]), read_progress(b, f, n, p0)]
    for o in t.call(s, r'^verif::r_data\(', [b, p, n]):
        if o.ret:
            d, di = E.read_byte_array(o.s, p, lin(n))
            t.prove(o.s, bv(o.v, 64) == n, 'everything is read')
            t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), n), lib.byte_eq(d, di.add(i), arr, lin(p0).add(i))), 'bytes are those of the file')
            t.prove(o.s, fb.position(o.s, b) == p0 + n, 'position advances by n')
            t.prove(o.s, z3.Or(n == 0, p0 + n <= fsz), 'nothing is read beyond the end')
            fb.prove_read(t, o.s, b, f)


def read_progress(b, f, n, p0):
    def gen(E, lp):
        out = []
        fsz = bv(gf(lp.s0, f, 'size'), 64)
        for k, w in lp.scal:
            if w == 64:
                out.append(en.Cand('logical position = start + bytes delivered', lambda g, k=k: fb.position(g.s, b) == p0 + bv(g.cur(k), 64), True))
                out.append(en.Cand('delivered bytes are inside the file', lambda g, k=k: z3.Or(bv(g.cur(k), 64) == 0, p0 + bv(g.cur(k), 64) <= fsz), True))
        out.append(en.Cand('read buffer bounds', lambda g: fb.inv_read_scalar(g.s, b, f), True))
        return out
    return gen


def mk_read(T, n):
    def f(t):
        E, s, f, b = setup(t, 'r')
        E.contracts.append(fb.contract_read_data(E, f))
        arr, p0 = gf(s, f, 'arr'), fb.position(s, b)
        for o in t.call(s, r'^verif::r_%s\(' % T, [b]):
            if o.ret:
                bs = [bv(arr.sel(lin(p0).add(Lin(k))), 8) for k in range(n)]
                t.prove(o.s, bv(o.v, 8 * n) == (z3.Concat(*reversed(bs)) if n > 1 else bs[0]), 'little-endian value at the position')
                t.prove(o.s, fb.position(o.s, b) == p0 + n, 'position advances')
    f.__name__ = 'read_' + T
    f.__doc__ = 'File_Buffer::read<%s> returns the value of the next %d bytes' % (T, n)
    f.__module__ = 's_buffer'
    task('C02', DRV)(f)


for T, n in (('uint8_t', 1), ('int16_t', 2), ('int32_t', 4), ('int64_t', 8)):
    mk_read(T, n)


def string_task(t, fn, safe):
    import builtins_model as bm
    E, s, f, b = setup(t, 'r')
    E.contracts += [contract_compact_read(E, f), fb.contract_read_data(E, f)]
    arr, p0 = gf(s, f, 'arr'), fb.position(s, b)
    at = lambda k: bv(arr.sel(lin(p0).add(Lin(k))), 8)
    n, v = dec_len(at(0)), dec_val(at, None)
    res = Ptr(s.new_obj('result', 32).id, 0)
    args = [res, b]
    if safe:
        mx = t.var('max_size')
        args.append(mx)
        ln = simp(z3.If(z3.And(v > 0, v < mx), v, z3.BitVecVal(0, 64)))
    else:
        ln = v
    for o in t.call(s, fn, args):
        if o.ret:
            a, i0, got = bm.str_arr(E, o.s, res)
            t.prove(o.s, got.bv() == ln, 'length')
            t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), ln), bv(a.sel(i0.add(i)), 8) == bv(arr.sel(lin(simp(p0 + n)).add(i)), 8)), 'bytes are those of the file')
            t.prove(o.s, fb.position(o.s, b) == p0 + n + ln, 'position after the string')


@task('C02', DRV)
def read_string(t):
    """read_string returns exactly the encoded string and stops after it"""
    string_task(t, r'^joedb::File_Buffer::read_string', False)


@task('C02 C23', DRV)
def safe_read_string(t):
    """safe_read_string(max) returns the encoded string when 0 < size < max, otherwise an empty string without reading or allocating further"""
    string_task(t, r'^joedb::File_Buffer::safe_read_string', True)


@task('C02', DRV)
def construct(t):
    """a new File_Buffer is empty at position 0"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    b = s.sym(fb.FB, 'fb')
    for o in t.call(s, r'^joedb::File_Buffer::File_Buffer\(', [b, f]):
        if o.ret:
            pos, idx, rbs = fb.scal(o.s, b)
            t.prove(o.s, z3.And(pos == 0, idx == 0, rbs == 0), 'empty at position 0')


@task('C02', DRV)
def destroy(t):
    """destroying a File_Buffer flushes pending writes and never throws"""
    E, s, f, b = setup(t, 'w')
    before, sz0 = fb.Overlay(E, s, b, f), fb.abs_size(s, b, f)
    for o in t.call(s, r'^joedb::File_Buffer::~File_Buffer\(', [b]):
        t.prove(o.s, o.ret, 'no exception leaves the destructor')
        if o.ret and not o.s.ghost.get('torn'):
            after = gf(o.s, f, 'arr')
            t.forall(o.s, lambda i: bv(after.sel(i), 8) == bv(before.sel(i), 8), 'file = stream contents')
