"""C15: encoded files. The table of blocks is the generated database
joedb::db::encoded_file, built by joedbc from the current tree; codecs and the
file holding the blobs are known by their contracts.

Everything is stated at one arbitrary position p of the file: the value there
after overlaying the first k blocks is ov(k)."""
import z3
import engine as en
import files
import builtins_model as bm
from terms import *
from task import task

SRC = ['joedb/journal/Encoded_File.cpp', 'joedb/journal/Readonly_Encoded_File.cpp']
FLAGS = ('@gen',)
REF = 'joedb::Readonly_Encoded_File'
EF = 'joedb::Encoded_File'
DB = 'joedb::db::encoded_file::Database'
WDB = 'joedb::db::encoded_file::Writable_Database'
BIG = 1 << 60
B = lambda v: z3.BitVecVal(v, 64)
W64 = z3.BitVecSort(64)
# byte j of the n bytes decoded from the blob at (position, size)
DEC = z3.Function('decoded_byte', W64, W64, W64, W64, z3.BitVecSort(8))


class Dec(Arr):
    w = 8

    def __init__(self, pos, bsz, n):
        self.a = (pos, bsz, n)

    def _sel(self, i):
        return DEC(*self.a, i.bv())


def base_off(E, cls, base):
    for b in E.M.types[cls]['bases']:
        if b['type'] == base:
            return b['off']
        o = base_off(E, b['type'], base)
        if o is not None:
            return b['off'] + o
    return None


class Blocks:
    """a database of n blocks, as Encoded_File builds it: identifiers 0..n-1"""

    def __init__(self, t, cls):
        E, self.t, self.E = t.E, t, t.E
        files.install(E)
        s = self.s = t.state()
        E.contracts[:0] = [(r'^joedb::get_error_message\S*\(', lambda E, s, a, ins: E.prove(s, z3.BoolVal(False), 'pre', 'release assertions hold'), 'release assertion')]
        self.f = s.sym(cls, 'file')
        self.cls = cls
        if cls == EF:
            self.wdb = s.sym(WDB, 'database')
            self.db = self.wdb.add(Lin(base_off(E, WDB, DB)))
            s.put(self.f, REF, 'db', self.db)
            s.put(self.f, EF, 'db', self.wdb)
        else:
            self.db = s.get(self.f, REF, 'db')
        n = self.n = t.var('blocks')
        self.p = t.var('position')
        s.assume(z3.And(n >= 0, n < 1 << 40, self.p >= 0, self.p < 1 << 62))
        self.st = 'storage_of_buffer.'
        self.dbc = WDB if cls == EF else DB
        fk = self.st + 'freedom_keeper.'
        s.put(self.db, DB, fk + 'dense', z3.BitVecVal(1, 8))
        s.put(self.db, DB, fk + 'dfk.used_size', n)
        fs = s.get(self.db, DB, fk + 'dfk.free_size')
        s.assume(z3.And(bv(fs, 64) >= n, bv(fs, 64) < 1 << 41))
        for v in ('data', 'size', 'offset'):
            b, e = self.vec(s, v)
            s.assume(e.off.sub(b.off).bv() == bv(fs, 64) * (16 if v == 'data' else 8))
        a = self.arrays(s)
        s.assume_forall(a['offset'], lambda i: z3.And(bv(a['offset'].sel(i), 64) >= 0, bv(a['offset'].sel(i), 64) < BIG))
        s.assume_forall(a['size'], lambda i: z3.And(bv(a['size'].sel(i), 64) >= 0, bv(a['size'].sel(i), 64) < BIG))

    def vec(self, s, v):
        off, size, ty = self.E.M.field(DB, self.st + 'field_value_of_' + v)
        p = self.db.add(Lin(off))
        return self.E.load(s, p, 8, 'ptr'), self.E.load(s, p.add(Lin(8)), 8, 'ptr')

    def arrays(self, s):
        out = {}
        for v in ('data', 'size', 'offset'):
            b, e = self.vec(s, v)
            o = s.wobj(b.obj)
            g = o.segs[0]
            for f in ([(0, 8), (8, 8)] if v == 'data' else [(0, 8)]):
                if f not in g.fields:
                    g.fields[f] = Base('%s%d' % (v, f[0]), 64)
                out[v if v != 'data' else 'pos' if f[0] == 0 else 'bsz'] = g.fields[f]
        return out

    def block(self, s, i):
        """(start, size, decoded byte at p) of block i"""
        a = self.arrays(s)
        i = lin(i)
        off, sz = bv(a['offset'].sel(i), 64), bv(a['size'].sel(i), 64)
        return off, sz, DEC(bv(a['pos'].sel(i), 64), bv(a['bsz'].sel(i), 64), sz, self.p - off)

    def covers(self, s, i):
        off, sz, _ = self.block(s, i)
        return z3.And(self.p >= off, self.p < off + sz)


class Reader(Blocks):
    """a block reader with its cache of one decoded block"""

    def __init__(self, t, cls):
        Blocks.__init__(self, t, cls)
        E, s = self.E, self.s
        E.contracts[:0] = [(r'^joedb::Abstract_File::read_blob\S*\(joedb::Blob', self.read_blob, 'Abstract_File::read_blob: the bytes of the blob, or throws (C13)'),
                           (r'^std::vector<char, std::allocator<char>\s*>::resize\(unsigned long\)', self.resize, 'std::vector<char>::resize: new size, old elements kept')]
        E.contracts[:0] = [(r'^joedb::Freedom_Keeper::get_next\(', self.get_next, 'Freedom_Keeper::get_next of a dense set (proved in get_next)')]
        E.iface['joedb::Decoder'] = {'decode': self.decode}
        off, size, ty = E.M.field(REF, 'read_buffer')
        self.rb = self.f.add(Lin(off))
        b = E.load(s, self.rb, 8, 'ptr')
        # a buffer of any capacity: the size is the distance to the end pointer
        self.store = s.bytes_obj('decoded block', Lin(1 << 61))
        z = t.var('read_buffer.size')
        s.assume(z3.And(z >= 0, z < BIG))
        self.setrb(s, z)
        d = self.d(s)
        s.assume(z3.Or(d == -1, z3.And(d >= 0, d < self.n)))
        s.assume(self.cached(s))

    def get_next(self, E, s, a, ins):
        off, size, ty = E.M.field(DB, self.st + 'freedom_keeper')
        E.prove(s, z3.BoolVal(a[0].obj == self.db.obj and a[0].off.const() == self.db.off.const() + off), 'pre', 'get_next: of the table of blocks')
        i = bv(a[1], 64)
        E.prove(s, z3.Or(i == -2, z3.And(i >= 0, i < self.n)), 'pre', 'get_next: of a block or of the head')
        return following(i, self.n)

    def setrb(self, s, n):
        for k, o in ((0, Lin(0)), (8, lin(n)), (16, lin(n))):
            self.E.store(s, self.rb.add(Lin(k)), 8, Ptr(self.store.id, o))

    def size(self, s):
        return self.E.load(s, self.rb.add(Lin(8)), 8, 'ptr').off.bv()

    def d(self, s):
        return bv(s.get(self.f, REF, 'decoded_buffer'), 64)

    def cached(self, s):
        """the cached block, if any, is complete (seen at position p)"""
        d = self.d(s)
        off, sz, v = self.block(s, d)
        rb = s.obj(self.store.id).segs[0].fields[(0, 1)]
        return z3.Or(d == -1, z3.And(d >= 0, d < self.n, sz <= self.size(s), z3.Implies(self.covers(s, d), bv(rb.sel(lin(simp(self.p - off))), 8) == v)))

    def resize(self, E, s, a, ins):
        if a[0].obj != self.rb.obj:
            return NotImplemented
        n = bv(a[1], 64)
        old = self.size(s)
        E.prove(s, z3.And(n >= 0, n < BIG), 'pre', 'size of the decoding buffer')
        e = s.fork()
        o = s.wobj(self.store.id)
        g = o.segs[0]
        g.fields[(0, 1)] = Copy(Fill(0, 8), Lin(0), lin(old), g.fields[(0, 1)], Lin(0))
        self.setrb(s, n)
        return en.Outs([('exc', e, '_ZTISt9bad_alloc'), ('ret', s, None)])

    def read_blob(self, E, s, a, ins):
        # sret, this, {position, size}
        r, this, pos, size = a[0], a[1], bv(a[2], 64), bv(a[3], 64)
        e = s.fork()
        n = fresh('encoded.size', 64)
        s.assume(z3.And(n >= 0, n < BIG))
        o = bm.str_set(E, s, r, Base('encoded', 8), lin(n), Lin(0))
        p = E.load(s, r, 8, 'ptr')
        s.wobj(p.obj).meta = {'encoded': (pos, size, n)}
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])

    def decode(self, E, s, a, ins):
        # this, encoded {size, data}, decoded, decoded_size
        es, ed, dst, n = bv(a[1], 64), a[2], a[3], lin(a[4])
        k = (s.obj(ed.obj).meta or {}).get('encoded')
        if k is None:
            raise en.Unsupported('decoding something else than a blob')
        E.prove(s, z3.And(es == k[2], ed.off.bv() == 0), 'pre', 'decode: the whole blob is passed')
        E.prove(s, z3.BoolVal(dst.obj == self.store.id), 'pre', 'decode: into the buffer')
        E.prove(s, z3.ULE(dst.off.bv() + n.bv(), self.size(s)), 'pre', 'decode: inside the buffer')
        e = s.fork()
        E.write_bytes(e, dst, n, Base('partially decoded', 8), Lin(0), 'decoded block')
        E.write_bytes(s, dst, n, Dec(k[0], k[1], n.bv()), Lin(0), 'decoded block')
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])


def following(i, n):
    return simp(z3.If(i == -2, z3.If(n == 0, B(-2), B(0)), z3.If(i + 1 == n, B(-2), i + 1)))


@task('C15', SRC, FLAGS)
def get_next(t):
    """Freedom_Keeper::get_next on a dense set visits 0, 1, ... in order"""
    v = Blocks(t, REF)
    off, size, ty = t.E.M.field(DB, v.st + 'freedom_keeper')
    i = t.var('i')
    v.s.assume(z3.Or(i == -2, z3.And(i >= 0, i < v.n)))
    for o in t.call(v.s, r'^joedb::Freedom_Keeper::get_next\(', [v.db.add(Lin(off)), i]):
        t.prove(o.s, z3.BoolVal(o.ret), 'no exception')
        if o.ret:
            t.prove(o.s, bv(o.v, 64) == following(i, v.n), 'the next identifier')


class Def(en.Cand):
    """a candidate whose proof may use the definition of the functions it mentions"""

    def __init__(self, name, fn, defn):
        en.Cand.__init__(self, name, fn, True)
        self.defn = defn

    def goal(self, s, g):
        return z3.Implies(self.defn(g), self.fn(g))


def done(v, x):
    """blocks visited when the iterator is at identifier x"""
    return z3.If(x == -2, v.n, x)


@task('C15', SRC, FLAGS, budget=300)
def read(t):
    """Readonly_Encoded_File::pread: every byte is that of the last block covering it, the result reaches up to the last covered byte of the range (nothing at or past the end), and the cache stays correct on every exit"""
    v = Reader(t, REF)
    E, s = t.E, v.s
    size, offset = t.var('size'), t.var('offset')
    s.assume(z3.And(size >= 0, size < BIG, offset >= 0, offset < BIG))
    out = s.bytes_obj('caller', lin(size))
    buf = Ptr(out.id, 0)
    first = out.segs[0].fields[(0, 1)]
    inr = z3.And(v.p >= offset, v.p < offset + size)
    ov, ge = Base('overlay', 8), Base('reach', 64)
    at = lambda st: bv(st.obj(out.id).segs[0].fields[(0, 1)].sel(lin(simp(v.p - offset))), 8)
    s.assume(z3.And(bv(ov.sel(Lin(0)), 8) == bv(first.sel(lin(simp(v.p - offset))), 8), bv(ge.sel(Lin(0)), 64) == offset))
    s00 = s.fork()

    def step(k):
        b = lin(simp(k.bv() - 1))
        off, sz, val = v.block(s00, b)
        e = z3.If(offset + size < off + sz, offset + size, off + sz)
        st = z3.If(offset > off, offset, off)
        g0 = bv(ge.sel(b), 64)
        return z3.Implies(z3.And(k.bv() > 0, k.bv() <= v.n),
                          z3.And(bv(ov.sel(k), 8) == z3.If(v.covers(s00, b), val, bv(ov.sel(b), 8)),
                                 bv(ge.sel(k), 64) == z3.If(z3.And(e > st, e > g0), e, g0), bv(ge.sel(k), 64) >= offset, bv(ge.sel(k), 64) <= offset + size))

    def cands(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue
            out.append(en.Cand('iterator', lambda g, k=k: z3.Or(bv(g.cur(k), 64) == -2, z3.And(bv(g.cur(k), 64) >= 0, bv(g.cur(k), 64) < v.n)), True))
            out.append(Def('overlay of the blocks so far', lambda g, k=k: z3.Implies(inr, at(g.s) == bv(ov.sel(lin(simp(done(v, bv(g.cur(k), 64))))), 8)), lambda g, k=k: step(lin(simp(done(v, bv(g.cur(k), 64)))))))
            for k2, w2 in lp.scal:
                if w2 == 64 and k2 != k:
                    out.append(Def('reach of the blocks so far', lambda g, k=k, k2=k2: bv(g.cur(k2), 64) == bv(ge.sel(lin(simp(done(v, bv(g.cur(k), 64))))), 64), lambda g, k=k: step(lin(simp(done(v, bv(g.cur(k), 64)))))))
        out.append(en.Cand('cached block', lambda g: v.cached(g.s), True))
        out.append(en.Cand('buffer', lambda g: z3.And(v.size(g.s) >= 0, v.size(g.s) < BIG), True))
        return out
    E.loop_cands.append(cands)
    E.max_states = 200000
    E.templates = False
    for o in t.call(s, r'^joedb::Readonly_Encoded_File::pread\(', [v.f, buf, size, offset]):
        t.prove(o.s, v.cached(o.s), 'the cached block is complete')
        if o.ret:
            t.prove(o.s, z3.Implies(inr, at(o.s) == bv(ov.sel(lin(v.n)), 8)), 'the byte at p is that of the last block covering p')
            t.prove(o.s, bv(o.v, 64) == bv(ge.sel(lin(v.n)), 64) - offset, 'bytes returned: up to the last covered byte of the range')


@task('C15', SRC, FLAGS)
def size(t):
    """Readonly_Encoded_File::get_size: the largest end of a block"""
    v = Blocks(t, REF)
    E, s = t.E, v.s
    E.contracts[:0] = [(r'^joedb::Freedom_Keeper::get_next\(', lambda E, s, a, ins: following(bv(a[1], 64), v.n), 'Freedom_Keeper::get_next of a dense set (proved in get_next)')]
    top = Base('largest end', 64)
    s.assume(bv(top.sel(Lin(0)), 64) == 0)
    s00 = s.fork()

    def step(k):
        b = lin(simp(k.bv() - 1))
        off, sz, _ = v.block(s00, b)
        g0 = bv(top.sel(b), 64)
        return z3.Implies(z3.And(k.bv() > 0, k.bv() <= v.n), bv(top.sel(k), 64) == z3.If(off + sz > g0, off + sz, g0))

    def cands(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue
            out.append(en.Cand('iterator', lambda g, k=k: z3.Or(bv(g.cur(k), 64) == -2, z3.And(bv(g.cur(k), 64) >= 0, bv(g.cur(k), 64) < v.n)), True))
            for k2, w2 in lp.scal:
                if w2 == 64 and k2 != k:
                    out.append(Def('largest end so far', lambda g, k=k, k2=k2: bv(g.cur(k2), 64) == bv(top.sel(lin(simp(done(v, bv(g.cur(k), 64))))), 64), lambda g, k=k: step(lin(simp(done(v, bv(g.cur(k), 64)))))))
        return out
    E.loop_cands.append(cands)
    for o in t.call(s, r'^joedb::Readonly_Encoded_File::get_size\(', [v.f]):
        t.prove(o.s, z3.BoolVal(o.ret), 'no exception')
        if o.ret:
            t.prove(o.s, bv(o.v, 64) == bv(top.sel(lin(v.n)), 64), 'largest end of a block')


WB = 1 << 20


class Writer:
    """Encoded_File over the contract of its blocks: ghost 'blk' is the value at
    the arbitrary position p of the overlay of the blocks, 'top' their size"""

    def __init__(self, t):
        E, self.t, self.E = t.E, t, t.E
        files.install(E)
        s = self.s = t.state()
        self.f = s.sym(EF, 'file')
        self.p = t.var('position')
        s.assume(z3.And(self.p >= 0, self.p < 1 << 61))
        s.ghost['blk'], s.ghost['top'], s.ghost['writes'] = t.var('block byte', 8), t.var('size'), B(0)
        s.assume(z3.And(s.ghost['top'] >= 0, s.ghost['top'] < 1 << 61))
        off, size, ty = E.M.field(EF, 'write_buffer')
        self.wb = s.bytes_obj('write buffer', Lin(WB))
        for k, o in ((0, 0), (8, WB), (16, WB)):
            E.store(s, self.f.add(Lin(off + k)), 8, Ptr(self.wb.id, Lin(o)))
        o, n = self.state(s)
        s.assume(z3.And(o >= 0, o < BIG, z3.ULE(n, WB), z3.Implies(n == 0, o <= s.ghost['top'])))

    def state(self, s):
        return bv(s.get(self.f, EF, 'write_buffer_offset'), 64), bv(s.get(self.f, EF, 'write_buffer_size'), 64)

    def inv(self, s):
        o, n = self.state(s)
        return z3.And(o >= 0, z3.ULE(n, WB), z3.Implies(n == 0, o <= s.ghost['top']))

    def value(self, s):
        """byte at p of the file, buffered data included"""
        o, n = self.state(s)
        return z3.If(z3.And(self.p >= o, self.p < o + n), bv(s.obj(self.wb.id).segs[0].fields[(0, 1)].sel(lin(simp(self.p - o))), 8), s.ghost['blk'])

    def size(self, s):
        o, n = self.state(s)
        return z3.If(o + n > s.ghost['top'], o + n, s.ghost['top'])

    def write_blob(self, E, s, a, ins):
        # this, {size, data}, offset
        n, d, off = bv(a[1], 64), a[2], bv(a[3], 64)
        E.prove(s, z3.BoolVal(a[0].obj == self.f.obj), 'pre', 'write_blob: of this file')
        arr, i0 = E.read_byte_array(s, d, lin(n), 'write_blob')
        e = s.fork()
        e.ghost['blk'], e.ghost['top'] = fresh('blk', 8), fresh('top', 64)
        inside = z3.And(self.p >= off, self.p < off + n)
        s.ghost['blk'] = simp(z3.If(inside, bv(arr.sel(i0.add(lin(simp(self.p - off)))), 8), s.ghost['blk']))
        s.ghost['top'] = simp(z3.If(off + n > s.ghost['top'], off + n, s.ghost['top']))
        s.ghost['writes'] = simp(s.ghost['writes'] + 1)
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])

    def contracts(self, *names):
        C = {'write_blob': (r'^joedb::Encoded_File::write_blob\(', self.write_blob, 'Encoded_File::write_blob: appends one block (proved in write_blob)'),
             'get_size': (r'^joedb::Readonly_Encoded_File::get_size\(', lambda E, s, a, ins: s.ghost['top'], 'Readonly_Encoded_File::get_size (proved in size)')}
        self.E.contracts[:0] = [C[n] for n in names]


@task('C15', SRC, FLAGS)
def write(t):
    """Encoded_File::pwrite: exactly the bytes of the range change, whether they stay in the write buffer or become blocks; the size becomes the maximum of the old size and the end of the range"""
    v = Writer(t)
    v.contracts('write_blob')
    E, s = t.E, v.s
    n, off = t.var('n'), t.var('offset')
    s.assume(z3.And(n > 0, n < BIG, off >= 0, off < BIG))
    src = s.bytes_obj('caller', lin(n))
    old, size0 = v.value(s), v.size(s)
    new = bv(src.segs[0].fields[(0, 1)].sel(lin(simp(v.p - off))), 8)
    for o in t.call(s, r'^joedb::Encoded_File::pwrite\(', [v.f, Ptr(src.id, 0), n, off]):
        if o.ret:
            t.prove(o.s, v.value(o.s) == z3.If(z3.And(v.p >= off, v.p < off + n), new, old), 'the byte at p is the new one in the range, the old one elsewhere')
            t.prove(o.s, v.size(o.s) == z3.If(off + n > size0, off + n, size0), 'size')
            t.prove(o.s, v.inv(o.s), 'invariant of the write buffer')
        else:
            o_, n_ = v.state(o.s)
            t.prove(o.s, z3.And(o_ >= 0, z3.ULE(n_, WB)), 'invariant of the write buffer after a failure')


@task('C15', SRC, FLAGS)
def flush(t):
    """flush_write_buffer: no byte of the file changes, everything is in blocks; when it fails the buffered data is kept"""
    v = Writer(t)
    v.contracts('write_blob')
    s = v.s
    old, size0 = v.value(s), v.size(s)
    st0 = v.state(s)
    for o in t.call(s, r'^joedb::Encoded_File::flush_write_buffer\(', [v.f]):
        if o.ret:
            t.prove(o.s, z3.And(v.value(o.s) == old, v.size(o.s) == size0, v.inv(o.s)), 'same bytes and size')
            t.prove(o.s, v.state(o.s)[1] == 0, 'nothing is left in the buffer')
            t.prove(o.s, z3.And(o.s.ghost['blk'] == old, o.s.ghost['top'] == size0), 'the blocks hold everything')
        else:
            t.prove(o.s, z3.And(v.state(o.s)[0] == st0[0], v.state(o.s)[1] == st0[1]), 'the buffer is kept')


@task('C15', SRC, FLAGS)
def file_size(t):
    """Encoded_File::get_size: buffered data is part of the file"""
    v = Writer(t)
    v.contracts('get_size')
    for o in t.call(v.s, r'^joedb::Encoded_File::get_size\(', [v.f]):
        t.prove(o.s, z3.BoolVal(o.ret), 'no exception')
        if o.ret:
            t.prove(o.s, bv(o.v, 64) == v.size(o.s), 'size')


@task('C15', SRC, FLAGS)
def buffered_read(t):
    """Encoded_File::pread and sync: buffered data becomes blocks first, so that reading the blocks and checkpointing cover it"""
    for what in ('pread', 'sync'):
        v = Writer(t)
        v.contracts('write_blob')
        E, s = t.E, v.s
        old = v.value(s)
        n, off = t.var('n'), t.var('offset')
        s.assume(z3.And(n >= 0, n < BIG, off >= 0, off < BIG))
        buf = s.bytes_obj('caller', lin(n))
        calls = []

        def inner(E, s, a, ins, what=what):
            E.prove(s, z3.And(v.state(s)[1] == 0, s.ghost['blk'] == old), 'pre', '%s: every byte is in the blocks' % what)
            if what == 'pread':
                E.prove(s, z3.And(z3.BoolVal(a[0].obj == v.f.obj and a[1].obj == buf.id and a[1].off.const() == 0), bv(a[2], 64) == n, bv(a[3], 64) == off), 'pre', 'the range of the caller is read')
            s.ghost['done'] = True
            calls.append(1)
            r = fresh('r', 64)
            s.ghost['r'] = r
            return r if what == 'pread' else None
        E.contracts[:0] = [(r'^joedb::Readonly_Encoded_File::pread\(', inner, 'Readonly_Encoded_File::pread (proved in read)')]
        E.iface[WDB] = {'hard_checkpoint': inner}
        s.ghost['done'] = False
        for o in t.call(s, r'^joedb::Encoded_File::%s\(' % what, [v.f] + ([Ptr(buf.id, 0), n, off] if what == 'pread' else [])):
            if o.ret:
                t.prove(o.s, z3.BoolVal(bool(o.s.ghost['done'])), what + ': done after flushing')
                t.prove(o.s, v.value(o.s) == old, 'no byte changes')
                if what == 'pread':
                    t.prove(o.s, bv(o.v, 64) == o.s.ghost['r'], 'the count is returned')


@task('C15', SRC, FLAGS)
def write_blob(t):
    """Encoded_File::write_blob: one block is added after the others, with the offset and size of the data and a blob that decodes to exactly the data; the other blocks are unchanged; then a checkpoint"""
    v = Blocks(t, EF)
    E, s, db = t.E, v.s, v.db
    n, off = t.var('n'), t.var('offset')
    s.assume(z3.And(n > 0, n < BIG, off >= 0, off < BIG))
    src = s.bytes_obj('data', lin(n))
    data = src.segs[0].fields[(0, 1)]
    a0 = v.arrays(s)
    vt = s.new_obj('vtable:joedb::Codec', None, 'vtable')
    vt.cls = 'joedb::Codec'
    codec = Ptr(s.new_obj('codec', 8).id, 0)
    E.store(s, codec, 8, Ptr(vt.id, 0))
    s.put(v.f, EF, 'codec', codec)
    log = 'log'
    s.ghost[log] = B(0)

    def encode(E, s, a, ins):
        # sret, this, {size, data}
        E.prove(s, z3.And(z3.BoolVal(a[3].obj == src.id and a[3].off.const() == 0), bv(a[2], 64) == n), 'pre', 'encode: the whole data')
        m = fresh('encoded.size', 64)
        s.assume(z3.And(m >= 0, m < BIG))
        e = s.fork()
        bm.str_set(E, s, a[0], Base('encoded', 8), lin(m), Lin(0))
        p = E.load(s, a[0], 8, 'ptr')
        s.wobj(p.obj).meta = {'encoding': m}
        return en.Outs([('exc', e, files.EXC), ('ret', s, None)])

    def journal_blob(E, s, a, ins):
        # this, {size, data}
        m = (s.obj(a[2].obj).meta or {}).get('encoding')
        E.prove(s, z3.BoolVal(m is not None), 'pre', 'write_blob: the encoded text')
        E.prove(s, z3.And(a[2].off.bv() == 0, bv(a[1], 64) == m), 'pre', 'write_blob: the whole encoded text')
        e = s.fork()
        pos = fresh('blob', 64)
        s.ghost['pos'] = pos
        s.ghost['bsz'] = m
        # reading the blob returns what was written (C01, C03) and decoding inverts encoding
        s.assume(z3.Implies(z3.And(v.p >= off, v.p < off + n), DEC(pos, m, n, v.p - off) == bv(data.sel(lin(simp(v.p - off))), 8)))
        return en.Outs([('exc', e, files.EXC), ('ret', s, [pos, m])])

    def op(k):
        def h(E, s, a, ins):
            bit = z3.If(bv(a[3], 16) == 2, B(4), B(8)) if k == 3 else B({1: 1, 2: 2, 4: 16}[k])
            if k != 1:
                E.prove(s, s.ghost[log] & 1 == 1, 'pre', 'the record is inserted first')
            if k == 4:
                E.prove(s, s.ghost[log] == 15, 'pre', 'everything is journalled before the checkpoint')
            s.ghost[log] = simp(s.ghost[log] | bit)
            if k == 1:
                E.prove(s, z3.And(bv(a[1], 16) == 1, bv(a[2], 64) == v.n), 'pre', 'insertion of the new record is journalled')
            if k == 2:
                E.prove(s, z3.And(bv(a[1], 16) == 1, bv(a[2], 64) == v.n, bv(a[3], 16) == 1, bv(a[4], 64) == s.ghost['pos'], bv(a[5], 64) == s.ghost['bsz']), 'pre', 'the blob is journalled')
            if k == 3:
                E.prove(s, z3.And(bv(a[1], 16) == 1, bv(a[2], 64) == v.n, z3.Or(z3.And(bv(a[3], 16) == 2, bv(a[4], 64) == n), z3.And(bv(a[3], 16) == 3, bv(a[4], 64) == off))), 'pre', 'size and offset are journalled')
            e = s.fork()
            e.ghost[log] = B(-1)
            return en.Outs([('exc', e, files.EXC), ('ret', s, None)])
        return h
    E.iface['joedb::Codec'] = {'encode': encode}
    E.iface[WDB] = {'write_blob': journal_blob, 'soft_checkpoint': op(4)}
    E.contracts[:0] = [(r'^joedb::Writable_Journal::insert_into\(', op(1), 'Writable_Journal::insert_into (C03)'),
                       (r'^joedb::Writable_Journal::update_blob\(', op(2), 'Writable_Journal::update_blob (C03)'),
                       (r'^joedb::Writable_Journal::update_int64\(', op(3), 'Writable_Journal::update_int64 (C03)'),
                       (r'^joedb::List_Freedom_Keeper::', lambda E, s, a, ins: E.prove(s, z3.BoolVal(False), 'pre', 'the set of blocks stays dense'), 'dense set')]
    for o in t.call(s, r'^joedb::Encoded_File::write_blob\(', [v.f, n, Ptr(src.id, 0), off]):
        if not o.ret:
            continue
        a = v.arrays(o.s)
        t.prove(o.s, bv(o.s.get(db, DB, v.st + 'freedom_keeper.dfk.used_size'), 64) == v.n + 1, 'one more block')
        t.prove(o.s, bv(o.s.get(db, DB, v.st + 'freedom_keeper.dense'), 8) == 1, 'dense')
        i = lin(v.n)
        t.prove(o.s, z3.And(bv(a['offset'].sel(i), 64) == off, bv(a['size'].sel(i), 64) == n), 'offset and size of the new block')
        o_, sz, val = v.block(o.s, i)
        t.prove(o.s, z3.Implies(z3.And(v.p >= off, v.p < off + n), val == bv(data.sel(lin(simp(v.p - off))), 8)), 'the new block decodes to the data')
        for k in a:
            t.forall(o.s, lambda j, k=k: z3.Implies(z3.ULT(j.bv(), v.n), bv(a[k].sel(j), 64) == bv(a0[k].sel(j), 64)), 'other blocks unchanged (%s)' % k)
        t.prove(o.s, o.s.ghost[log] == 31, 'the operations are journalled, then a checkpoint')
        t.prove(o.s, z3.And(bv(o.s.get(db, DB, v.st + 'freedom_keeper.dfk.free_size'), 64) >= v.n + 1), 'capacity')
