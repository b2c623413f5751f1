"""C03, C23, C24: what is written in a journal is what is replayed.

The file is abstracted by the sequence of values written through the primitives
of File_Buffer; that each primitive reads back what was written, wherever
buffer boundaries fall, is what the C01 and C02 tasks prove."""
import re
import z3
import engine as en
import files
import buffer as fb
import builtins_model as bm
from header import RJ, WJ, BIG
from terms import *
from task import task

SRC = ['joedb/journal/Writable_Journal.cpp', 'joedb/journal/Readonly_Journal.cpp', 'drivers/journal.cpp']
WR = 'joedb::Writable'
FBUF = r'joedb::File_Buffer::'
CTX = (('table_of_last_operation', 16), ('record_of_last_operation', 64), ('field_of_last_update', 16))
REFERENCE = 4   # Type::Type_Id::reference
SIZES = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'float32': 4, 'float64': 8, 'boolean': 1}
TYPES = list(SIZES) + ['reference', 'blob', 'string']


def G(s, k, d=()):
    return s.ghost.get(('j', k), d)


def S(s, k, v):
    s.ghost[('j', k)] = v


def width(v, w=None):
    if isinstance(v, z3.BitVecRef):
        return v.size()
    return w


# -------------------------------------------------------- write primitives
def put(s, tok):
    S(s, 'tok', G(s, 'tok') + (tok,))


def w_raw(E, s, a, ins):
    put(s, ('raw', a[1]))


def w_compact(E, s, a, ins):
    v = bv(a[1], width(a[1], 64))
    v = z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
    E.prove(s, z3.ULT(v, 1 << 61), 'pre', 'compact_write: the value fits')
    put(s, ('compact', v))


def w_ref(E, s, a, ins):
    v = bv(a[1], 64)
    E.prove(s, z3.And(v >= -1, v < (1 << 61) - 1), 'pre', 'write_reference: the value fits')
    put(s, ('ref', v))


def w_data(kind):
    def h(E, s, a, ins):
        n = lin(a[2])
        arr, i = E.read_byte_array(s, a[1], n, kind)
        put(s, (kind, arr, i, n))
    return h


def w_string(E, s, a, ins):
    n = lin(a[1])
    arr, i = E.read_byte_array(s, a[2], n, 'string')
    put(s, ('string', arr, i, n))


def w_blob(E, s, a, ins):
    p, n = [bv(x, 64) for x in a[1:3]]
    put(s, ('blob', p, n))


def pos(E, k):
    d = E.__dict__.setdefault('jpos', {})
    if k not in d:
        d[k] = z3.BitVec('jpos%d' % k, 64)
    return d[k]


def w_position(E, s, a, ins):
    v = pos(E, len(G(s, 'tok')) if G(s, 'at', None) is None else G(s, 'at'))
    s.assume(z3.And(v >= 41, v < BIG))
    return v


def writer_contracts(E):
    W = [(FBUF + r'write<.*>\(', w_raw, 'File_Buffer::write (C01)'), (FBUF + r'compact_write<.*>\(', w_compact, 'File_Buffer::compact_write (C01)'),
         (FBUF + r'write_reference\(', w_ref, 'File_Buffer::write_reference (C01)'), (FBUF + r'write_data\(', w_data('data'), 'File_Buffer::write_data (C02)'),
         (FBUF + r'write_string\(', w_string, 'File_Buffer::write_string (C02)'), (FBUF + r'write_blob\(', w_blob, 'File_Buffer::write_blob (C01)'),
         (r'joedb::File_Iterator::write\(', w_data('data'), 'File_Iterator::write (C02)'), (FBUF + r'flush\(', lambda E, s, a, ins: None, 'File_Buffer::flush (C02)'),
         (FBUF + r'get_position\(', w_position, 'File_Buffer::get_position (C02)')]
    E.contracts += W


# --------------------------------------------------------- read primitives
def take(E, s, kind, what):
    k = G(s, 'at', 0)
    T = G(s, 'tok')
    ok = k < len(T) and T[k][0] == kind
    E.prove(s, z3.BoolVal(bool(ok)), 'pre', 'format: %s reads what was written there' % what)
    if not ok:
        raise en.PathEnd()
    S(s, 'at', k + 1)
    return T[k]


def fit(v, w):
    v = bv(v, width(v, w))
    if v.size() > w:
        return simp(z3.Extract(w - 1, 0, v))
    return simp(z3.ZeroExt(w - v.size(), v)) if v.size() < w else v


def ret_width(ins):
    ty = ins.get('ty')
    return int(ty[1:]) if isinstance(ty, str) and re.match(r'^[if]\d+$', ty) else {'float': 32, 'double': 64}.get(ty)


def r_raw(E, s, a, ins):
    v = take(E, s, 'raw', 'read')[1]
    w = ret_width(ins)
    vw = width(v, w)
    E.prove(s, z3.BoolVal(vw == w), 'pre', 'format: same width')
    return v


def r_compact(E, s, a, ins):
    return fit(take(E, s, 'compact', 'compact_read')[1], ret_width(ins))


def r_ref(E, s, a, ins):
    return take(E, s, 'ref', 'read_reference')[1]


def r_string(E, s, a, ins):
    # sret, this, bound
    t = take(E, s, 'string', 'read_string')
    if len(a) > 2:
        # strings are always shorter than the checkpoint that covers them
        E.prove(s, z3.ULT(t[3].bv(), bv(a[2], 64)), 'pre', 'safe_read_string: bounded by the checkpoint')
    bm.str_set(E, s, a[0], t[1], t[3], t[2])


def r_data(E, s, a, ins):
    t = take(E, s, 'data', 'read_data')
    n = lin(a[2])
    E.prove(s, n.bv() == t[3].bv(), 'pre', 'read_data: reads exactly what was written')
    E.write_bytes(s, a[1], n, t[1], t[2], 'read_data destination')
    return n.val()


def r_ignore(E, s, a, ins):
    t = take(E, s, 'data', 'ignore')
    E.prove(s, bv(a[1], 64) == t[3].bv(), 'pre', 'ignore: skips exactly what was written')


def r_blob(E, s, a, ins):
    t = take(E, s, 'blob', 'read_blob')
    return [t[1], t[2]]


def r_position(E, s, a, ins):
    v = pos(E, G(s, 'at', 0))
    s.assume(z3.And(v >= 41, v < BIG))
    return v


def reader_contracts(E):
    E.contracts += [(FBUF + r'read<.*>\(', r_raw, 'File_Buffer::read (C01)'), (FBUF + r'compact_read<.*>\(', r_compact, 'File_Buffer::compact_read (C01)'),
                    (FBUF + r'read_reference\(', r_ref, 'File_Buffer::read_reference (C01)'), (FBUF + r'read_blob\(', r_blob, 'File_Buffer::read_blob (C01)'),
                    (FBUF + r'(safe_)?read_string', r_string, 'File_Buffer::safe_read_string (C02)'), (FBUF + r'read_data\(', r_data, 'File_Buffer::read_data (C02)'),
                    (FBUF + r'ignore\(', r_ignore, 'File_Buffer::ignore (C02)'), (FBUF + r'get_position\(', r_position, 'File_Buffer::get_position (C02)')]


# ------------------------------------------------------- the receiver
def args_of(E, s, meth, a):
    """arguments in a form that survives later changes of memory"""
    out = []
    for x in a[1:]:
        out.append(x)
    return out


def receiver(E, blobs=False, own=None):
    def any_method(E, s, a, ins, meth):
        if meth == 'get_position':
            return w_position(E, s, a, ins)   # the journal itself
        if meth == 'wants_blob_data':
            return bool(blobs)
        m = re.match(r'^get_own_(\w+)_storage$', meth)
        if m:
            return own(E, s, a, m.group(1))
        vals = []
        if meth in ('create_table', 'custom', 'comment'):
            vals = [('str',) + bm.str_arr(E, s, a[1])]
        elif meth in ('rename_table', 'add_field'):
            vals = [a[1], ('str',) + bm.str_arr(E, s, a[2])] + list(a[3:])
        elif meth == 'rename_field':
            vals = [a[1], a[2], ('str',) + bm.str_arr(E, s, a[3])]
        elif meth in ('update_string', 'write_blob'):
            k = 1 if meth == 'write_blob' else 4
            n = lin(a[k])
            arr, i = E.read_byte_array(s, a[k + 1], n)
            vals = list(a[1:k]) + [('str', arr, i, n)]
        elif meth.startswith('update_vector_'):
            sz = SIZES[meth[14:]] if meth[14:] in SIZES else None
            if sz:
                n = lin(a[4]).scale(sz)
                arr, i = E.read_byte_array(s, a[5], n, 'data of ' + meth)
                vals = list(a[1:5]) + [('str', arr, i, n)]
            else:
                vals = list(a[1:5]) + [a[5]]
        else:
            vals = list(a[1:])
        S(s, 'calls', G(s, 'calls') + ((meth, vals),))
        if meth == 'write_blob':
            return [fresh('blob.pos', 64), fresh('blob.size', 64)]
        return None
    E.iface[WR] = {'*': any_method}


def same(t, s, x, y, what):
    if isinstance(x, tuple) or isinstance(y, tuple):
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            return t.prove(s, z3.BoolVal(False), what)
        t.prove(s, x[3].bv() == y[3].bv(), what + ': size')
        n = y[3].bv()
        t.forall(s, lambda i: z3.Implies(z3.ULT(i.bv(), n), bv(x[1].sel(x[2].add(i)), 8) == bv(y[1].sel(y[2].add(i)), 8)), what + ': contents')
        return
    if isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
        x, y = [z3.BoolVal(v) if isinstance(v, bool) else v if isinstance(v, z3.BoolRef) else bv(v, width(v, 8)) != 0 for v in (x, y)]
        return t.prove(s, x == y, what)
    w = width(x) or width(y) or 64
    t.prove(s, bv(x, w) == bv(y, w), what)


# ------------------------------------------------------------ the tasks
class Replay:
    def __init__(self, t, blobs=False, own=None):
        E = self.E = t.E
        self.t = t
        files.install(E)
        s = self.s = t.state()
        self.cp = t.var('checkpoint')
        s.assume(z3.And(self.cp >= 41, self.cp < BIG))
        self.w, self.r = s.sym(WJ, 'writer'), s.sym(RJ, 'reader')
        self.ctx = []
        for n, w in CTX:
            v = t.var(n, w)
            self.ctx.append(v)
            s.put(self.w, WJ, n, v)
            s.put(self.r, RJ, n, v)
        s.assume(z3.And(self.ctx[1] >= -1, self.ctx[1] < (1 << 60)))
        s.put(self.r, RJ, 'checkpoint_position', self.cp)
        self.recv = s.sym(WR, 'receiver', 64)
        writer_contracts(E)
        reader_contracts(E)
        receiver(E, blobs, own)

    def run(self, fn, args, want, ret=None):
        """write the operation, then replay it: the receiver gets exactly `want`"""
        t = self.t
        for o in t.call(self.s, r'^joedb::Writable_Journal::%s\(' % fn, [self.w] + args):
            t.prove(o.s, z3.BoolVal(o.ret), 'writing does not fail')
            if not o.ret:
                continue
            if ret:
                ret(o)
            S(o.s, 'at', 0)
            for p in t.call(o.s, r'^joedb::Readonly_Journal::one_step\(', [self.r, self.recv], cover=False):
                t.prove(p.s, z3.BoolVal(p.ret), 'replaying does not fail')
                if not p.ret:
                    continue
                calls = G(p.s, 'calls')
                T, at = G(p.s, 'tok'), G(p.s, 'at', 0)
                rest = T[at:]
                t.prove(p.s, z3.And([c for k in rest for c in ([k[3].bv() == 0] if k[0] == 'data' else [z3.BoolVal(False)])]), 'replaying consumes exactly what was written')
                for (n, w) in CTX:
                    t.prove(p.s, bv(p.s.get(self.w, WJ, n), w) == bv(p.s.get(self.r, RJ, n), w), 'reader and writer agree on ' + n)
                W = want(p.s) if callable(want) else want
                t.prove(p.s, z3.BoolVal([c[0] for c in calls] == [c[0] for c in W]), 'exactly one operation is delivered: %s' % [c[0] for c in W])
                for (m, vals), (m2, vals2) in zip(calls, W):
                    if m != m2:
                        break
                    t.prove(p.s, z3.BoolVal(len(vals) == len(vals2)), 'number of arguments')
                    for k, (x, y) in enumerate(zip(vals, vals2)):
                        same(t, p.s, x, y, '%s: argument %d' % (m, k))

    # symbolic arguments
    def table(self, name='table'):
        return self.t.var(name, 16)

    def record(self, name='record'):
        v = self.t.var(name, 64)
        self.s.assume(z3.And(v >= -1, v < (1 << 60)))
        return v

    def string(self, name='name'):
        p = Ptr(self.s.sym('std::string', name, 32).obj, 0)
        bm.fresh_string(self.E, self.s, p, name)
        a = bm.str_arr(self.E, self.s, p)
        # covered by the checkpoint of the reader
        self.s.assume(z3.ULT(a[2].bv(), self.cp))
        return p, ('str',) + a

    def view(self, name='value'):
        p, v = self.string(name)
        d, n = bm.str_parts(self.E, self.s, p)
        return [n, d], v


@task('C03', SRC)
def tables(t):
    """create_table, drop_table, rename_table"""
    x = Replay(t)
    p, n = x.string()
    x.run('create_table', [p], [('create_table', [n])])
    x = Replay(t)
    a = x.table()
    x.run('drop_table', [a], [('drop_table', [a])])
    x = Replay(t)
    a = x.table()
    p, n = x.string()
    x.run('rename_table', [a, p], [('rename_table', [a, n])])


@task('C03', SRC)
def fields(t):
    """add_field of every type, drop_field, rename_field"""
    for ref in (True, False):
        x = Replay(t)
        a = x.table()
        p, n = x.string()
        ty = t.var('type', 32)
        k = z3.Extract(7, 0, ty)
        refid = REFERENCE
        x.s.assume(k == refid if ref else z3.And(k != refid, z3.ULE(k, 10)))
        if not ref:
            x.s.assume(z3.Extract(31, 16, ty) == 0)
        x.s.assume(z3.Extract(15, 8, ty) == 0)   # padding

        def same_type(s, ty=ty):
            got = [c for c in G(s, 'calls') if c[0] == 'add_field']
            if got:
                v = bv(got[0][1][2], 32)
                t.prove(s, z3.And(z3.Extract(7, 0, v) == z3.Extract(7, 0, ty), z3.Extract(31, 16, v) == z3.Extract(31, 16, ty)), 'type of the field')
                return [('add_field', [a, n, v])]
            return [('add_field', [a, n, ty])]
        x.run('add_field', [a, p, ty], same_type)
    x = Replay(t)
    a, f = x.table(), x.table('field')
    x.run('drop_field', [a, f], [('drop_field', [a, f])])
    x = Replay(t)
    a, f = x.table(), x.table('field')
    p, n = x.string()
    x.run('rename_field', [a, f, p], [('rename_field', [a, f, n])])


@task('C03', SRC)
def events(t):
    """custom, comment, timestamp, valid_data"""
    for m in ('custom', 'comment'):
        x = Replay(t)
        p, n = x.string()
        x.run(m, [p], [(m, [n])])
    x = Replay(t)
    v = t.var('timestamp')
    x.run('timestamp', [v], [('timestamp', [v])])
    x = Replay(t)
    x.run('valid_data', [], [('valid_data', [])])


@task('C03', SRC)
def records(t):
    """insert_into (compressed or not), delete_from, insert_vector, delete_vector"""
    for m in ('insert_into', 'delete_from'):
        x = Replay(t)
        a, r = x.table(), x.record()
        x.run(m, [a, r], [(m, [a, r])])
    for m in ('insert_vector', 'delete_vector'):
        x = Replay(t)
        a, r = x.table(), x.record()
        n = t.var('size')
        x.s.assume(z3.ULT(n, 1 << 61))
        x.run(m, [a, r, n], [(m, [a, r, n])])


def update_task(t, ty):
    x = Replay(t)
    a, r, f = x.table(), x.record(), x.table('field')
    if ty == 'string':
        arg, v = x.view()
        v = [v]
    elif ty == 'blob':
        arg = [t.var('blob.position'), t.var('blob.size')]
        v = arg
    elif ty == 'reference':
        arg = [x.record('value')]
        v = arg
    elif ty == 'boolean':
        b = t.var('value', 8)
        x.s.assume(z3.Or(b == 0, b == 1))
        arg = [b == 1]
        v = [b == 1]
    else:
        arg = [t.var('value', 8 * SIZES[ty])]
        v = arg
    x.run('update_' + ty, [a, r, f] + arg, [('update_' + ty, [a, r, f] + v)])


def mk_update(ty):
    def f(t):
        update_task(t, ty)
    f.__name__ = 'update_' + ty
    f.__module__ = __name__
    f.__doc__ = 'update_%s in its three forms' % ty
    task('C03', SRC)(f)


for _ty in TYPES:
    mk_update(_ty)


def vector_task(t, ty, own):
    sz = SIZES[ty]

    def storage(E, s, a, name):
        outs = []
        e = s.fork()
        E.store(e, a[4], 8, z3.BitVecVal(0, 64))
        outs.append(('ret', e, Ptr(None, 0)))
        # storage of the receiver, with all records of the range
        c = z3.BitVec(fresh_name('capacity'), 64)
        rec = bv(a[2], 64)
        E.prove(s, rec == r, 'pre', 'storage is asked for the record of the range')
        s.assume(z3.And(z3.ULT(c, 1 << 57), rec >= 0, z3.ULE(rec + n, c)))
        o = s.new_obj('storage', lin(c).scale(sz))
        g = en.Seg(0, lin(c).scale(sz), sz)
        g.fields[(0, sz)] = Base('storage', 8 * sz)
        o.segs.append(g)
        E.store(s, a[4], 8, c)
        outs.append(('ret', s, Ptr(o.id, lin(rec).scale(sz))))
        return en.Outs(outs)
    x = Replay(t, own=storage)
    s = x.s
    a, r, f = x.table(), x.record(), x.table('field')
    n = t.var('size')
    s.assume(z3.And(z3.ULT(n, 1 << 56), n != 0, z3.ULE(n, x.cp)))
    o = s.new_obj('values', lin(n).scale(sz))
    arr = Base('values', 8 * sz)
    sg = en.Seg(0, lin(n).scale(sz), sz)
    sg.fields[(0, sz)] = arr
    o.segs.append(sg)
    p = Ptr(o.id, 0)
    ba, bi = x.E.read_byte_array(s, p, lin(n).scale(sz))
    x.run('update_vector_' + ty, [a, r, f, n, p], [('update_vector_' + ty, [a, r, f, n, ('str', ba, bi, lin(n).scale(sz))])])


def mk_vector(ty):
    def f(t):
        vector_task(t, ty, False)
    f.__name__ = 'update_vector_' + ty
    f.__module__ = __name__
    f.__doc__ = 'update_vector_%s of any size, received in a temporary buffer' % ty
    task('C03', SRC)(f)


for _ty in SIZES:
    mk_vector(_ty)


@task('C03', SRC)
def blobs(t):
    """write_blob returns the locator that is replayed; its contents are skipped or delivered exactly"""
    for want in (False, True):
        x = Replay(t, blobs=want)
        arg, v = x.view('data')
        loc = []

        def calls(s):
            p = pos(x.E, 2)
            n = v[3].bv()
            return [('on_blob', [p, n])] + ([('write_blob', [v])] if want else [])
        def locator(o):
            v2 = o.v
            t.prove(o.s, z3.And(bv(v2[0], 64) == pos(x.E, 2), bv(v2[1], 64) == v[3].bv()), 'the locator returned is that of the contents')
        x.run('write_blob', arg, calls, locator)
