"""C21 (forwarding) and C22 (range operations)."""
import re
import z3
import engine as en
import files
import builtins_model as bm
from terms import *
from task import task
from s_journal import WR, SIZES, TYPES, width

SRC = ['joedb/Multiplexer.cpp', 'joedb/Selective_Writable.cpp', 'joedb/Writable.cpp']
MX, SW = 'joedb::Multiplexer', 'joedb::Selective_Writable'
ELEM = dict(SIZES, reference=8, blob=16, string=32)


def snapshot(E, s, x):
    """an argument, in a form independent of memory"""
    if isinstance(x, Ptr) and x.obj is not None:
        return ('ptr', x)
    return x


def eq_arg(E, s, x, y, what):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        if not (isinstance(x, Ptr) and isinstance(y, Ptr)):
            return E.prove(s, z3.BoolVal(False), 'pre', what)
        if x.obj is None or y.obj is None:
            return E.prove(s, z3.BoolVal(x.obj is None and y.obj is None), 'pre', what)
        if x.obj != y.obj:
            # another string with the same contents
            try:
                (a, i, n), (b, j, m) = bm.str_arr(E, s, x), bm.str_arr(E, s, y)
            except Exception:
                return E.prove(s, z3.BoolVal(False), 'pre', what)
            E.prove(s, n.bv() == m.bv(), 'pre', what + ': size')
            k = fresh('k', 64)
            s2 = s.fork()
            s2.assume(z3.ULT(k, n.bv()))
            return E.prove(s2, bv(a.sel(i.add(lin(k))), 8) == bv(b.sel(j.add(lin(k))), 8), 'pre', what + ': contents')
        return E.prove(s, x.off.bv() == y.off.bv(), 'pre', what)
    if isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
        f = [z3.BoolVal(v) if isinstance(v, bool) else v if isinstance(v, z3.BoolRef) else bv(v, width(v, 8)) != 0 for v in (x, y)]
        return E.prove(s, f[0] == f[1], 'pre', what)
    w = width(x) or width(y) or 64
    E.prove(s, bv(x, w) == bv(y, w), 'pre', what)


def throws(s, v=None):
    e = s.fork()
    return en.Outs([('exc', e, files.EXC), ('ret', s, v)])


SCALARS = {'drop_table': [16], 'drop_field': [16, 16], 'insert_into': [16, 64], 'delete_from': [16, 64], 'insert_vector': [16, 64, 64],
           'delete_vector': [16, 64, 64], 'timestamp': [64], 'valid_data': [], 'flush': [], 'start_writing': [64], 'end_writing': [64],
           'soft_checkpoint': [], 'hard_checkpoint': [], 'on_blob': [64, 64], 'create_table': ['s'], 'rename_table': [16, 's'],
           'add_field': [16, 's', 32], 'rename_field': [16, 16, 's'], 'custom': ['s'], 'comment': ['s']}
for _t in TYPES:
    SCALARS['update_' + _t] = [16, 64, 16] + {'string': ['v'], 'blob': [64, 64], 'reference': [64], 'boolean': ['b']}.get(_t, [8 * SIZES.get(_t, 8)])
    SCALARS['update_vector_' + _t] = [16, 64, 16, 64, 'p']
ALL = sorted(SCALARS)


def arguments(t, s, meth):
    out = []
    for k, w in enumerate(SCALARS[meth]):
        nm = 'arg%d' % k
        if w == 's':
            p = Ptr(s.sym('std::string', nm, 32).obj, 0)
            bm.fresh_string(t.E, s, p, nm)
            out.append(p)
        elif w == 'v':
            n = t.var(nm + '.size')
            s.assume(z3.ULT(n, 1 << 40))
            out += [n, Ptr(s.bytes_obj(nm + '.data', lin(n)).id, 0)]
        elif w == 'b':
            b = t.var(nm, 8)
            s.assume(z3.Or(b == 0, b == 1))
            out.append(b == 1)
        elif w == 'p':
            n, sz = out[3], ELEM[meth[14:]]
            s.assume(z3.ULT(n, 1 << 40))
            o = s.new_obj(nm, lin(n).scale(sz))
            o.segs.append(en.Seg(0, lin(n).scale(sz), sz))
            out.append(Ptr(o.id, 0))
        else:
            out.append(t.var(nm, w))
    return out


class Mux:
    def __init__(self, t):
        E, self.t, self.E = t.E, t, t.E
        files.install(E)
        s = self.s = t.state()
        self.m = s.sym(MX, 'multiplexer')
        off = self.field(t, 'writables')
        base = E.load(s, self.m.add(Lin(off)), 8, 'ptr')
        end = E.load(s, self.m.add(Lin(off + 8)), 8, 'ptr')
        self.n = end.off.sub(base.off).div(8).bv()
        self.start = bv(s.get(self.m, MX, 'start_index'), 64)
        self.idx = {}
        s.obj(base.obj).meta['elem_ptr'] = self.element
        self.base = base.obj
        self.want = None
        s.ghost['served'] = self.start
        s.ghost['n'] = self.n
        E.iface[WR] = {'*': self.method}
        if 'served' not in E.__dict__:
            E.served = True
            E.loop_cands += [self.cands]

    def cands(self, E, lp):
        # n of the current multiplexer is a ghost constant
        if 'served' not in lp.s0.ghost:
            return []
        out = [en.Cand('no more than the targets', lambda g: z3.ULE(g.s.ghost['served'], g.s.ghost['n']), True)]
        for k, w in lp.scal:
            if k[0] == 'poff':
                out.append(en.Cand('iterator', lambda g, k=k: z3.And(bv(g.cur(k), 64) == 8 * g.s.ghost['served'], z3.ULE(bv(g.cur(k), 64), 8 * g.s.ghost['n'])), True))
        return out

    @staticmethod
    def field(t, name):
        for off, sz, ty, path in t.M.leaves(MX):
            if path.split('.')[-1] == name or path == name:
                return off
        raise en.Unsupported('no field ' + name)

    def element(self, s, o, i, f=0):
        if isinstance(i, int):
            i = Lin(i // 8)
        p = s.sym(WR, 'target', 64)
        self.idx[p.obj] = i
        return p

    def index(self, p):
        i = self.idx.get(p.obj)
        if i is None:
            raise en.Unsupported('call on something else than a target')
        return i.bv()

    def method(self, E, s, a, ins, meth):
        i = self.index(a[0])
        name, args = self.want
        E.prove(s, z3.BoolVal(meth == name), 'pre', 'the operation forwarded is the one received')
        E.prove(s, z3.ULT(i, self.n), 'pre', 'only targets receive operations')
        E.prove(s, i == s.ghost['served'], 'pre', 'every target receives the operation once, in order')
        for k, (x, y) in enumerate(zip(a[1:], args)):
            eq_arg(E, s, x, y, '%s: argument %d is forwarded unchanged' % (meth, k))
        s.ghost['served'] = simp(i + 1)
        return throws(s)


def mk_mux(ops, name):
    def f(t):
        for op in ops:
            m = Mux(t)
            args = arguments(t, m.s, op)
            m.want = (op, args)
            m.s.assume(z3.ULE(m.start, m.n))
            for o in t.call(m.s, r'^joedb::Multiplexer::%s\(' % op, [m.m] + args):
                if o.ret:
                    t.prove(o.s, o.s.ghost['served'] == m.n, '%s: every target has received the operation' % op)
    f.__name__ = 'multiplexer_' + name
    f.__module__ = __name__
    f.__doc__ = 'Multiplexer forwards to every target once, in order, unchanged: ' + ', '.join(ops)
    task('C21', SRC)(f)


mk_mux([m for m in ALL if not m.startswith('update_')], 'events')
mk_mux([m for m in ALL if m.startswith('update_') and not m.startswith('update_vector_')], 'updates')
mk_mux([m for m in ALL if m.startswith('update_vector_')], 'range_updates')


@task('C21', SRC)
def multiplexer_blobs(t):
    """write_blob: forwarded once to every target that wants contents, returning the locator of one; wants_blob_data"""
    m = Mux(t)
    s = m.s
    data = [t.var('size'), None]
    s.assume(z3.ULT(data[0], 1 << 40))
    data[1] = Ptr(s.bytes_obj('data', lin(data[0])).id, 0)
    wants_arr = Base('wants', 8)

    def wants(i):
        return bv(wants_arr.sel(lin(i)), 8) != 0
    loc = [z3.Function('locator%d' % k, z3.BitVecSort(64), z3.BitVecSort(64)) for k in range(2)]

    def fresh_state(m, s):
        del s.ghost['served']
        s.ghost['written'] = z3.BitVecVal(0, 64)     # 1 + last target that received the contents

    def nobody(s, lo, hi, what):
        j = fresh('j', 64)
        s2 = s.fork()
        s2.assume(z3.And(z3.ULE(lo, j), z3.ULT(j, hi)))
        t.E.prove(s2, z3.Not(wants(j)), 'post', what)

    def method(E, s, a, ins, meth):
        i = m.index(a[0])
        E.prove(s, z3.ULT(i, m.n), 'pre', 'only targets receive operations')
        if meth == 'wants_blob_data':
            return wants(i)
        E.prove(s, z3.BoolVal(meth == 'write_blob'), 'pre', 'only write_blob is forwarded')
        E.prove(s, wants(i), 'pre', 'only targets that want contents receive them')
        E.prove(s, z3.ULE(s.ghost['written'], i), 'pre', 'every target receives the blob once, in order')
        nobody(s, s.ghost['written'], i, 'no target that wants contents is left out')
        eq_arg(E, s, a[1], data[0], 'size of the contents')
        eq_arg(E, s, a[2], data[1], 'contents')
        s.ghost['written'] = simp(i + 1)
        return throws(s, [loc[0](i), loc[1](i)])

    def cands(E, lp):
        if 'written' not in lp.s0.ghost:
            return []
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue
            hi = (lambda g, k=k: z3.LShR(bv(g.cur(k), 64), 3)) if k[0] == 'poff' else (lambda g, k=k: bv(g.cur(k), 64))
            if k[0] in ('poff', 'phi'):
                def quiet(g, hi=hi):
                    lo, h = g.s.ghost['written'], hi(g)
                    return [wants_arr], lambda j: z3.Implies(z3.And(z3.ULE(lo, j.bv()), z3.ULT(j.bv(), h)), z3.Not(wants(j.bv())))
                out.append(en.QCand('targets passed over do not want contents', quiet, True))
                if k[0] == 'poff':
                    out.append(en.Cand('range', lambda g, k=k: z3.ULE(bv(g.cur(k), 64), 8 * m.n), True))
                out.append(en.Cand('order', lambda g, hi=hi: z3.And(z3.ULE(g.s.ghost['written'], hi(g)), z3.ULE(hi(g), m.n)), True))
            for l in loc:
                out.append(en.Cand('locator', lambda g, k=k, l=l: z3.Or(g.s.ghost['written'] == 0, bv(g.cur(k), 64) == l(g.s.ghost['written'] - 1)), True))
        return out

    t.E.loop_cands += [cands]
    fresh_state(m, s)
    t.E.iface[WR] = {'*': method}
    for o in t.call(s, r'^joedb::Multiplexer::write_blob\(', [m.m] + data):
        if o.ret:
            wr = o.s.ghost['written']
            nobody(o.s, wr, m.n, 'no target that wants contents is left out')
            p, n = [bv(x, 64) for x in o.v]
            t.prove(o.s, z3.Implies(wr != 0, z3.And(p == loc[0](wr - 1), n == loc[1](wr - 1))), 'the locator returned is that of a target that wants contents')
    m = Mux(t)
    fresh_state(m, m.s)
    t.E.iface[WR] = {'*': method}
    for o in t.call(m.s, r'^joedb::Multiplexer::wants_blob_data\(', [m.m]):
        if o.ret:
            v = o.v
            v = z3.BoolVal(v) if isinstance(v, bool) else v if isinstance(v, z3.BoolRef) else bv(v, width(v, 8)) != 0
            s2 = o.s.fork()
            s2.assume(z3.Not(v))
            nobody(s2, z3.BitVecVal(0, 64), m.n, 'contents are not wanted only if no target wants them')


@task('C21', SRC)
def multiplexer_storage(t):
    """get_own_*_storage: the storage (and its capacity) of the first target that has one"""
    for ty in TYPES:
        m = Mux(t)
        s = m.s
        args = [t.var('table', 16), t.var('record'), t.var('field', 16)]
        s.ghost['served'] = z3.BitVecVal(0, 64)
        store = s.new_obj('storage', None)
        cap = Ptr(s.new_obj('capacity', 8).id, 0)
        t.E.store(s, cap, 8, t.var('old capacity'))
        at, size = [z3.Function(x, z3.BitVecSort(64), z3.BitVecSort(64)) for x in ('address', 'capacity')]

        def method(E, s, a, ins, meth):
            i = m.index(a[0])
            E.prove(s, z3.ULT(i, m.n), 'pre', 'only targets are asked')
            E.prove(s, z3.BoolVal(meth == 'get_own_%s_storage' % ty), 'pre', 'same type')
            E.prove(s, i == s.ghost['served'], 'pre', 'targets are asked in order')
            for k in range(3):
                eq_arg(E, s, a[k + 1], args[k], '%s: argument %d' % (meth, k))
            s.ghost['served'] = simp(i + 1)
            e = s.fork()
            E.store(e, a[4], 8, z3.BitVecVal(0, 64))
            x = s.fork()
            E.store(s, a[4], 8, size(i))
            return en.Outs([('exc', x, files.EXC), ('ret', e, Ptr(None, 0)), ('ret', s, Ptr(store.id, lin(at(i))))])
        t.E.iface[WR] = {'*': method}
        for o in t.call(s, r'^joedb::Multiplexer::get_own_%s_storage(\[abi:cxx11\])?\(' % ty, [m.m] + args + [cap]):
            if o.ret:
                g = o.s.ghost['served']
                if isinstance(o.v, Ptr) and o.v.obj is not None:
                    t.prove(o.s, z3.BoolVal(o.v.obj == store.id), 'storage of a target')
                    t.prove(o.s, o.v.off.bv() == at(g - 1), 'storage of the last target asked')
                    t.prove(o.s, bv(t.E.load(o.s, cap, 8), 64) == size(g - 1), 'its capacity')
                else:
                    t.prove(o.s, g == m.n, 'no storage only if no target has one')
                    t.prove(o.s, bv(t.E.load(o.s, cap, 8), 64) == 0, 'no capacity')


# --------------------------------------------------- selective forwarding
CATEGORY = {}
for _m in ALL:
    if _m in ('create_table', 'drop_table', 'rename_table', 'add_field', 'drop_field', 'rename_field', 'custom'):
        CATEGORY[_m] = 1
    elif _m in ('comment', 'timestamp', 'valid_data'):
        CATEGORY[_m] = 4
    elif _m in ('insert_into', 'delete_from', 'insert_vector', 'delete_vector') or _m.startswith('update_') and not _m.startswith('update_vector_'):
        CATEGORY[_m] = 2
    elif _m in ('start_writing', 'end_writing', 'soft_checkpoint', 'hard_checkpoint'):
        CATEGORY[_m] = 0      # always


@task('C21', SRC)
def selective(t):
    """Selective_Writable forwards exactly the categories of its mode"""
    for op, cat in sorted(CATEGORY.items()):
        E = t.E
        files.install(E)
        s = t.state()
        w = s.sym(SW, 'selective')
        target = s.get(w, SW, 'writable')
        mode = bv(s.get(w, SW, 'mode'), 32)
        s.assume(z3.ULE(mode, 7))
        s.ghost['calls'] = z3.BitVecVal(0, 64)
        args = arguments(t, s, op)

        def method(E, s, a, ins, meth):
            E.prove(s, z3.BoolVal(meth == op), 'pre', 'the operation forwarded is the one received')
            for k, (x, y) in enumerate(zip(a[1:], args)):
                eq_arg(E, s, x, y, '%s: argument %d is forwarded unchanged' % (meth, k))
            s.ghost['calls'] = s.ghost['calls'] + 1
            return throws(s)
        E.iface[WR] = {'*': method}
        on = z3.BoolVal(True) if cat == 0 else (mode & cat) != 0
        for o in t.call(s, r'^joedb::Selective_Writable::%s\(' % op, [w] + args):
            t.prove(o.s, o.s.ghost['calls'] == z3.If(on, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), '%s is forwarded exactly when its category is selected' % op)
    s = t.state()
    w = s.sym(SW, 'selective')
    E.iface[WR] = {'*': lambda E, s, a, ins, meth: E.prove(s, z3.BoolVal(False), 'pre', 'blobs are not forwarded')}
    for o in t.call(s, r'^joedb::Selective_Writable::on_blob\(', [w, t.var('p'), t.var('n')]):
        t.prove(o.s, bv(o.s.get(w, SW, 'blob_found'), 8) == 1, 'blobs are noted')


# --------------------------------------------------------- range operations
def ranges(t, op, one, down=False):
    E = t.E
    files.install(E)
    s = t.state()
    w = s.sym(WR, 'receiver', 64)
    T, R, n = t.var('table', 16), t.var('record'), t.var('size')
    s.ghost['done'] = z3.BitVecVal(0, 64)

    def method(E, s, a, ins, meth):
        d = s.ghost['done']
        E.prove(s, z3.BoolVal(meth == one and isinstance(a[0], Ptr) and a[0].obj == w.obj), 'pre', 'the single operation on the same receiver')
        E.prove(s, z3.ULT(d, n), 'pre', 'at most one operation per record')
        E.prove(s, bv(a[1], 16) == T, 'pre', 'same table')
        E.prove(s, bv(a[2], 64) == (R + n - 1 - d if down else R + d), 'pre', 'every record once, in order')
        s.ghost['done'] = d + 1
        return throws(s)
    E.iface[WR] = {'*': method}
    for o in t.call(s, r'^joedb::Writable::%s\(' % op, [w, T, R, n]):
        if o.ret:
            t.prove(o.s, o.s.ghost['done'] == n, 'one operation for every record')


@task('C22', SRC)
def insert_vector(t):
    """insert_vector inserts every record of the range once, in increasing order"""
    ranges(t, 'insert_vector', 'insert_into')


@task('C22', SRC)
def delete_vector(t):
    """delete_vector deletes every record of the range once, in decreasing order"""
    ranges(t, 'delete_vector', 'delete_from', True)


def mk_range(ty):
    def f(t):
        E = t.E
        files.install(E)
        s = t.state()
        w = s.sym(WR, 'receiver', 64)
        T, R, F, n = t.var('table', 16), t.var('record'), t.var('field', 16), t.var('size')
        sz = ELEM[ty]
        s.assume(z3.ULT(n, 1 << 50))
        o = s.new_obj('values', lin(n).scale(sz))
        g = en.Seg(0, lin(n).scale(sz), sz)
        o.segs.append(g)
        v0 = Base('value', 64 if ty == 'blob' else 8 * sz) if ty != 'string' else None
        if ty == 'blob':
            v1 = Base('value.size', 64)
            g.fields[(0, 8)], g.fields[(8, 8)] = v0, v1
        elif ty == 'string':
            # contents of string i: size and address
            ln = z3.Function('string.size', z3.BitVecSort(64), z3.BitVecSort(64))
            at = z3.Function('string.data', z3.BitVecSort(64), z3.BitVecSort(64))
            d = s.new_obj('characters', None)

            def view(E, s, a, ins):
                p = a[0]
                if not isinstance(p, Ptr) or p.obj != o.id or not p.off.divides(32):
                    return NotImplemented
                i = p.off.div(32)
                E.prove(s, z3.ULT(i.bv(), n), 'mem', 'element inside the range')
                return [ln(i.bv()), Ptr(d.id, lin(at(i.bv())))]
            E.contracts.append((r'basic_string<char.*>::operator (std::)?basic_string_view', view, 'std::string to std::string_view'))
            E.contracts.append((r'basic_string<char.*>::(size|length)\(\) const$', lambda E, s, a, ins: (view(E, s, a, ins) or [NotImplemented])[0] if isinstance(a[0], Ptr) and a[0].obj == o.id else NotImplemented, 'std::string::size'))
            E.contracts.append((r'basic_string<char.*>::(data|c_str|_M_data)\(\) const$', lambda E, s, a, ins: view(E, s, a, ins)[1] if isinstance(a[0], Ptr) and a[0].obj == o.id else NotImplemented, 'std::string::data'))
        else:
            g.fields[(0, sz)] = v0
        s.ghost['done'] = z3.BitVecVal(0, 64)

        def method(E, s, a, ins, meth):
            k = s.ghost['done']
            E.prove(s, z3.BoolVal(meth == 'update_' + ty and isinstance(a[0], Ptr) and a[0].obj == w.obj), 'pre', 'the single update on the same receiver')
            E.prove(s, z3.ULT(k, n), 'pre', 'at most one update per record')
            E.prove(s, z3.And(bv(a[1], 16) == T, bv(a[3], 16) == F), 'pre', 'same table and field')
            E.prove(s, bv(a[2], 64) == R + k, 'pre', 'every record once, in increasing order')
            if ty == 'string':
                E.prove(s, bv(a[4], 64) == ln(k), 'pre', 'matching value: size')
                E.prove(s, z3.BoolVal(isinstance(a[5], Ptr) and a[5].obj == d.id), 'pre', 'matching value: contents')
                E.prove(s, a[5].off.bv() == at(k), 'pre', 'matching value: contents')
            elif ty == 'boolean':
                x = a[4]
                x = z3.BoolVal(x) if isinstance(x, bool) else x if isinstance(x, z3.BoolRef) else bv(x, width(x, 1)) != 0
                E.prove(s, x == (bv(v0.sel(lin(k)), 8) != 0), 'pre', 'matching value')
            elif ty == 'blob':
                E.prove(s, z3.And(bv(a[4], 64) == v0.sel(lin(k)), bv(a[5], 64) == v1.sel(lin(k))), 'pre', 'matching value')
            else:
                E.prove(s, bv(a[4], 8 * sz) == bv(v0.sel(lin(k)), 8 * sz), 'pre', 'matching value')
            s.ghost['done'] = k + 1
            return throws(s)
        E.iface[WR] = {'*': method}
        for out in t.call(s, r'^joedb::Writable::update_vector_%s\(' % ty, [w, T, R, F, n, Ptr(o.id, 0)]):
            if out.ret:
                t.prove(out.s, out.s.ghost['done'] == n, 'one update for every record')
    f.__name__ = 'update_vector_' + ty
    f.__module__ = __name__
    f.__doc__ = 'update_vector_%s updates every record of the range once, in order, with the matching value' % ty
    task('C22', SRC)(f)


for _t in TYPES:
    mk_range(_t)
