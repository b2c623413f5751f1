"""C23: replaying arbitrary bytes. The primitives of File_Buffer return any
value their type can encode, for any contents of the file (C01, C02), or throw."""
import re
import z3
import engine as en
import files
import builtins_model as bm
from header import RJ, BIG
from terms import *
from task import task
from s_journal import WR, FBUF, SIZES, ret_width

SRC = ['joedb/journal/Readonly_Journal.cpp', 'joedb/journal/File_Buffer.cpp', 'drivers/journal.cpp']
ELEM = dict(SIZES, reference=8, blob=16, string=32)
FACTOR = 32      # sizeof(std::string): largest element of a range update


def throws(s, v=None):
    e = s.fork()
    return en.Outs([('exc', e, files.EXC), ('ret', s, v)])


class Any:
    def __init__(self, t):
        E, self.t = t.E, t
        self.E = E
        files.install(E)
        s = self.s = t.state()
        E.opaque_elems = ('joedb::Record_Id', 'joedb::Blob', 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
        self.j, self.w = s.sym(RJ, 'journal'), s.sym(WR, 'receiver', 64)
        self.cp = s.get(self.j, RJ, 'checkpoint_position')
        s.assume(z3.And(bv(self.cp, 64) >= 41, bv(self.cp, 64) < 1 << 56))
        E.alloc_hook = self.alloc
        E.contracts += [(FBUF + r'compact_read<.*>\(', self.compact, 'File_Buffer::compact_read: any value below 2^61 (C01)'),
                        (FBUF + r'read_reference\(', self.ref, 'File_Buffer::read_reference: any value from -1 to 2^61-2 (C01)'),
                        (FBUF + r'read_blob\(', self.blob, 'File_Buffer::read_blob (C01)'),
                        (FBUF + r'read_data\(', self.data, 'File_Buffer::read_data: writes n bytes to the destination (C02)'),
                        (FBUF + r'ignore\(', lambda E, s, a, ins: throws(s), 'File_Buffer::ignore (C02)'),
                        (FBUF + r'get_position\(', lambda E, s, a, ins: fresh('position', 64), 'File_Buffer::get_position (C02)'),
                        (FBUF + r'read<.*>\(', lambda E, s, a, ins: throws(s, fresh('raw', ret_width(ins))), 'File_Buffer::read: any value (C01)')]
        E.iface[WR] = {'*': self.method}

    def alloc(self, s, n, what):
        n = lin(n)
        if n.const() is not None and n.const() <= 1 << 16:
            return
        self.E.prove(s, z3.ULE(n.bv(), FACTOR * bv(self.cp, 64)), 'pre', 'an allocation is at most %d times the checkpoint (%s)' % (FACTOR, what))

    def compact(self, E, s, a, ins):
        w = ret_width(ins)
        v = fresh('compact', w)
        if w == 64:
            s.assume(z3.ULT(v, 1 << 61))
        return throws(s, v)

    def ref(self, E, s, a, ins):
        v = fresh('ref', 64)
        s.assume(z3.And(v >= -1, v < (1 << 61) - 1))
        return throws(s, v)

    def blob(self, E, s, a, ins):
        v = [fresh('blob', 64), fresh('blob', 64)]
        for x in v:
            s.assume(z3.ULT(x, 1 << 61))
        return throws(s, v)

    def data(self, E, s, a, ins):
        n = lin(a[2])
        E.write_bytes(s, a[1], n, Base('file', 8), Lin(0), 'read_data destination')
        return throws(s, n.val())

    def method(self, E, s, a, ins, meth):
        if meth == 'wants_blob_data':
            return fresh('wants', 1) == 1
        m = re.match(r'^get_own_(\w+)_storage$', meth)
        if m:
            # either no storage, or the address of the record in storage of `capacity` elements
            sz = ELEM[m.group(1)]
            e = s.fork()
            E.store(e, a[4], 8, z3.BitVecVal(0, 64))
            c = fresh('capacity', 64)
            s.assume(z3.ULT(c, 1 << 55))
            o = s.new_obj('storage', lin(c).scale(sz))
            g = en.Seg(0, lin(c).scale(sz), sz)
            o.segs.append(g)
            E.store(s, a[4], 8, c)
            return en.Outs([('ret', e, Ptr(None, 0)), ('ret', s, Ptr(o.id, lin(a[2]).scale(sz))), ('exc', e.fork(), files.EXC)])
        if meth in ('create_table', 'custom', 'comment', 'rename_table', 'add_field', 'rename_field'):
            k = {'rename_table': 2, 'add_field': 2, 'rename_field': 3}.get(meth, 1)
            x, i, n = bm.str_arr(E, s, a[k])
            E.prove(s, z3.ULT(n.bv(), bv(self.cp, 64)), 'post', 'strings are shorter than the checkpoint')
        elif meth in ('update_string', 'write_blob'):
            k = 1 if meth == 'write_blob' else 4
            E.read_byte_array(s, a[k + 1], lin(a[k]), 'argument of ' + meth)
            E.prove(s, z3.ULT(bv(a[k], 64), bv(self.cp, 64)), 'post', 'strings are shorter than the checkpoint')
        elif meth.startswith('update_vector_'):
            n, sz = lin(a[4]), ELEM[meth[14:]]
            E.prove(s, z3.And(n.bv() != 0, z3.ULE(n.bv(), bv(self.cp, 64))), 'post', 'range sizes are not larger than the checkpoint')
            self.span(E, s, a[5], n, sz, 'values of ' + meth)
        if meth == 'write_blob':
            return throws(s, [fresh('b', 64), fresh('b', 64)])
        return throws(s)

    def span(self, E, s, p, n, sz, what):
        """[p, p + n * sz) is inside the object"""
        o = s.obj(p.obj)
        E.prove(s, z3.BoolVal(bool(o.alive)), 'mem', what + ': alive')
        off, end = p.off.bv(), bv(o.size if not isinstance(o.size, Lin) else o.size.bv(), 64)
        E.prove(s, z3.And(z3.ULE(off, end), z3.ULE(n.scale(sz).bv(), end - off)), 'mem', what + ': inside allocated memory')


@task('C23', SRC)
def one_step(t):
    """one_step on any bytes and any receiver: no access out of bounds, allocations bounded by the checkpoint"""
    x = Any(t)
    for k in ('string', 'reference', 'blob'):
        def h(E, s, a, ins, k=k):
            x.span(E, s, a[1], lin(a[2]), ELEM[k], 'destination of read_vector_of_' + k)
            return throws(s)
        x.E.contracts.append((r'joedb::Readonly_Journal::read_vector_of_%s\(' % k, h, 'Readonly_Journal::read_vector_of_%s writes inside the destination (proved)' % k))
    for o in t.call(x.s, r'^joedb::Readonly_Journal::one_step\(', [x.j, x.w]):
        pass


def mk(k):
    def f(t):
        x = Any(t)
        s = x.s
        n = t.var('size')
        s.assume(z3.ULE(n, bv(x.cp, 64)))
        o = s.new_obj('destination', lin(n).scale(ELEM[k]))
        o.segs.append(en.Seg(0, lin(n).scale(ELEM[k]), ELEM[k]))
        if k == 'string':
            def assign(E, s, a, ins):
                if isinstance(a[0], Ptr) and a[0].obj == o.id:
                    i = a[0].off
                    x.span(E, s, a[0], Lin(1), 32, 'element')
                    return a[0]
                return NotImplemented
            x.E.contracts.append((r'^std::(__cxx11::)?basic_string<char.*>::operator=\(std::(__cxx11::)?basic_string<char.*&&\)', assign, 'std::string assignment'))
        t.call(s, r'^joedb::Readonly_Journal::read_vector_of_%s\(' % k, [x.j, Ptr(o.id, 0), n])
    f.__name__ = 'read_vector_of_' + k
    f.__module__ = __name__
    f.__doc__ = 'read_vector_of_%s writes inside its destination' % k
    task('C23', SRC)(f)


for _k in ('string', 'reference', 'blob'):
    mk(_k)


@task('C23', SRC)
def read_string(t):
    """safe_read_string on any bytes: bounded allocation, read inside it"""
    x = Any(t)
    p = x.s.sym('std::string', 'result', 32)
    for o in t.call(x.s, r'^joedb::File_Buffer::safe_read_string', [p, x.s.sym('joedb::File_Buffer', 'buffer'), x.cp]):
        if o.ret:
            a = bm.str_arr(x.E, o.s, p)
            t.prove(o.s, z3.Or(a[2].bv() == 0, z3.ULT(a[2].bv(), bv(x.cp, 64))), 'shorter than the checkpoint')
