"""Interface contract of joedb::Abstract_File (ghost contents and size), used
at every virtual call made through that interface."""
import z3
from terms import *
import engine as en

AF = 'joedb::Abstract_File'
EXC = '_ZTIN5joedb9ExceptionE'


def gf(s, p, k):
    return s.ghost[('file', p.obj, k)]


def gset(s, p, k, v):
    s.ghost[('file', p.obj, k)] = v


def new_file(E, s, name, cls=AF):
    p = s.sym(cls, name)
    attach(E, s, p, name)
    return p


def attach(E, s, p, name):
    gset(s, p, 'arr', Base(name + '.content', 8))
    n = z3.BitVec(fresh_name(name + '.size'), 64)
    E.inputs[name + '.size'] = n
    s.assume(z3.And(n >= 0, n < (1 << 60)))
    gset(s, p, 'size', n)


def root(E, s, this):
    if this.off.const() != 0:
        raise en.Unsupported('interior file pointer')
    return this


def m_get_size(E, s, a, ins):
    t = root(E, s, a[0])
    out = [('ret', s, gf(s, t, 'size'))]
    return en.Outs(out)


def m_pread(E, s, a, ins, throws=True):
    t, buf, n, off = root(E, s, a[0]), a[1], lin(a[2]), lin(a[3])
    size = bv(gf(s, t, 'size'), 64)
    arr = gf(s, t, 'arr')
    outs = []
    if E.io_throws:
        e = s.fork()
        # a failed read may leave anything in the buffer
        try:
            E.write_bytes(e, buf, n, Base('junk', 8), Lin(0), 'pread buffer')
            outs.append(('exc', e, EXC))
        except en.PathEnd:
            pass
    r = fresh('pread.r', 64)
    o = off.bv()
    nb = n.bv()
    s.assume(z3.ULE(r, nb))
    s.assume(z3.Implies(z3.Or(o < 0, o >= size, nb == 0), r == 0))
    s.assume(z3.Implies(z3.And(o >= 0, o < size, nb != 0), z3.And(r != 0, z3.ULE(r, size - o))))
    rl = lin(r)
    if n.const() is None or n.const() > 64:
        # bytes beyond the returned count are unspecified
        E.write_bytes(s, buf, n, Copy(Base('tail', 8), Lin(0), rl, arr, off), Lin(0), 'pread buffer')
    else:
        E.write_bytes(s, buf, n, Copy(Base('tail', 8), Lin(0), rl, arr, off), Lin(0), 'pread buffer')
    outs.append(('ret', s, r))
    return en.Outs(outs)


def write_effect(E, s, t, buf, n, off):
    src, si = E.read_byte_array(s, buf, n, 'pwrite buffer')
    arr = gf(s, t, 'arr')
    size = bv(gf(s, t, 'size'), 64)
    end = off.add(n).bv()
    new = Copy(arr, off, n, src, si)
    gset(s, t, 'arr', new)
    gset(s, t, 'size', simp(z3.If(z3.And(n.bv() != 0, end > size), end, size)))


def m_pwrite(E, s, a, ins):
    t, buf, n, off = root(E, s, a[0]), a[1], lin(a[2]), lin(a[3])
    E.prove(s, b_and(lin_sle(Lin(0), off), simp(z3.And(n.bv() >= 0, off.add(n).bv() >= 0))), 'pre', 'pwrite: offset and end are non-negative')
    if E.on_pwrite:
        E.on_pwrite(E, s, t, buf, n, off)
    outs = []
    if E.io_throws:
        e = s.fork()
        src, si = E.read_byte_array(e, buf, n, 'pwrite buffer')
        arr = gf(e, t, 'arr')
        gset(e, t, 'arr', Copy(arr, off, n, Base('torn', 8), Lin(0)))
        size = bv(gf(e, t, 'size'), 64)
        ns = fresh('torn.size', 64)
        e.assume(z3.And(ns >= size, z3.Or(ns == size, ns <= off.add(n).bv())))
        gset(e, t, 'size', ns)
        e.ghost['torn'] = True
        outs.append(('exc', e, EXC))
    write_effect(E, s, t, buf, n, off)
    outs.append(('ret', s, None))
    return en.Outs(outs)


def event(kind):
    def h(E, s, a, ins):
        t = root(E, s, a[0])
        if E.on_event:
            r = E.on_event(E, s, kind, t, a[1:])
            if r is not None:
                return r
        return None
    return h


def install(E):
    E.io_throws = True
    E.on_pwrite = None
    E.on_event = None
    E.iface[AF] = {
        'get_size': m_get_size,
        'pread': m_pread,
        'pwrite': m_pwrite,
        'sync': event('sync'),
        'datasync': event('datasync'),
        'shared_lock': event('shared_lock'),
        'exclusive_lock': event('exclusive_lock'),
        'unlock': event('unlock'),
    }
