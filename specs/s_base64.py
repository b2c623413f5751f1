"""C16: base64."""
import z3
import engine as en
import files
import lib
import builtins_model as bm
from terms import *
from task import task

ENC = ['joedb/ui/base64.cpp']
DEC = ['joedb/ui/base64_decode.cpp']


def c6(v):
    """RFC 4648 table 1, by ranges"""
    x = z3.ZeroExt(2, v)
    return z3.If(z3.ULT(x, 26), x + ord('A'), z3.If(z3.ULT(x, 52), x + (ord('a') - 26), z3.If(z3.ULT(x, 62), x + (ord('0') - 52) , z3.If(x == 62, z3.BitVecVal(ord('+'), 8), z3.BitVecVal(ord('/'), 8)))))


def code(x, n, idx):
    """character idx of the encoding of x[0..n): n given as Lin 3*N+r"""
    q = simp(z3.LShR(idx.bv(), 2)) if idx.const() is None else None
    qi = lin(q) if q is not None else Lin(idx.const() >> 2)
    m = idx.bv() & 3
    b = [z3.If(lin_ult_(qi.scale(3).add(Lin(k)), n), bv(x.sel(qi.scale(3).add(Lin(k))), 8), z3.BitVecVal(0, 8)) for k in range(3)]
    w = z3.Concat(*b)
    c = [c6(z3.Extract(23 - 6 * k, 18 - 6 * k, w)) for k in range(4)]
    pad = z3.BitVecVal(ord('='), 8)
    has1 = lin_ult_(qi.scale(3).add(Lin(1)), n)
    has2 = lin_ult_(qi.scale(3).add(Lin(2)), n)
    return z3.If(m == 0, c[0], z3.If(m == 1, c[1], z3.If(m == 2, z3.If(has1, c[2], pad), z3.If(has2, c[3], pad))))


def lin_ult_(a, b):
    return z3.ULT(a.bv(), b.bv())


def coded(x, n):
    """output holds the encoding up to 4*i"""
    def gen(E, lp):
        out = []
        for m in [m for m in lp.mods if m[0] == 'seg']:
            for k, w in lp.scal:
                if w != 64:
                    continue

                def f(g, k=k, m=m):
                    b = g.cur(m)
                    if b.w != 8:
                        raise en.Unsupported('element width')
                    hi = lin(g.cur(k)).scale(4)
                    return [b], lambda i: z3.Implies(z3.ULT(i.bv(), hi.bv()), bv(b.sel(i), 8) == code(x, n, i))
                out.append(en.QCand('encoded so far', f, True))
        return out
    return gen


def enc(r):
    def f(t):
        E = t.E
        s = t.state()
        N = t.var('N')
        s.assume(z3.And(N >= 0, N < 1 << 40))
        n = lin(N).scale(3).add(Lin(r))
        o = s.bytes_obj('input', n)
        x, i0 = E.read_byte_array(s, Ptr(o.id, 0), n)
        res = Ptr(s.new_obj('result', 32).id, 0)
        E.loop_cands += [coded(x, n)]
        for o in t.call(s, r'^joedb::base64_encode', [res, n.val(), Ptr(o.id, 0)]):
            if o.ret:
                a, j0, ln = bm.str_arr(E, o.s, res)
                L = lin(N).scale(4).add(Lin(4 if r else 0))
                t.prove(o.s, ln.bv() == L.bv(), 'length is 4 * ceil(n / 3)')
                t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), lin(N).scale(4).bv()), bv(a.sel(j0.add(i)), 8) == code(x, n, i)), 'characters of the full groups')
                for k in range(4 if r else 0):
                    i = lin(N).scale(4).add(Lin(k))
                    b = [bv(x.sel(lin(N).scale(3).add(Lin(j))), 8) if j < r else z3.BitVecVal(0, 8) for j in range(3)]
                    c = c6(z3.Extract(23 - 6 * k, 18 - 6 * k, z3.Concat(*b))) if k <= r else z3.BitVecVal(ord('='), 8)
                    t.prove(o.s, bv(a.sel(j0.add(i)), 8) == c, 'character %d of the last group' % k)
    f.__name__ = 'encode_%d' % r
    f.__module__ = __name__
    f.__doc__ = 'base64_encode yields the RFC 4648 text of every byte string of length 3N+%d' % r
    return task('C16', ENC, budget=300)(f)


def dec(r):
    def f(t):
        E = t.E
        s = t.state()
        N = t.var('N')
        s.assume(z3.And(N >= 0, N < 1 << 40))
        n = lin(N).scale(3).add(Lin(r))
        L = lin(N).scale(4).add(Lin(4 if r else 0))
        x = Base('original', 8)
        o = s.bytes_obj('input', L)
        y, i0 = E.read_byte_array(s, Ptr(o.id, 0), L)
        N4 = lin(N).scale(4)
        s.assume_forall(y, lambda i: z3.Implies(z3.ULT(i.sub(i0).bv(), N4.bv()), bv(y.sel(i), 8) == code(x, n, i.sub(i0))))
        for k in range(4 if r else 0):
            b = [bv(x.sel(lin(N).scale(3).add(Lin(j))), 8) if j < r else z3.BitVecVal(0, 8) for j in range(3)]
            c = c6(z3.Extract(23 - 6 * k, 18 - 6 * k, z3.Concat(*b))) if k <= r else z3.BitVecVal(ord('='), 8)
            s.assume(bv(y.sel(i0.add(N4).add(Lin(k))), 8) == c)
        res = Ptr(s.new_obj('result', 32).id, 0)

        def prefix(E, lp):
            out = []
            for m in [m for m in lp.mods if m[0] == 'seg']:
                for k, w in lp.scal:
                    if w == 64:
                        def g_(g, k=k, m=m):
                            b = g.cur(m)
                            hi = lin(g.cur(k)).scale(3)
                            return [b], lambda i: z3.Implies(z3.ULT(i.bv(), hi.bv()), bv(b.sel(i), 8) == bv(x.sel(i), 8))
                        out.append(en.QCand('decoded so far', g_, True))
            return out
        E.loop_cands += [prefix]
        for o in t.call(s, r'^joedb::base64_decode', [res, L.val(), Ptr(o.id, 0)]):
            if o.ret:
                a, j0, ln = bm.str_arr(E, o.s, res)
                t.prove(o.s, ln.bv() == n.bv(), 'length of the decoded string')
                t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), n.bv()), bv(a.sel(j0.add(i)), 8) == bv(x.sel(i), 8)), 'the original bytes')
    f.__name__ = 'decode_%d' % r
    f.__module__ = __name__
    f.__doc__ = 'base64_decode of the RFC 4648 text of any string of length 3N+%d returns the string' % r
    return task('C16', DEC, budget=300)(f)


for _r in range(3):
    enc(_r)
    dec(_r)


@task('C16', DEC, budget=300)
def decode_safe(t):
    """base64_decode of any text stays in bounds and returns"""
    E = t.E
    s = t.state()
    L = t.var('L')
    s.assume(z3.And(L >= 0, L < 1 << 40))
    o = s.bytes_obj('input', lin(L))
    res = Ptr(s.new_obj('result', 32).id, 0)
    for o in t.call(s, r'^joedb::base64_decode', [res, L, Ptr(o.id, 0)]):
        pass
