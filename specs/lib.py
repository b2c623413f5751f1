"""Reusable named loop-invariant candidates."""
import z3
import engine as en
import files
from terms import *


def byte_eq(a, i, b, j):
    return bv(a.sel(i), 8) == bv(b.sel(j), 8)


def region_copied(src, dst, start, name='copied'):
    """dst file content = src on [start, start+k), old content elsewhere"""
    def gen(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue

            def f(g, k=k):
                cur = files.gf(g.s, dst, 'arr')
                old = files.gf(g.s0, dst, 'arr')
                sa = files.gf(g.s, src, 'arr')
                b = lin(g.cur(k))

                def body(i):
                    return bv(cur.sel(i), 8) == bv(ite(lin_ult(i.sub(lin(start)), b), sa.sel(i), old.sel(i), 8), 8)
                return [cur], body
            out.append(en.QCand(name, f, True))
        return out
    return gen


def ranges_equal(f0, f1, start, name='equal so far'):
    """forall i in [start, k): f0[i] == f1[i]"""
    def gen(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue

            def f(g, k=k):
                a = files.gf(g.s, f0, 'arr')
                b = files.gf(g.s, f1, 'arr')
                hi = bv(g.cur(k), 64)

                def body(i):
                    return z3.Implies(z3.And(i.bv() >= start, i.bv() < hi), byte_eq(a, i, b, i))
                return [a, b], body
            out.append(en.QCand(name, f, True))
        return out
    return gen


def buffer_prefix(filelist, name='buffer holds file prefix', extra=()):
    """for byte buffers modified in the loop: forall i<k: buf[i] == file[x+i]"""
    def gen(E, lp):
        out = []
        sks = [(k, True) for k, w in lp.scal if w == 64]
        xs = [('cur', k) for k, _ in sks] + [('pre', k) for k, _ in sks] + [('const', v) for _, v, w in lp.consts if w == 64] + [('const', v) for v in extra]
        segs = [m for m in lp.mods if m[0] == 'seg']
        for m in segs:
            for k, _ in sks:
                for kind, x in xs:
                    if kind == 'cur' and x == k:
                        continue
                    for fl in filelist:
                        def f(g, k=k, kind=kind, x=x, fl=fl, m=m):
                            b = g.cur(m)
                            if b.w != 8:
                                raise en.Unsupported('element width')
                            X = lin(x if kind == 'const' else g.cur(x) if kind == 'cur' else g.pre(x))
                            a = files.gf(g.s, fl, 'arr')
                            hi = lin(g.cur(k))

                            def body(i):
                                return b_imp(lin_ult(i, hi), byte_eq(b, i, a, X.add(i)))
                            return [b], body
                        out.append(en.QCand(name, f, True))
        return out
    return gen


def b_imp(a, b):
    if a is True:
        return b
    if a is False:
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def covered(src, start, name='source covers what was copied'):
    """k == 0 or start + k <= src.size"""
    def gen(E, lp):
        out = []
        sz = bv(files.gf(lp.s0, src, 'size'), 64)
        for k, w in lp.scal:
            if w == 64:
                out.append(en.Cand(name, lambda g, k=k: z3.Or(bv(g.cur(k), 64) == 0, start + bv(g.cur(k), 64) <= sz), True))
        return out
    return gen


def progress_clears(name='progress clears the flag'):
    """64-bit scalar unchanged, or 8-bit scalar is zero"""
    def gen(E, lp):
        return [en.Cand(name, lambda g, k=k, f=f: z3.Or(bv(g.cur(k), 64) == bv(g.pre(k), 64), bv(g.cur(f), 8) == 0), True)
                for k, w in lp.scal if w == 64 for f, w2 in lp.scal if w2 == 8]
    return gen
