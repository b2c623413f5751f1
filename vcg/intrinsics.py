import z3
from terms import *
from engine import Unsupported, PathEnd, Outs, ty_w


def intrinsic(E, s, fr, ins, name, args):
    if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.stack') \
            or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.donothing') or name.startswith('llvm.invariant'):
        return None
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        n = lin(args[2])
        E.copy_bytes(s, args[0], args[1], n)
        return None
    if name.startswith('llvm.memset'):
        n = lin(args[2])
        v = args[1]
        nc = n.const()
        if nc == 0:
            return None
        if nc is not None and E.find_seg(s, args[0]) is None and isinstance(v, int) and args[0].off.const() is not None:
            o = E.check_ptr(s, args[0], nc, 'write')
            c = sx(args[0].off.c, 64)
            E.bounds(s, o, None, Lin(c), n, 'write')
            k = 0
            while k < nc:
                ch = 8 if nc - k >= 8 else (4 if nc - k >= 4 else 1)
                e = s.obj(o.id).cells.get(c + k)
                if e is not None and e[0] <= nc - k:
                    ch = e[0]
                x = 0
                for j in range(ch):
                    x |= v << (8 * j)
                E.cell_store(s, s.obj(o.id), c + k, ch, x)
                k += ch
            return None
        E.write_bytes(s, args[0], n, Fill(v), Lin(0))
        return None
    if name.startswith('llvm.assume'):
        return None
    if name.startswith('llvm.expect'):
        return args[0]
    if name.startswith('llvm.umin') or name.startswith('llvm.umax') or name.startswith('llvm.smin') or name.startswith('llvm.smax'):
        w = ty_w(ins['ty'])
        k = name[5:9]
        p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
        c = E.icmp(s, p, args[0], args[1], ins['ty'])
        return ite(c, args[0], args[1], w)
    if name.startswith('llvm.abs'):
        w = ty_w(ins['ty'])
        x = bv(args[0], w)
        return simp(z3.If(x < 0, -x, x))
    if name.startswith('llvm.fshl') or name.startswith('llvm.fshr'):
        w = ty_w(ins['ty'])
        a, b, c = args
        if all(isinstance(x, int) for x in args):
            c %= w
            v = (a << w) | b
            return ((v << c) >> w) & mask(w) if 'fshl' in name else (v >> c) & mask(w)
        if isinstance(c, int):
            c %= w
            if c == 0:
                return a if 'fshl' in name else b
            a, b = bv(a, w), bv(b, w)
            if 'fshl' in name:
                return (a << c) | z3.LShR(b, w - c)
            return (a << (w - c)) | z3.LShR(b, c)
        raise Unsupported(name)
    if name.startswith('llvm.bswap'):
        w = ty_w(ins['ty'])
        x = bv(args[0], w)
        return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))
    if '.with.overflow' in name:
        w = ty_w(ins['ty']['s'][0])
        op = name.split('.')[1]
        sg = op[0] == 's'
        kind = op[1:4]
        r = E.arith(s, kind, args[0], args[1], w)
        ext = (lambda x: z3.SignExt(w, bv(x, w))) if sg else (lambda x: z3.ZeroExt(w, bv(x, w)))
        a, b = ext(args[0]), ext(args[1])
        full = {'add': a + b, 'sub': a - b, 'mul': a * b}[kind]
        ov = simp(full != ext(r))
        return [r, ov]
    if name.startswith('llvm.is.constant'):
        return False
    if name.startswith('llvm.trap'):
        E.prove(s, False, 'unreachable', 'trap is not reached')
        raise PathEnd()
    if name.startswith('llvm.eh.typeid.for'):
        op = ins['ops'][0]
        return E.ti_id(op[1])
    if name.startswith('llvm.objectsize'):
        return mask(64)
    if name.startswith('llvm.fabs') or name.startswith('llvm.fmuladd') or name.startswith('llvm.floor'):
        return fresh('fp', ty_w(ins['ty']))
    if name.startswith('llvm.load.relative'):
        raise Unsupported(name)
    if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz') or name.startswith('llvm.ctpop'):
        w = ty_w(ins['ty'])
        x = bv(args[0], w)
        if 'ctlz' in name:
            r = z3.BitVecVal(w, w)
            for k in range(w):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k, w), r)
            return simp(r)
        if 'cttz' in name:
            r = z3.BitVecVal(w, w)
            for k in reversed(range(w)):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k, w), r)
            return simp(r)
        r = z3.BitVecVal(0, w)
        for k in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
        return simp(r)
    raise Unsupported(name)
