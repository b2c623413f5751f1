"""Terms: machine integers (python int constants or z3 bit-vectors), linear
offsets, pointers and lazily expanded arrays.  All arithmetic is exact machine
arithmetic (modulo 2^width)."""
import z3

M64 = (1 << 64) - 1


def is_c(v):
    return isinstance(v, (int, bool))


def mask(w):
    return (1 << w) - 1


def bv(v, w):
    """value -> z3 bit-vector of width w"""
    if isinstance(v, Lin):
        v = v.bv()
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v & mask(w), w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def simp(e):
    if isinstance(e, (int, bool)):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def sx(v, w):
    """signed value of a constant"""
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])


def fresh(p, w):
    return z3.BitVec(fresh_name(p), w)


def fresh_bool(p):
    return z3.Bool(fresh_name(p))


class Lin:
    """64-bit linear form: c + sum coef*atom (modulo 2^64)."""
    __slots__ = ('c', 't', '_bv')
    _cache = {}

    def __init__(self, c=0, t=()):
        self.c = c & M64
        self.t = t          # tuple of (astid, expr, coef), sorted by astid
        self._bv = None

    @staticmethod
    def of(v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, (int, bool)):
            return Lin(int(v))
        k = v.get_id()
        r = Lin._cache.get(k)
        if r is not None and r[0].eq(v):
            return r[1]
        r = Lin._dec(v, 0)
        if len(Lin._cache) > 200000:
            Lin._cache.clear()
        Lin._cache[k] = (v, r)
        return r

    @staticmethod
    def _dec(v, depth):
        if z3.is_bv_value(v):
            return Lin(v.as_long())
        if depth < 40 and z3.is_app(v):
            k = v.decl().kind()
            if k == z3.Z3_OP_BADD:
                r = Lin(0)
                for a in v.children():
                    r = r.add(Lin._dec(a, depth + 1))
                return r
            if k == z3.Z3_OP_BSUB:
                ch = v.children()
                r = Lin._dec(ch[0], depth + 1)
                for a in ch[1:]:
                    r = r.sub(Lin._dec(a, depth + 1))
                return r
            if k == z3.Z3_OP_BNEG:
                return Lin(0).sub(Lin._dec(v.children()[0], depth + 1))
            if k == z3.Z3_OP_BMUL:
                ch = v.children()
                if len(ch) == 2:
                    if z3.is_bv_value(ch[0]):
                        return Lin._dec(ch[1], depth + 1).scale(ch[0].as_long())
                    if z3.is_bv_value(ch[1]):
                        return Lin._dec(ch[0], depth + 1).scale(ch[1].as_long())
        return Lin(0, ((v.get_id(), v, 1),))

    def add(self, o):
        if not isinstance(o, Lin):
            o = Lin.of(o)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = {i: (e, k) for i, e, k in self.t}
        for i, e, k in o.t:
            if i in d:
                k2 = (d[i][1] + k) & M64
                if k2:
                    d[i] = (e, k2)
                else:
                    del d[i]
            else:
                d[i] = (e, k)
        return Lin(self.c + o.c, tuple((i, d[i][0], d[i][1]) for i in sorted(d)))

    def scale(self, s):
        s &= M64
        if s == 0:
            return Lin(0)
        return Lin(self.c * s, tuple((i, e, (k * s) & M64) for i, e, k in self.t if (k * s) & M64))

    def sub(self, o):
        if not isinstance(o, Lin):
            o = Lin.of(o)
        return self.add(o.scale(M64))

    def const(self):
        return None if self.t else self.c

    def key(self):
        return (self.c,) + tuple((i, k) for i, e, k in self.t)

    def bv(self):
        if self._bv is None:
            r = None
            for i, e, k in self.t:
                x = e if k == 1 else (-e if k == M64 else e * z3.BitVecVal(k, 64))
                r = x if r is None else r + x
            if r is None:
                r = z3.BitVecVal(self.c, 64)
            elif self.c:
                r = r + z3.BitVecVal(self.c, 64)
            self._bv = r
        return self._bv

    def val(self):
        return self.c if not self.t else self.bv()

    def divides(self, s):
        return self.c % s == 0 and all(sx(k, 64) % s == 0 for _, _, k in self.t)

    def div(self, s):
        return Lin(sx(self.c, 64) // s, tuple((i, e, (sx(k, 64) // s) & M64) for i, e, k in self.t))

    def __repr__(self):
        return 'Lin(%s)' % (self.val(),)


def lin(v):
    return Lin.of(v)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=None):
        self.obj = obj           # object id, or None for null
        self.off = off if isinstance(off, Lin) else Lin.of(off or 0)

    def add(self, l):
        return Ptr(self.obj, self.off.add(l))

    def same(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off.key() == o.off.key()

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off.val())


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class PI:
    """a pointer seen as an integer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()

# ---------------------------------------------------------------- arrays


def b_and(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def b_not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def b_imp(a, b):
    return b_or(b_not(a), b)


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def lin_eq(a, b):
    d = a.sub(b)
    if not d.t:
        return d.c == 0
    if len(d.t) == 1 and d.t[0][2] in (1, M64):
        i, e, k = d.t[0]
        if k == 1:
            return e == z3.BitVecVal((-d.c) & M64, 64)
        return e == z3.BitVecVal(d.c, 64)
    return a.bv() == b.bv()


def lin_ult(a, b):
    if not a.t and not b.t:
        return a.c < b.c
    return z3.ULT(a.bv(), b.bv())


def lin_ule(a, b):
    if not a.t and not b.t:
        return a.c <= b.c
    if a.key() == b.key():
        return True
    return z3.ULE(a.bv(), b.bv())


def lin_sle(a, b):
    if not a.t and not b.t:
        return sx(a.c, 64) <= sx(b.c, 64)
    if a.key() == b.key():
        return True
    return a.bv() <= b.bv()


class Arr:
    w = 8

    def sel(self, i):
        k = i.key()
        c = self.__dict__.setdefault('_m', {})
        r = c.get(k)
        if r is None:
            r = self._sel(i)
            if not isinstance(r, int):
                r = simp(r)
            c[k] = r
        return r


class Base(Arr):
    def __init__(self, name, w=8):
        self.w = w
        self.name = fresh_name(name)
        self.uf = z3.Function(self.name, z3.BitVecSort(64), z3.BitVecSort(w))

    def _sel(self, i):
        return self.uf(i.bv())


class ConstArr(Arr):
    """constant contents given as python bytes"""

    def __init__(self, data):
        self.data = data
        self.b = None

    def _sel(self, i):
        c = i.const()
        if c is not None and c < len(self.data):
            return self.data[c]
        if len(self.data) > 64:
            if self.b is None:
                self.b = Base('cdata', 8)
            r = self.b.uf(i.bv())
        else:
            r = z3.BitVecVal(0, 8)
        for k, x in enumerate(self.data[:300]):
            r = z3.If(i.bv() == k, z3.BitVecVal(x, 8), r)
        return r


class Fill(Arr):
    def __init__(self, v, w=8):
        self.v = v
        self.w = w

    def _sel(self, i):
        return self.v


class Store(Arr):
    def __init__(self, a, i, v):
        self.a, self.i, self.v, self.w = a, i, v, a.w

    def _sel(self, j):
        # iterative over store chains
        a = self
        pend = []
        while isinstance(a, Store):
            c = lin_eq(j, a.i)
            if c is True:
                r = a.v
                break
            if c is not False:
                pend.append((c, a.v))
            a = a.a
        else:
            r = a.sel(j)
        for c, v in reversed(pend):
            r = ite(c, v, r, self.w)
        return r


class Copy(Arr):
    """a[dst .. dst+n) := src[soff ..)"""

    def __init__(self, a, dst, n, src, soff):
        self.a, self.dst, self.n, self.src, self.soff, self.w = a, dst, n, src, soff, a.w

    def _sel(self, j):
        d = j.sub(self.dst)
        c = lin_ult(d, self.n)
        if c is not True and c is not False:
            c = simp(c)
        if c is True:
            return self.src.sel(self.soff.add(d))
        if c is False:
            return self.a.sel(j)
        return ite(c, self.src.sel(self.soff.add(d)), self.a.sel(j), self.w)


class IteArr(Arr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.w = c, a, b, a.w

    def _sel(self, j):
        return ite(self.c, self.a.sel(j), self.b.sel(j), self.w)
