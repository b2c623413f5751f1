"""C09: Freedom_Keeper. Abstract state: (size, set U of used identifiers, count).

List_Freedom_Keeper, concrete level: the three arrays form two disjoint circular
doubly-linked lists, one for each value of is_free, each without a cycle that
avoids its head (ghost rank, strictly increasing along `next`). Finite and
injective, so iteration from a head visits exactly the identifiers of its list,
each once, in both directions.
Abstract level: each primitive acts on (size, U, count) by its contract; the
loops are verified against these contracts."""
import z3
import engine as en
from terms import *
from task import task

SRC = ['drivers/freedom.cpp']
LF = 'joedb::List_Freedom_Keeper'
DF = 'joedb::Dense_Freedom_Keeper'
FK = 'joedb::Freedom_Keeper'
BIG = 1 << 58
B = lambda v: z3.BitVecVal(v, 64)
UL, FL = B(-2), B(-1)


# ------------------------------------------------------------ compact form
class Dense:
    def __init__(self, t, s=None, p=None, cls=DF, path=''):
        self.t, self.cls, self.path = t, cls, path
        self.s = s or t.state()
        self.p = p or self.s.sym(DF, 'keeper')
        self.u, self.n = self.used(self.s), self.size(self.s)
        self.s.assume(z3.And(self.u >= 0, self.u <= self.n, self.n < BIG))

    def used(self, s):
        return bv(s.get(self.p, self.cls, self.path + 'used_size.id'), 64)

    def size(self, s):
        return bv(s.get(self.p, self.cls, self.path + 'free_size.id'), 64)

    def is_(self, s, u, n, msg):
        self.t.prove(s, z3.And(self.used(s) == u, self.size(s) == n), msg)


def dcall(t, name, args, s):
    return t.call(s, r'^' + DF + r'::' + name + r'\(', args)


def bool_of(v):
    if isinstance(v, int):
        return z3.BoolVal(v & 1)
    if z3.is_bool(v):
        return v
    return z3.Extract(0, 0, v) == 1


@task('C09', SRC)
def dense_queries(t):
    """compact form: size, count, membership and range queries, for every identifier and range"""
    d = Dense(t)
    i, m = t.var('identifier'), t.var('range')
    u, n = d.u, d.n
    for name, args, want in (
            ('get_used_count', [], u), ('get_size', [], n), ('size', [], n),
            ('get_first_free', [], z3.If(u == n, FL, u)), ('get_first_used', [], z3.If(u == 0, UL, B(0)))):
        for o in dcall(t, name, [d.p] + args, d.s.fork()):
            t.prove(o.s, z3.BoolVal(o.ret), name + ' returns')
            t.prove(o.s, bv(o.v, 64) == want, name)
    for o in dcall(t, 'is_used', [d.p, i], d.s.fork()):
        t.prove(o.s, bool_of(o.v) == z3.And(i >= 0, i < u), 'is_used')
    s = d.s.fork()
    s.assume(i >= 0)
    for o in dcall(t, 'is_free', [d.p, i], s):
        t.prove(o.s, bool_of(o.v) == (i >= u), 'is_free')
    s = d.s.fork()
    s.assume(m != 0)
    end = z3.ZeroExt(1, i) + z3.ZeroExt(1, m)       # no overflow for i >= 0
    valid = z3.And(i >= 0, z3.ULT(end, z3.BitVecVal(1 << 63, 65)))
    for o in dcall(t, 'is_used_vector', [d.p, i, m], s.fork()):
        t.prove(o.s, bool_of(o.v) == z3.And(valid, z3.ULE(end, z3.ZeroExt(1, u))), 'is_used_vector: exactly when the whole range is used')
    for o in dcall(t, 'is_free_vector', [d.p, i, m], s.fork()):
        t.prove(o.s, bool_of(o.v) == z3.And(valid, i >= u), 'is_free_vector: exactly when no identifier of the range is used')


@task('C09', SRC)
def dense_iteration(t):
    """compact form: next and previous are inverse of each other, and follow 0..used-1 and used..size-1"""
    d = Dense(t)
    u, n = d.u, d.n
    i = t.var('identifier')
    d.s.assume(z3.And(i >= -2, i < n))
    nx = z3.If(i == -2, z3.If(u == 0, UL, B(0)), z3.If(i == -1, z3.If(u == n, FL, u), z3.If(i + 1 == u, UL, z3.If(i + 1 == n, FL, i + 1))))
    pv = z3.If(i == -2, z3.If(u == 0, UL, u - 1), z3.If(i == -1, z3.If(u == n, FL, n - 1), z3.If(i == u, FL, z3.If(i == 0, UL, i - 1))))
    for o in dcall(t, 'get_next', [d.p, i], d.s.fork()):
        t.prove(o.s, bv(o.v, 64) == nx, 'get_next')
    for o in dcall(t, 'get_previous', [d.p, i], d.s.fork()):
        t.prove(o.s, bv(o.v, 64) == pv, 'get_previous')


@task('C09', SRC)
def dense_updates(t):
    """compact form: updates act on the set exactly, or refuse and change nothing"""
    d = Dense(t)
    u, n = d.u, d.n
    i, m = t.var('identifier'), t.var('range')
    for o in dcall(t, 'get_free_record', [d.p], d.s.fork()):
        d.is_(o.s, u, z3.If(u == n, n + 1, n), 'get_free_record keeps the set')
        t.prove(o.s, bv(o.v, 64) == u, 'get_free_record proposes an unused identifier')
    for o in dcall(t, 'push_back', [d.p], d.s.fork()):
        d.is_(o.s, u, n + 1, 'push_back adds one free identifier')
        t.prove(o.s, bv(o.v, 64) == n, 'push_back returns the new identifier')
    for o in dcall(t, 'resize', [d.p, i], d.s.fork()):
        d.is_(o.s, u, z3.If(n < i, i, n), 'resize')
    s = d.s.fork()
    s.assume(z3.And(i >= 0, i < n))
    for op, ok, u1 in (('use', i == u, u + 1), ('free', i == u - 1, u - 1)):
        s1 = s.fork()
        s1.assume(i >= u if op == 'use' else i < u)
        for o in dcall(t, op, [d.p, i], s1):
            t.prove(o.s, bool_of(o.v) == ok, op + ' accepts what it can represent')
            d.is_(o.s, z3.If(bool_of(o.v), u1, u), n, op + ' acts on this identifier only, or changes nothing')
    s.assume(z3.And(m > 0, m < BIG, i + m <= n))
    for op, ok, u1 in (('use_vector', i == u, u + m), ('free_vector', i + m == u, i)):
        s1 = s.fork()
        s1.assume(i >= u if op == 'use_vector' else i + m <= u)
        for o in dcall(t, op, [d.p, i, m], s1):
            t.prove(o.s, bool_of(o.v) == ok, op + ' accepts what it can represent')
            d.is_(o.s, z3.If(bool_of(o.v), u1, u), n, op + ' acts on this range only, or changes nothing')


# ------------------------------------------------------------- linked form
class View:
    """the arrays of a List_Freedom_Keeper in a state"""

    def __init__(self, s, p, R):
        self.s, self.p, self.R = s, p, R
        self.n = bv(s.get(p, LF, 'freedom_size.id'), 64)
        self.count = bv(s.get(p, LF, 'used_count.id'), 64)
        self.a = {}
        for k, vec, w in (('next_p', 'next_v', 8), ('previous_p', 'previous_v', 8), ('is_free_p', 'is_free_v', 1)):
            q = s.get(p, LF, k)
            self.a[k] = (s.obj(q.obj).segs[0].fields[(0, w)], q.off.c // w, w, q, s.obj(q.obj))

    def at(self, k, i):
        a, b, w, q, o = self.a[k]
        return bv(a.sel(lin(simp(i + b))), w * 8)

    def N(self, i):
        return self.at('next_p', i)

    def P(self, i):
        return self.at('previous_p', i)

    def F(self, i):
        return self.at('is_free_p', i)

    def inside(self, i):
        return z3.And(i >= -2, i < self.n)

    def inv(self, i):
        N, P, F, R = self.N, self.P, self.F, self.R
        n, p = N(i), P(i)
        return [('links stay inside', z3.And(self.inside(n), self.inside(p))),
                ('next and previous are inverse of each other', z3.And(N(p) == i, P(n) == i)),
                ('links stay in their list', z3.And(F(n) == F(i), F(p) == F(i))),
                ('flag', z3.And(z3.ULE(F(i), 1), z3.Implies(i == UL, F(i) == 0), z3.Implies(i == FL, F(i) == 1))),
                ('no cycle avoids the head', z3.Implies(z3.And(i >= 0, n >= 0), R(n) > R(i)))]


class List:
    def __init__(self, t, s=None):
        self.t = t
        t.E.inst_rounds = 2
        s = self.s = s or t.state()
        p = self.p = s.sym(LF, 'keeper')
        n = s.get(p, LF, 'freedom_size.id')
        self.rank = z3.Function(fresh_name('rank'), z3.BitVecSort(64), z3.IntSort())
        s.assume(z3.And(bv(n, 64) >= 0, bv(n, 64) < BIG))
        L = lin(n).add(Lin(2))
        self.bases = []
        for k, vec, w in (('next_p', 'next_v', 8), ('previous_p', 'previous_v', 8), ('is_free_p', 'is_free_v', 1)):
            ln = L.scale(w)
            o = s.new_obj(k, ln)
            b = Base(k, w * 8)
            sg = en.Seg(0, ln, w)
            sg.fields[(0, w)] = b
            o.segs.append(sg)
            self.bases.append(b)
            s.put(p, LF, k, Ptr(o.id, 2 * w))
            off = t.E.M.field(LF, vec)[0]
            for j, x in enumerate((Lin(0), ln, ln)):
                s.store(p.add(Lin(off + 8 * j)), 8, Ptr(o.id, x))
        v = self.v = View(s, p, self.rank)

        def all_inv(j):
            i = simp(j.bv() - 2)
            return z3.Implies(v.inside(i), z3.And(*[c for _, c in v.inv(i)]))
        for b in self.bases:
            s.assume_forall(b, all_inv)
        for h in (UL, FL):
            s.assume(z3.And(*[c for _, c in v.inv(h)]))

    def check(self, o, R=None, what=''):
        """the representation invariant holds after the call"""
        t, s = self.t, o.s
        w = View(s, self.p, R or self.rank)
        n = lin(s.get(self.p, LF, 'freedom_size.id')).add(Lin(2))
        for k, vec in (('next_p', 'next_v'), ('previous_p', 'previous_v'), ('is_free_p', 'is_free_v')):
            a, b, wd, q, ob = w.a[k]
            off = t.E.M.field(LF, vec)[0]
            d = s.load(self.p.add(Lin(off)), 8, 'ptr')
            t.prove(s, z3.BoolVal(d.obj == q.obj and d.off.const() == 0 and q.off.const() == 2 * wd), '%s points into its vector' % k)
            t.prove(s, ob.size.bv() == n.scale(wd).bv(), '%s: vector size' % k)
        i = t.var('i%d' % s.sid)
        s.assume(w.inside(i))
        for name, c in w.inv(i):
            t.prove(s, c, what + 'invariant: ' + name)
        return w

    def frame(self, s, w, n, flag, count, what):
        """the set afterwards: is_free of every identifier below n"""
        i = self.t.var('j%d' % s.sid)
        self.t.prove(s, z3.And(w.n == n, w.count == count), what + ': size and count')
        self.t.prove(s, z3.Implies(z3.And(i >= 0, i < n), w.F(i) == flag(i)), what + ': exactly this change of the set')


def lcall(t, name, args, s):
    return t.call(s, r'^' + LF + r'::' + name + r'\(', args)


@task('C09', SRC)
def list_use(t):
    """use: moves exactly this identifier from the free list to the end of the used list"""
    L = List(t)
    v, i = L.v, t.var('identifier')
    L.s.assume(z3.And(i >= 0, i < v.n, v.F(i) == 1))
    tail = v.P(UL)
    for o in lcall(t, 'use', [L.p, i], L.s):
        t.prove(o.s, z3.BoolVal(o.ret), 'returns')
        w = L.check(o, lambda x: z3.If(x == i, L.rank(tail) + 1, L.rank(x)))
        L.frame(o.s, w, v.n, lambda x: z3.If(x == i, z3.BitVecVal(0, 8), v.F(x)), v.count + 1, 'use')


@task('C09', SRC)
def list_free(t):
    """free: moves exactly this identifier to the front of the free list"""
    L = List(t)
    v, i = L.v, t.var('identifier')
    L.s.assume(z3.And(i >= 0, i < v.n, v.F(i) == 0))
    head = v.N(FL)
    for o in lcall(t, 'free', [L.p, i], L.s):
        t.prove(o.s, z3.BoolVal(o.ret), 'returns')
        w = L.check(o, lambda x: z3.If(x == i, L.rank(head) - 1, L.rank(x)))
        L.frame(o.s, w, v.n, lambda x: z3.If(x == i, z3.BitVecVal(1, 8), v.F(x)), v.count - 1, 'free')


@task('C09', SRC)
def list_push_back(t):
    """push_back: one more free identifier"""
    L = List(t)
    v = L.v
    head = v.N(FL)
    for o in lcall(t, 'push_back', [L.p], L.s):
        if not o.ret:
            t.prove(o.s, z3.BoolVal(False), 'returns')
            continue
        w = L.check(o, lambda x: z3.If(x == v.n, L.rank(head) - 1, L.rank(x)))
        L.frame(o.s, w, v.n + 1, lambda x: z3.If(x == v.n, z3.BitVecVal(1, 8), v.F(x)), v.count, 'push_back')
        t.prove(o.s, bv(o.v, 64) == v.n, 'returns the new identifier')


@task('C09', SRC)
def list_get_free_record(t):
    """get_free_record: proposes an identifier that is inside and not used"""
    L = List(t)
    v = L.v
    head = v.N(FL)
    for o in lcall(t, 'get_free_record', [L.p], L.s):
        if not o.ret:
            t.prove(o.s, z3.BoolVal(False), 'returns')
            continue
        w = L.check(o, lambda x: z3.If(z3.And(x == v.n, head == FL), L.rank(head) - 1, L.rank(x)))
        n1 = z3.If(head == FL, v.n + 1, v.n)
        L.frame(o.s, w, n1, lambda x: z3.If(x == v.n, z3.BitVecVal(1, 8), v.F(x)), v.count, 'get_free_record')
        r = bv(o.v, 64)
        t.prove(o.s, z3.And(r >= 0, r < w.n, w.F(r) == 1), 'the identifier proposed is inside and free')


@task('C09', SRC)
def list_make(t):
    """a new List_Freedom_Keeper: empty lists"""
    t.E.inst_rounds = 2
    s = t.state()
    p = s.sym(LF, 'keeper')
    L = List.__new__(List)
    L.t, L.s, L.p = t, s, p
    L.rank = z3.Function(fresh_name('rank'), z3.BitVecSort(64), z3.IntSort())
    for o in t.call(s, r'^' + LF + r'::List_Freedom_Keeper\(\)', [p]):
        if not o.ret:
            t.prove(o.s, z3.BoolVal(False), 'returns')
            continue
        w = L.check(o)
        t.prove(o.s, z3.And(w.n == 0, w.count == 0), 'empty')


@task('C09', SRC)
def list_queries(t):
    """linked form: size, count, membership, links, for every identifier"""
    L = List(t)
    v, i = L.v, t.var('identifier')
    for name, want in (('get_used_count', v.count), ('get_size', v.n), ('size', v.n), ('get_first_free', v.N(FL)), ('get_first_used', v.N(UL))):
        for o in lcall(t, name, [L.p], L.s.fork()):
            t.prove(o.s, bv(o.v, 64) == want, name)
    for o in lcall(t, 'is_used', [L.p, i], L.s.fork()):
        t.prove(o.s, bool_of(o.v) == z3.And(i >= 0, i < v.n, v.F(i) == 0), 'is_used')
    for o in lcall(t, 'is_free', [L.p, i], L.s.fork()):
        t.prove(o.s, bool_of(o.v) == z3.Not(z3.And(i >= 0, i < v.n, v.F(i) == 0)), 'is_free')
    s = L.s.fork()
    s.assume(v.inside(i))
    for o in lcall(t, 'get_next', [L.p, i], s.fork()):
        t.prove(o.s, bv(o.v, 64) == v.N(i), 'get_next')
    for o in lcall(t, 'get_previous', [L.p, i], s.fork()):
        t.prove(o.s, bv(o.v, 64) == v.P(i), 'get_previous')


@task('C09', SRC)
def list_ranges(t):
    """linked form: range queries, for every identifier and non-empty range"""
    L = List(t)
    v, i, m = L.v, t.var('identifier'), t.var('range')
    L.s.assume(m != 0)
    end = z3.ZeroExt(1, i) + z3.ZeroExt(1, m)
    valid = z3.And(i >= 0, z3.ULT(end, z3.BitVecVal(1 << 63, 65)))
    FR = L.bases[2]

    def seen(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue
            for c in (0, 1):
                def f(g, k=k, c=c):
                    hi = i + bv(g.cur(k), 64)
                    return [FR], lambda j: z3.Implies(z3.And(j.bv() - 2 >= i, j.bv() - 2 < hi), bv(FR.sel(j), 8) == c)
                out.append(en.QCand('flags of the identifiers seen so far', f, True))
            for lim in (v.n,):
                out.append(en.Cand('inside', lambda g, k=k: z3.And(bv(g.cur(k), 64) >= 0, z3.Or(bv(g.cur(k), 64) == 0, i + bv(g.cur(k), 64) <= v.n)), True))
        return out
    t.E.loop_cands += [seen]
    j = t.var('witness')
    inr = z3.And(j >= i, z3.ULT(j - i, m))
    for name, flag in (('is_used_vector', 0), ('is_free_vector', 1)):
        for o in lcall(t, name, [L.p, i, m], L.s.fork()):
            t.prove(o.s, z3.BoolVal(o.ret), 'returns')
            r = bool_of(o.v)
            ok = z3.And(j < v.n, v.F(j) == 0) if flag == 0 else z3.Or(j >= v.n, v.F(j) == 1)
            t.prove(o.s, z3.Implies(r, valid), name + ': true only for valid ranges')
            t.prove(o.s, z3.Implies(z3.And(r, inr), ok), name + ': true only if it holds of every identifier of the range')
            # false only if some identifier of the range is a counterexample
            s = o.s
            s.assume(z3.Not(r))
            s.assume(valid)
            if flag == 0:
                s.assume(z3.ULE(end, z3.ZeroExt(1, v.n)))

            def every(q):
                x = simp(q.bv() - 2)
                return z3.Implies(z3.And(x >= i, z3.ULT(x - i, m), x < v.n), v.F(x) == flag)
            s.assume_forall(FR, every)
            t.prove(s, z3.BoolVal(False), name + ': false only if it fails for some identifier of the range')


# ------------------------------------------------- loops, over the contracts
class Abs:
    """a List_Freedom_Keeper known by its contract only: ghosts l.n, l.U, l.cnt"""

    def __init__(self, t, s, p, empty=False):
        self.t, self.p = t, p
        E = t.E
        if empty:
            s.ghost['l.n'], s.ghost['l.cnt'], s.ghost['l.U'] = B(0), B(0), Fill(0, 8)
        else:
            s.ghost['l.n'], s.ghost['l.cnt'], U = t.var('list size'), t.var('list count'), Base('U', 8)
            n = s.ghost['l.n']
            s.ghost['l.U'] = U
            s.assume(z3.And(n >= 0, n < BIG, s.ghost['l.cnt'] >= 0, s.ghost['l.cnt'] <= n))
            s.assume_forall(U, lambda j: z3.And(z3.ULE(bv(U.sel(j), 8), 1), z3.Implies(z3.Or(j.bv() < 0, j.bv() >= n), bv(U.sel(j), 8) == 0)))
        if not empty or True:
            c = lambda n: (r'^' + LF + '::' + n + r'\(', getattr(self, n), LF[7:] + '::' + n)
            E.contracts += [c(x) for x in ('push_back', 'use', 'free', 'get_used_count', 'get_size', 'size', 'get_free_record', 'is_used', 'is_free')]
        self.s0 = s

    def sel(self, s, i):
        return bv(s.ghost['l.U'].sel(lin(simp(i))), 8)

    def this(self, E, s, a):
        E.prove(s, z3.BoolVal(a[0].obj == self.p.obj and a[0].off.key() == self.p.off.key()), 'pre', 'called on the linked representation of this keeper')

    def push_back(self, E, s, a, ins):
        self.this(E, s, a)
        n = s.ghost['l.n']
        E.prove(s, n < BIG, 'pre', 'size of the structure')
        s.ghost['l.n'] = simp(n + 1)
        return n

    def use(self, E, s, a, ins):
        self.this(E, s, a)
        i = bv(a[1], 64)
        E.prove(s, z3.And(i >= 0, i < s.ghost['l.n'], self.sel(s, i) == 0), 'pre', 'use: the identifier is inside and free')
        s.ghost['l.U'] = Store(s.ghost['l.U'], lin(i), 1)
        s.ghost['l.cnt'] = simp(s.ghost['l.cnt'] + 1)

    def free(self, E, s, a, ins):
        self.this(E, s, a)
        i = bv(a[1], 64)
        E.prove(s, z3.And(i >= 0, i < s.ghost['l.n'], self.sel(s, i) == 1), 'pre', 'free: the identifier is used')
        s.ghost['l.U'] = Store(s.ghost['l.U'], lin(i), 0)
        s.ghost['l.cnt'] = simp(s.ghost['l.cnt'] - 1)

    def get_used_count(self, E, s, a, ins):
        return s.ghost['l.cnt']

    def get_size(self, E, s, a, ins):
        return s.ghost['l.n']

    size = get_size

    def is_used(self, E, s, a, ins):
        i = bv(a[1], 64)
        return z3.And(i >= 0, i < s.ghost['l.n'], self.sel(s, i) == 1)

    def is_free(self, E, s, a, ins):
        return z3.Not(self.is_used(E, s, a, ins))

    def get_free_record(self, E, s, a, ins):
        self.this(E, s, a)
        r = fresh('free', 64)
        n = s.ghost['l.n']
        s.ghost['l.n'] = n1 = fresh('size', 64)
        s.assume(z3.And(r >= 0, r < n1, self.sel(s, r) == 0, z3.Or(n1 == n, z3.And(n1 == n + 1, s.ghost['l.cnt'] == n))))
        return r

    def vector(self, E, s, a, ins, v):
        """contract of use_vector / free_vector"""
        self.this(E, s, a)
        i, m = bv(a[1], 64), bv(a[2], 64)
        U = s.ghost['l.U']
        E.prove(s, z3.And(i >= 0, m >= 0, m < BIG, i + m <= s.ghost['l.n']), 'pre', 'the range is inside')
        k = fresh('k', 64)
        E.prove(s, z3.Implies(z3.And(k >= i, k < i + m), self.sel(s, k) == 1 - v), 'pre', 'the whole range is %s' % ('free' if v else 'used'))
        s.ghost['l.U'] = Copy(U, lin(i), lin(m), Fill(v, 8), Lin(0))
        s.ghost['l.cnt'] = simp(s.ghost['l.cnt'] + (m if v else -m))

    def ranges(self):
        c = self.t.E.contracts
        c += [(r'^' + LF + r'::use_vector\(', lambda E, s, a, ins: self.vector(E, s, a, ins, 1), LF[7:] + '::use_vector'),
              (r'^' + LF + r'::free_vector\(', lambda E, s, a, ins: self.vector(E, s, a, ins, 0), LF[7:] + '::free_vector')]


def filled(start, val):
    """U and the count after k identifiers from start"""
    def gen(E, lp):
        out = []
        U0, c0 = lp.s0.ghost['l.U'], lp.s0.ghost['l.cnt']
        for k, w in lp.scal:
            if w != 64:
                continue

            def f(g, k=k):
                U = g.s.ghost['l.U']
                hi = bv(g.cur(k), 64)
                return [U], lambda j: bv(U.sel(j), 8) == z3.If(z3.And(j.bv() >= start, j.bv() < start + hi), z3.BitVecVal(val, 8), bv(U0.sel(j), 8))
            out.append(en.QCand('set after the identifiers so far', f, True))
            out.append(en.Cand('count so far', lambda g, k=k: g.s.ghost['l.cnt'] == (c0 + bv(g.cur(k), 64) if val else c0 - bv(g.cur(k), 64)), True))
            out.append(en.Cand('loop counter', lambda g, k=k: bv(g.cur(k), 64) >= 0, True))
        return out
    return gen


def list_vector(name, val):
    def f(t):
        s = t.state()
        p = s.sym(LF, 'keeper')
        A = Abs(t, s, p)
        i, m = t.var('identifier'), t.var('range')
        n, U0, c0 = s.ghost['l.n'], s.ghost['l.U'], s.ghost['l.cnt']
        s.assume(z3.And(i >= 0, i < BIG, m >= 0, m < BIG, i + m <= n))
        s.assume_forall(U0, lambda j: z3.Implies(z3.And(j.bv() >= i, j.bv() < i + m), bv(U0.sel(j), 8) == 1 - val))
        t.E.loop_cands += [filled(i, val)]
        for o in lcall(t, name, [p, i, m], s):
            if not o.ret:
                t.prove(o.s, z3.BoolVal(False), 'returns')
                continue
            j = t.var('j%d' % o.s.sid)
            g = o.s.ghost
            t.prove(o.s, A.sel(o.s, j) == z3.If(z3.And(j >= i, j < i + m), z3.BitVecVal(val, 8), bv(U0.sel(lin(j)), 8)), 'exactly the identifiers of the range change')
            t.prove(o.s, z3.And(g['l.n'] == n, g['l.cnt'] == (c0 + m if val else c0 - m)), 'size and count')
    f.__name__ = 'list_' + name
    f.__module__ = __name__
    f.__doc__ = 'linked form: %s changes exactly the range' % name
    return task('C09', SRC)(f)


list_vector('use_vector', 1)
list_vector('free_vector', 0)


@task('C09', SRC)
def list_resize(t):
    """linked form: resize adds free identifiers up to the size wanted, never removes any"""
    s = t.state()
    p = s.sym(LF, 'keeper')
    Abs(t, s, p)
    m = t.var('new size')
    s.assume(m < BIG)
    n, U, c = s.ghost['l.n'], s.ghost['l.U'], s.ghost['l.cnt']
    t.E.loop_cands += [lambda E, lp: [en.Cand('size', lambda g: z3.And(g.s.ghost['l.n'] >= n, z3.Or(g.s.ghost['l.n'] == n, g.s.ghost['l.n'] <= m)), True)]]
    for o in lcall(t, 'resize', [p, m], s):
        g = o.s.ghost
        t.prove(o.s, z3.BoolVal(o.ret and g['l.U'] is U and g['l.cnt'] is c), 'the set does not change')
        t.prove(o.s, g['l.n'] == z3.If(m > n, m, n), 'size')


class Both:
    """Freedom_Keeper in one of its two forms"""

    def __init__(self, t, dense):
        self.t = t
        s = self.s = t.state()
        p = self.p = s.sym(FK, 'keeper')
        s.put(p, FK, 'dense', 1 if dense else 0)
        off = t.E.M.field(FK, 'lfk')[0]
        self.dense = dense
        self.A = Abs(t, s, p.add(Lin(off)), empty=dense)
        self.A.ranges()
        self.d = Dense(t, s, p, FK, 'dfk.') if dense else None
        if dense:
            self.n, self.u, self.cnt = self.d.n, None, self.d.u
        else:
            self.n, self.cnt = s.ghost['l.n'], s.ghost['l.cnt']
        self.U0 = s.ghost['l.U']
        E = t.E

        def lose(E, lp):
            out = []
            d = self.d
            if d is None:
                return out
            out.append(en.Cand('list size', lambda g: z3.And(g.s.ghost['l.n'] >= 0, g.s.ghost['l.n'] <= d.n), True))
            for k, w in lp.scal:
                if w != 64:
                    continue

                def f(g, k=k):
                    U = g.s.ghost['l.U']
                    hi = bv(g.cur(k), 64)
                    return [U], lambda j: bv(U.sel(j), 8) == z3.If(z3.And(j.bv() >= 0, j.bv() < hi), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                out.append(en.QCand('set so far', f, True))
                out.append(en.Cand('count so far', lambda g, k=k: g.s.ghost['l.cnt'] == bv(g.cur(k), 64), True))
                out.append(en.Cand('counter', lambda g, k=k: z3.And(bv(g.cur(k), 64) >= 0, bv(g.cur(k), 64) <= d.u), True))
            return out
        E.loop_cands += [lose]

    def used0(self, j):
        """membership before"""
        if self.dense:
            return z3.And(j >= 0, j < self.d.u)
        return bv(self.U0.sel(lin(j)), 8) == 1

    def view(self, s):
        """(is dense, size, membership, count) of a state"""
        dn = bool_of(s.get(self.p, FK, 'dense'))
        D = Dense.__new__(Dense)
        D.p, D.cls, D.path = self.p, FK, 'dfk.'
        du, dsz = D.used(s), D.size(s)
        g = s.ghost
        return (dn, z3.If(dn, dsz, g['l.n']),
                lambda j: z3.If(dn, z3.And(j >= 0, j < du), self.A.sel(s, j) == 1),
                z3.If(dn, du, g['l.cnt']), du, dsz)

    def after(self, o, n, member, cnt, what):
        t, s = self.t, o.s
        if not o.ret:
            t.prove(s, z3.BoolVal(False), what + ' returns')
            return
        dn, n1, mem, c1, du, dsz = self.view(s)
        j = t.var('j%d' % s.sid)
        t.prove(s, n1 == n, what + ': size')
        t.prove(s, mem(j) == member(j), what + ': exactly the identifiers specified are used')
        t.prove(s, c1 == cnt, what + ': count')
        t.prove(s, z3.Implies(dn, z3.And(du >= 0, du <= dsz)), what + ': compact form well-formed')
        t.prove(s, z3.Implies(dn, z3.And(s.ghost['l.n'] == 0, s.ghost['l.cnt'] == 0, self.A.sel(s, j) == 0)), what + ': the linked form is empty while the compact one is in use')


def bcall(t, name, args, s):
    return t.call(s, r'^' + FK + r'::' + name + r'\(', args)


def both(dense):
    nm = 'compact' if dense else 'linked'

    def updates(t):
        b = Both(t, dense)
        i = t.var('identifier')
        m = t.var('range')
        s0 = b.s
        for o in bcall(t, 'push_back', [b.p], s0.fork()):
            b.after(o, b.n + 1, b.used0, b.cnt, 'push_back')
            t.prove(o.s, bv(o.v, 64) == b.n, 'push_back returns the new identifier')
        s = s0.fork()
        s.assume(m < BIG)
        if not dense:
            t.E.contracts += [(r'^' + LF + r'::resize\(', resize_contract, LF[7:] + '::resize')]
        for o in bcall(t, r'resize\(joedb::Record_Id\)', [b.p, m], s) if False else t.call(s, r'^' + FK + r'::resize\(joedb::Record_Id\)', [b.p, m]):
            b.after(o, z3.If(m > b.n, m, b.n), b.used0, b.cnt, 'resize')
        for o in bcall(t, 'get_free_record', [b.p], s0.fork()):
            r = bv(o.v, 64)
            dn, n1, mem, c1, du, dsz = b.view(o.s)
            t.prove(o.s, z3.And(r >= 0, r < n1, z3.Not(mem(r))), 'the identifier proposed is inside and not used')
            t.prove(o.s, z3.Or(n1 == b.n, z3.And(n1 == b.n + 1, b.cnt == b.n)), 'get_free_record adds an identifier only when all are used')
            b.after(o, n1, b.used0, b.cnt, 'get_free_record')
        s0.assume(z3.And(i >= 0, i < b.n))
        s = s0.fork()
        s.assume(z3.Not(b.used0(i)))
        for o in bcall(t, 'use', [b.p, i], s):
            b.after(o, b.n, lambda j: z3.Or(j == i, b.used0(j)), b.cnt + 1, 'use')
        s = s0.fork()
        s.assume(b.used0(i))
        for o in bcall(t, 'free', [b.p, i], s):
            b.after(o, b.n, lambda j: z3.And(j != i, b.used0(j)), b.cnt - 1, 'free')
        s0.assume(z3.And(m > 0, m < BIG, i + m <= b.n))
        inr = lambda j: z3.And(j >= i, j < i + m)
        for name, v in (('use_vector', 1), ('free_vector', 0)):
            s = s0.fork()
            if dense:
                s.assume(i >= b.d.u if v else i + m <= b.d.u)
            else:
                s.assume_forall(b.U0, lambda j: z3.Implies(inr(j.bv()), bv(b.U0.sel(j), 8) == 1 - v))
            for o in bcall(t, name, [b.p, i, m], s):
                b.after(o, b.n, (lambda j: z3.Or(inr(j), b.used0(j))) if v else (lambda j: z3.And(z3.Not(inr(j)), b.used0(j))), b.cnt + m if v else b.cnt - m, name)

    def queries(t):
        b = Both(t, dense)
        i, m = t.var('identifier'), t.var('range')
        b.s.assume(m != 0)
        links = {}

        def link(n):
            def f(E, s, a, ins):
                b.A.this(E, s, a)
                r = links.setdefault((n, str(a[1])), fresh(n, 64))
                links['arg', n] = a
                return r
            return f
        names = ('get_next', 'get_previous', 'is_used_vector', 'is_free_vector')
        t.E.contracts += [(r'^' + LF + '::' + n + r'\(', link(n), LF[7:] + '::' + n) for n in names[:2]]
        rv = fresh_bool('range')
        t.E.contracts += [(r'^' + LF + '::' + n + r'\(', lambda E, s, a, ins, n=n: (b.A.this(E, s, a), E.prove(s, z3.And(bv(a[1], 64) == i, bv(a[2], 64) == m), 'pre', n + ': same range'), rv)[-1], LF[7:] + '::' + n) for n in names[2:]]
        for name, want in (('get_used_count', b.cnt), ('get_size', b.n), ('size', b.n)):
            for o in bcall(t, name, [b.p], b.s.fork()):
                t.prove(o.s, bv(o.v, 64) == want, name)
        for o in bcall(t, 'is_used', [b.p, i], b.s.fork()):
            t.prove(o.s, bool_of(o.v) == b.used0(i), 'is_used')
        for o in bcall(t, 'is_free', [b.p, i], b.s.fork()):
            t.prove(o.s, bool_of(o.v) == z3.Not(b.used0(i)), 'is_free')
        end = z3.ZeroExt(1, i) + z3.ZeroExt(1, m)
        valid = z3.And(i >= 0, z3.ULT(end, z3.BitVecVal(1 << 63, 65)))
        for name in names[2:]:
            for o in bcall(t, name, [b.p, i, m], b.s.fork()):
                w = rv if not dense else z3.And(valid, z3.ULE(end, z3.ZeroExt(1, b.d.u)) if name == 'is_used_vector' else i >= b.d.u)
                t.prove(o.s, bool_of(o.v) == w, name + ' answers for the form in use')
        s = b.s.fork()
        s.assume(z3.And(i >= -2, i < b.n))
        for name, of, arg in (('get_next', 'get_next', i), ('get_previous', 'get_previous', i), ('get_first_free', 'get_next', FL), ('get_first_used', 'get_next', UL),
                              ('get_last_free', 'get_previous', FL), ('get_last_used', 'get_previous', UL)):
            links.clear()
            for o in bcall(t, name, [b.p] + ([i] if name == of else []), s.fork()):
                r = bv(o.v, 64)
                if dense:
                    u, n = b.d.u, b.n
                    if of == 'get_next':
                        w = z3.If(arg == -2, z3.If(u == 0, UL, B(0)), z3.If(arg == -1, z3.If(u == n, FL, u), z3.If(arg + 1 == u, UL, z3.If(arg + 1 == n, FL, arg + 1))))
                    else:
                        w = z3.If(arg == -2, z3.If(u == 0, UL, u - 1), z3.If(arg == -1, z3.If(u == n, FL, n - 1), z3.If(arg == u, FL, z3.If(arg == 0, UL, arg - 1))))
                    t.prove(o.s, r == w, name + ' of the compact form')
                else:
                    a = links.get(('arg', of))
                    t.prove(o.s, z3.BoolVal(False) if a is None else z3.And(bv(a[1], 64) == arg, r == links[(of, str(a[1]))]), name + ' of the linked form')
    for f, d in ((updates, 'every update acts exactly on the set, and switches form without changing it'), (queries, 'every query answers for the form in use')):
        f.__name__ = '%s_%s' % (nm, f.__name__)
        f.__module__ = __name__
        f.__doc__ = 'Freedom_Keeper in %s form: %s' % (nm, d)
        task('C09', SRC)(f)


def resize_contract(E, s, a, ins):
    m, n = bv(a[1], 64), s.ghost['l.n']
    E.prove(s, m < BIG, 'pre', 'size of the structure')
    s.ghost['l.n'] = z3.If(m > n, m, n)


both(True)
both(False)
