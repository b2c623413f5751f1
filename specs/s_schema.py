"""C11: schema identifiers and names, over the abstract map of specs/maps.py."""
import z3
import engine as en
import files
from terms import *
from task import task
from maps import World, Map, key_of, EMPTY

SRC = ['joedb/interpreted/Database_Schema.cpp', 'joedb/interpreted/Table.cpp', 'joedb/Readable.cpp', 'joedb/is_identifier.cpp', 'joedb/interpreted/Database.cpp']
DS = 'joedb::Database_Schema'
TB = 'joedb::Table'
valid = z3.Function('valid_identifier', z3.BitVecSort(64), z3.BoolSort())
B16 = lambda v: z3.ZeroExt(48, bv(v, 16))


def truth(v):
    if isinstance(v, int):
        return z3.BoolVal(v & 1)
    return v if z3.is_bool(v) else z3.Extract(0, 0, v) == 1


def letter(c):
    return z3.Or(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), z3.And(z3.UGE(c, 65), z3.ULE(c, 90)))


def digit(c):
    return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))


@task('C11', SRC)
def is_identifier(t):
    """is_identifier: true exactly for non-empty texts of letters, digits and underscores that do not start with a digit and contain no two adjacent underscores"""
    E = t.E
    s = t.state()
    n = t.var('length')
    s.assume(z3.ULT(n, 1 << 40))
    a = Base('name', 8)
    o = s.bytes_obj('name', lin(n), a)

    def ok(i):
        c = bv(a.sel(i), 8)
        p = bv(a.sel(i.sub(Lin(1))), 8)
        return z3.And(z3.Or(c == 95, letter(c), digit(c)), z3.Or(i.bv() == 0, c != 95, p != 95))

    def good(E, lp):
        out = []
        for k, w in lp.scal:
            if k[0] != 'poff' and w != 64:
                continue

            def f(g, k=k):
                return [a], lambda i: z3.Implies(z3.ULT(i.bv(), bv(g.cur(k), 64)), ok(i))
            out.append(en.QCand('correct so far', f, True))
            out.append(en.Cand('inside', lambda g, k=k: z3.ULE(bv(g.cur(k), 64), n), True))
            for q, w2 in lp.scal:
                if w2 == 8:
                    out.append(en.Cand('previous character', lambda g, k=k, q=q: z3.If(bv(g.cur(k), 64) == 0, bv(g.cur(q), 8) == 0,
                                                                                       bv(g.cur(q), 8) == bv(a.sel(lin(g.cur(k)).sub(Lin(1))), 8)), True))
        return out
    E.loop_cands += [good]
    whole = z3.Bool('whole')
    for o2 in t.call(s, r'^joedb::is_identifier\(', [n, Ptr(o.id, 0)]):
        t.prove(o2.s, z3.BoolVal(o2.ret), 'does not throw')
        if not o2.ret:
            continue
        y, no = o2.s.fork(), o2.s.fork()
        y.assume(truth(o2.v))
        t.prove(y, z3.And(n != 0, z3.Not(digit(bv(a.sel(Lin(0)), 8)))), 'accepted: not empty, does not start with a digit')
        t.forall(y, lambda i: z3.Implies(z3.ULT(i.bv(), n), ok(i)), 'accepted: every character is allowed')
        no.assume(z3.Not(truth(o2.v)))
        # a correct name is not refused: assume correct everywhere
        no.assume_forall(a, lambda i: z3.Implies(z3.ULT(i.bv(), n), ok(i)))
        no.assume(z3.And(n != 0, z3.Not(digit(bv(a.sel(Lin(0)), 8)))))
        t.prove(no, z3.BoolVal(False), 'refused: some rule is broken')


class Names:
    """a map of names with its counter, and the invariant: identifiers in
    1..counter, names valid and pairwise different (inverse function)"""

    def __init__(self, t, W, s, name, addr, S):
        self.t, self.W = t, W
        self.m = W.add(s, name, addr, S, text=True)
        self.inv0 = z3.Function(fresh_name(name + '.inverse'), z3.BitVecSort(64), z3.BitVecSort(64))

    def body(self, s, cur, inv):
        m = self.m
        pr, tk = s.ghost[m.pr], s.ghost[m.tk]

        def f(i):
            k, x = i.bv(), bv(tk.sel(i), 64)
            return z3.Implies(z3.And(bv(pr.sel(i), 8) != 0, z3.ULE(k, 65535)), z3.And(z3.UGE(k, 1), z3.ULE(k, cur), inv(x) == k, valid(x)))
        return f

    def assume(self, s, cur):
        f = self.body(s, cur, self.inv0)
        self.pr0, self.tk0 = s.ghost[self.m.pr], s.ghost[self.m.tk]
        s.assume_forall(self.pr0, f)
        s.assume_forall(self.tk0, f)

    def check(self, s, cur, inv, what):
        self.t.forall(s, self.body(s, cur, inv), what + ': identifiers up to the counter, names valid and unique')

    def only(self, s, key, what):
        """nothing but `key` changed"""
        m = self.m
        pr, tk = s.ghost[m.pr], s.ghost[m.tk]
        self.t.forall(s, lambda i: z3.Or(i.bv() == key, z3.UGE(i.bv(), 65536), z3.And(bv(pr.sel(i), 8) == bv(self.pr0.sel(i), 8), z3.Or(bv(pr.sel(i), 8) == 0, bv(tk.sel(i), 64) == bv(self.tk0.sel(i), 64)))), what)

    def same(self, s, what):
        self.only(s, z3.BitVecVal(1 << 40, 64), what)

    def absent(self, tok, k=None):
        """no present name equals tok: loop and contract fact"""
        def f(pr, tk):
            return lambda i: z3.Implies(z3.And(bv(pr.sel(i), 8) != 0, z3.ULE(i.bv(), 65535)), bv(tk.sel(i), 64) != tok)
        return f

    def find_contract(self):
        """the identifier with this name, or 0"""
        def h(E, s, a, ins):
            tok = self.W.token(s, a[-1])
            m = self.m
            pr, tk = s.ghost[m.pr], s.ghost[m.tk]
            no = s.fork()
            k = fresh('found', 16)
            s.assume(z3.And(m.has(s, B16(k)), m.at(s, B16(k)) == tok, k != 0))
            for b in (pr, tk):
                if isinstance(b, Base):
                    no.assume_forall(b, self.absent(tok)(pr, tk))
            return en.Outs([('ret', s, k), ('ret', no, 0)])
        return h

    def search_cands(self, tok):
        m = self.m

        def gen(E, lp):
            out = []
            for k, w in lp.scal:
                if k[0] != 'poff':
                    continue

                def f(g, k=k):
                    pr, tk = g.s.ghost[m.pr], g.s.ghost[m.tk]
                    hi = bv(key_of(lin(g.cur(k)), m.S).val(), 64)
                    return [pr, tk], lambda i: z3.Implies(z3.And(z3.ULT(i.bv(), hi), bv(pr.sel(i), 8) != 0), bv(tk.sel(i), 64) != tok)
                out.append(en.QCand('not found so far', f, True))

                def c(g, k=k):
                    pr = g.s.ghost[m.pr]
                    i = key_of(lin(g.cur(k)), m.S)
                    return z3.And(z3.ULE(bv(i.val(), 64), 65536), z3.Or(bv(i.val(), 64) == 65536, bv(pr.sel(i), 8) != 0))
                out.append(en.Cand('valid iterator', c, True))
            return out
        return gen


def searched(t, nm, outs, tok):
    m = nm.m
    for o in outs:
        t.prove(o.s, z3.BoolVal(o.ret), 'does not throw')
        if not o.ret:
            continue
        v = bv(o.v, 16)
        pr, tk = o.s.ghost[m.pr], o.s.ghost[m.tk]
        t.prove(o.s, z3.Or(v == 0, z3.And(m.has(o.s, B16(v)), m.at(o.s, B16(v)) == tok)), 'an identifier is returned only if it has this name')
        z = o.s.fork()
        z.assume(v == 0)
        t.forall(z, nm.absent(tok)(pr, tk), '0 is returned only if no one has this name')
        nm.same(o.s, 'nothing changes')


class Schema:
    def __init__(self, t):
        self.t = t
        E = t.E
        files.install(E)
        self.W = W = World(t)
        s = self.s = t.state()
        self.p = s.sym(DS, 'schema')
        off = lambda f: t.M.field(DS, f)[0]
        self.nm = Names(t, W, s, 'table_names', self.p.add(Lin(off('table_names'))), 40)
        self.tb = W.add(s, 'tables', self.p.add(Lin(off('tables'))), 8 + t.M.types[TB]['size'])
        self.cur = B16(s.get(self.p, DS, 'current_table_id'))
        self.nm.assume(s, self.cur)
        self.pr0 = s.ghost[self.tb.pr]
        keys = self.same_keys(s)
        for b in (self.pr0, self.nm.pr0):
            s.assume_forall(b, keys)
        self.name, self.tok = W.string(s, 'name')
        E.iface['joedb::Readable'] = {'get_tables': lambda E, s, a, ins: self.p.add(Lin(off('table_names')))}

    def same_keys(self, s):
        a, b = s.ghost[self.tb.pr], s.ghost[self.nm.m.pr]
        return lambda i: z3.Or(z3.UGE(i.bv(), 65536), (bv(a.sel(i), 8) != 0) == (bv(b.sel(i), 8) != 0))

    def counter(self, s):
        return B16(s.get(self.p, DS, 'current_table_id'))

    def contracts(self, find=True, check=True):
        E = self.t.E
        if check:
            def chk(E, s, a, ins):
                e = s.fork()
                s.assume(valid(self.W.token(s, a[1])))
                e.assume(z3.Not(valid(self.W.token(e, a[1]))))
                return en.Outs([('ret', s, None), ('exc', e, files.EXC)])
            E.contracts.insert(0, (r'^joedb::Database_Schema::check_identifier\(', chk, 'Database_Schema::check_identifier'))
        if find:
            E.contracts.insert(0, (r'^joedb::Readable::find_table\(', self.nm.find_contract(), 'Readable::find_table'))

    def unchanged(self, s, what):
        t = self.t
        self.nm.same(s, what + ': table names unchanged')
        pr = s.ghost[self.tb.pr]
        t.forall(s, lambda i: z3.Or(z3.UGE(i.bv(), 65536), bv(pr.sel(i), 8) == bv(self.pr0.sel(i), 8)), what + ': tables unchanged')
        t.prove(s, self.counter(s) == self.cur, what + ': counter unchanged')

    def kept(self, s, inv, what):
        self.nm.check(s, self.counter(s), inv, what)
        self.t.forall(s, self.same_keys(s), what + ': every table has a name and conversely')
        self.t.prove(s, z3.UGE(self.counter(s), self.cur), what + ': the counter never decreases')


@task('C11', SRC)
def check_identifier(t):
    """check_identifier throws exactly when is_identifier refuses the name"""
    E = t.E
    files.install(E)
    W = World(t)
    s = t.state()
    name, tok = W.string(s, 'name')
    seen = []
    E.contracts[:0] = [(r'basic_string<char.*>::operator std::basic_string_view<char', lambda E, s, a, ins: [z3.BitVecVal(0, 64), a[0]], 'view of a string'),
                       (r'^joedb::is_identifier\(', lambda E, s, a, ins: valid(W.token(s, a[1])), 'is_identifier')]
    msg = s.bytes_obj('message', Lin(8))
    for o in t.call(s, r'^joedb::Database_Schema::check_identifier\(', [Ptr(msg.id, 0), name]):
        t.prove(o.s, valid(tok) if o.ret else z3.Not(valid(tok)), 'throws exactly for an invalid name')


@task('C11', SRC)
def find_table(t):
    """find_table: the table with this name, or 0 if there is none"""
    d = Schema(t)
    t.E.loop_cands += [d.nm.search_cands(d.tok)]
    searched(t, d.nm, t.call(d.s, r'^joedb::Readable::find_table\(', [d.p, d.name]), d.tok)


@task('C11', SRC)
def create_table(t):
    """create_table: refused without effect if the name is invalid or used or identifiers are exhausted; else a new identifier with this name"""
    d = Schema(t)
    d.contracts()
    for o in t.call(d.s, r'^' + DS + r'::create_table\(', [d.p, d.name]):
        if not o.ret:
            d.unchanged(o.s, 'refused')
            x = o.s.fork()
            x.assume(z3.And(valid(d.tok), d.cur != 65535))
            f = d.nm.absent(d.tok)(d.nm.pr0, d.nm.tk0)
            for b in (d.nm.pr0, d.nm.tk0):
                x.assume_forall(b, f)
            t.prove(x, z3.BoolVal(False), 'refused only if invalid, used or exhausted')
            continue
        n = d.counter(o.s)
        t.prove(o.s, z3.And(n == d.cur + 1, z3.ULE(n, 65535)), 'the new identifier is beyond every one ever used')
        t.prove(o.s, z3.And(d.nm.m.has(o.s, n), d.tb.has(o.s, n), d.nm.m.at(o.s, n) == d.tok), 'the table exists under its name')
        d.nm.only(o.s, n, 'other tables unchanged')
        inv = d.nm.inv0
        d.kept(o.s, lambda x: z3.If(x == d.tok, n, inv(x)), 'created')


@task('C11', SRC)
def drop_table(t):
    """drop_table: exactly the named table disappears; refused without effect if it does not exist"""
    d = Schema(t)
    k = t.var('table', 16)
    for o in t.call(d.s, r'^' + DS + r'::drop_table\(', [d.p, k]):
        if not o.ret:
            d.unchanged(o.s, 'refused')
            t.prove(o.s, z3.Not(d.tb.has(o.s, B16(k))), 'refused only if absent')
            continue
        t.prove(o.s, z3.And(bv(d.pr0.sel(lin(B16(k))), 8) != 0, z3.Not(d.tb.has(o.s, B16(k))), z3.Not(d.nm.m.has(o.s, B16(k)))), 'the table existed and is gone')
        d.nm.only(o.s, B16(k), 'other tables unchanged')
        t.prove(o.s, d.counter(o.s) == d.cur, 'counter unchanged')
        d.kept(o.s, d.nm.inv0, 'dropped')


def get_table_contract(d, result=None):
    def h(E, s, a, ins):
        k = lin(B16(a[1]))
        no = s.fork()
        s.assume(d.tb.has(s, k))
        no.assume(z3.Not(d.tb.has(no, k)))
        return en.Outs([('ret', s, result or d.tb.elem(k, 8)), ('exc', no, files.EXC)])
    return (r'^joedb::Database_Schema::get_table\(', h, 'Database_Schema::get_table')


@task('C11 C10', SRC)
def get_table(t):
    """get_table: the table with this identifier; throws exactly if there is none"""
    d = Schema(t)
    k = t.var('table', 16)
    for o in t.call(d.s, r'^' + DS + r'::get_table\(joedb::Table_Id\)$', [d.p, k]):
        h = d.tb.has(o.s, B16(k))
        t.prove(o.s, h if o.ret else z3.Not(h), 'throws exactly if absent')
        if o.ret:
            w = d.tb.elem(B16(k), 8)
            t.prove(o.s, z3.BoolVal(o.v.obj == w.obj and (o.v.off.sub(w.off)).const() == 0), 'the table with this identifier')
        d.unchanged(o.s, 'lookup')


@task('C11', SRC)
def rename_table(t):
    """rename_table: exactly the named table changes its name; refused without effect if invalid, used or absent"""
    d = Schema(t)
    d.contracts()
    t.E.contracts.insert(0, get_table_contract(d))
    k = t.var('table', 16)
    K = B16(k)
    for o in t.call(d.s, r'^' + DS + r'::rename_table\(', [d.p, k, d.name]):
        if not o.ret:
            d.unchanged(o.s, 'refused')
            x = o.s.fork()
            x.assume(z3.And(valid(d.tok), d.tb.has(x, K)))
            f = d.nm.absent(d.tok)(d.nm.pr0, d.nm.tk0)
            for b in (d.nm.pr0, d.nm.tk0):
                x.assume_forall(b, f)
            t.prove(x, z3.BoolVal(False), 'refused only if invalid, used or absent')
            continue
        t.prove(o.s, z3.And(d.nm.m.has(o.s, K), d.nm.m.at(o.s, K) == d.tok), 'the table has the new name')
        d.nm.only(o.s, K, 'other tables unchanged')
        t.prove(o.s, d.counter(o.s) == d.cur, 'counter unchanged')
        inv = d.nm.inv0
        d.kept(o.s, lambda x: z3.If(x == d.tok, K, inv(x)), 'renamed')
