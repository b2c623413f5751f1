"""C10 and C11: tables. Freedom_Keeper by its contract (C09), columns by the
contract of Field (proved below), maps by specs/maps.py."""
import z3
import engine as en
import files
from terms import *
from task import task
from maps import World, key_of
from s_schema import SRC, DS, TB, Names, truth, B16, searched, get_table_contract, Schema, valid

FD = 'joedb::Field'
BIG = 1 << 57
B = lambda v: z3.BitVecVal(v, 64)
TYPES = ['string', 'reference', 'int8', 'int16', 'int32', 'int64', 'float32', 'float64', 'boolean', 'blob']


class Keeper:
    """Freedom_Keeper known by its contract: ghosts f.n, f.U"""

    def __init__(self, t, s, p):
        self.t, self.p = t, p
        s.ghost['f.n'], s.ghost['f.U'] = t.var('records'), Base('used', 8)
        self.n, self.U = n, U = s.ghost['f.n'], s.ghost['f.U']
        s.assume(z3.And(n >= 0, n < BIG))
        s.assume_forall(U, lambda j: z3.And(z3.ULE(bv(U.sel(j), 8), 1), z3.Implies(z3.Or(j.bv() < 0, j.bv() >= n), bv(U.sel(j), 8) == 0)))
        for m in ('push_back', 'use', 'free', 'get_size', 'size', 'is_used', 'is_free', 'is_used_vector', 'is_free_vector', 'resize', 'use_vector', 'free_vector'):
            t.E.contracts.append((r'^joedb::Freedom_Keeper::' + m + r'\(', self.wrap(getattr(self, m)), 'Freedom_Keeper::' + m + ' (C09)'))

    def wrap(self, f):
        def h(E, s, a, ins):
            E.prove(s, z3.BoolVal(a[0].obj == self.p.obj and a[0].off.key() == self.p.off.key()), 'pre', 'called on the freedom keeper of this table')
            return f(E, s, *[bv(x, 64) for x in a[1:]])
        return h

    def sel(self, s, i):
        return bv(s.ghost['f.U'].sel(lin(simp(i))), 8)

    def push_back(self, E, s):
        n = s.ghost['f.n']
        E.prove(s, n < 2 * BIG, 'pre', 'size of the structure')
        s.ghost['f.n'] = simp(n + 1)
        return n

    def use(self, E, s, i):
        E.prove(s, z3.And(i >= 0, i < s.ghost['f.n'], self.sel(s, i) == 0), 'pre', 'use: the identifier is inside and free')
        s.ghost['f.U'] = Store(s.ghost['f.U'], lin(i), 1)

    def free(self, E, s, i):
        E.prove(s, z3.And(i >= 0, i < s.ghost['f.n'], self.sel(s, i) == 1), 'pre', 'free: the identifier is used')
        s.ghost['f.U'] = Store(s.ghost['f.U'], lin(i), 0)

    def get_size(self, E, s):
        return s.ghost['f.n']

    size = get_size

    def is_used(self, E, s, i):
        return z3.And(i >= 0, i < s.ghost['f.n'], self.sel(s, i) == 1)

    def is_free(self, E, s, i):
        return z3.Not(self.is_used(E, s, i))

    def range_query(self, E, s, i, m, want):
        U, n = s.ghost['f.U'], s.ghost['f.n']
        valid = z3.And(i >= 0, z3.ULT(z3.ZeroExt(1, i) + z3.ZeroExt(1, m), z3.BitVecVal(1 << 63, 65)))
        no = s.fork()
        s.assume(valid)
        if want:
            s.assume(i + m <= n)
        s.assume_forall(U, lambda k: z3.Implies(z3.And(k.bv() >= i, k.bv() < i + m), bv(U.sel(k), 8) == want))
        w = fresh('witness', 64)
        no.assume(z3.Or(z3.Not(valid), z3.And(w >= i, w < i + m, bv(U.sel(lin(w)), 8) != want)))
        return en.Outs([('ret', s, True), ('ret', no, False)])

    def is_used_vector(self, E, s, i, m):
        return self.range_query(E, s, i, m, 1)

    def is_free_vector(self, E, s, i, m):
        return self.range_query(E, s, i, m, 0)

    def resize(self, E, s, m):
        n = s.ghost['f.n']
        E.prove(s, z3.And(m >= 0, m < 2 * BIG), 'pre', 'size of the structure')
        s.ghost['f.n'] = simp(z3.If(m > n, m, n))

    def fill(self, E, s, i, m, v):
        E.prove(s, z3.And(i >= 0, m >= 0, m < 2 * BIG, i + m <= s.ghost['f.n']), 'pre', 'the range is inside')
        k = fresh('k', 64)
        E.prove(s, z3.Implies(z3.And(k >= i, k < i + m), self.sel(s, k) == 1 - v), 'pre', 'the whole range is %s' % ('free' if v else 'used'))
        s.ghost['f.U'] = Copy(s.ghost['f.U'], lin(i), lin(m), Fill(v, 8), Lin(0))

    def use_vector(self, E, s, i, m):
        self.fill(E, s, i, m, 1)

    def free_vector(self, E, s, i, m):
        self.fill(E, s, i, m, 0)

    def unchanged(self, s, what):
        t, U = self.t, s.ghost['f.U']
        t.forall(s, lambda k: bv(U.sel(k), 8) == bv(self.U.sel(k), 8), what + ': the same records are used')

    def exactly(self, s, inside, v, what):
        U = s.ghost['f.U']
        self.t.forall(s, lambda k: bv(U.sel(k), 8) == z3.If(inside(k.bv()), z3.BitVecVal(v, 8), bv(self.U.sel(k), 8)), what)


class Tab:
    def __init__(self, t, s=None, keeper=True):
        self.t = t
        E = t.E
        files.install(E)
        self.W = W = World(t)
        s = self.s = s or t.state()
        self.p = s.sym(TB, 'table')
        off = lambda f: t.M.field(TB, f)[0]
        self.nm = Names(t, W, s, 'field_names', self.p.add(Lin(off('field_names'))), 40)
        self.fd = W.add(s, 'fields', self.p.add(Lin(off('fields'))), 8 + t.M.types[FD]['size'])
        self.cur = self.counter(s)
        self.nm.assume(s, self.cur)
        self.pr0 = s.ghost[self.fd.pr]
        s.ghost['fs'] = self.fs0 = Base('column size', 64)
        keys = self.same_keys(s)
        for b in (self.pr0, self.nm.pr0):
            s.assume_forall(b, keys)
        self.fr = Keeper(t, s, self.p.add(Lin(off('freedom')))) if keeper else None
        f = self.sized(s)
        for b in (self.pr0, self.fs0):
            s.assume_forall(b, f)
        s.ghost['writes'] = B(0)
        self.log = []
        self.fd.on_insert = self.new_field
        E.contracts += [(r'^joedb::Field::resize\(', self.resize, 'Field::resize'),
                        (r'^joedb::Field::set_(vector_)?[a-z0-9]+\(', self.write, 'Field::set')]

    def counter(self, s):
        return B16(s.get(self.p, TB, 'current_field_id'))

    def same_keys(self, s):
        a, b = s.ghost[self.fd.pr], s.ghost[self.nm.m.pr]
        return lambda i: z3.Or(z3.UGE(i.bv(), 65536), (bv(a.sel(i), 8) != 0) == (bv(b.sel(i), 8) != 0))

    def sized(self, s, n=None):
        """every column has a cell for every record"""
        pr, fs = s.ghost[self.fd.pr], s.ghost['fs']
        n = s.ghost['f.n'] if n is None else n
        return lambda i: z3.Implies(z3.And(z3.ULT(i.bv(), 65536), bv(pr.sel(i), 8) != 0), z3.And(z3.UGE(bv(fs.sel(i), 64), n), z3.ULE(bv(fs.sel(i), 64), 4 * BIG)))

    def field(self, E, s, p):
        if self.W.byobj.get(p.obj) is not self.fd:
            raise en.Unsupported('a field outside the table')
        k = key_of(p.off.sub(Lin(8)), self.fd.S)
        E.prove(s, z3.And(z3.ULT(k.bv(), 65536), self.fd.has(s, k)), 'pre', 'the field exists')
        return k

    def new_field(self, E, s, k, args):
        n = bv(E.load(s, args[1], 8, 'i64'), 64)
        s.ghost['fs'] = Store(s.ghost['fs'], k, n)
        s.ghost['newtype'] = args[0]

    def resize(self, E, s, a, ins):
        k = self.field(E, s, a[0])
        e = s.fork()       # allocation failure: the column keeps its cells
        s.ghost['fs'] = Store(s.ghost['fs'], k, bv(a[1], 64))
        return en.Outs([('ret', s, None), ('exc', e, '_ZTISt9bad_alloc')])

    def write(self, E, s, a, ins):
        """set_X and set_vector_X: cells [record, record + size) of the column, wrong type throws"""
        k = self.field(E, s, a[0])
        dem = E.M.functions[ins['callee'][1]]['dem']
        size = bv(a[2], 64) if '::set_vector_' in dem else B(1)
        r = bv(a[1], 64)
        e = s.fork()
        E.prove(s, z3.And(r >= 0, size >= 0, z3.ULE(r + size, bv(s.ghost['fs'].sel(k), 64))), 'pre', 'the cells are inside the column')
        s.ghost['writes'] = s.ghost['writes'] + 1
        s.ghost['wkey'], s.ghost['wrec'] = k.bv(), r
        self.log.append((dem, a))
        return en.Outs([('ret', s, None), ('exc', e, '_ZTISt18bad_variant_access')])

    def schema_unchanged(self, s, what):
        t = self.t
        self.nm.same(s, what + ': field names unchanged')
        pr = s.ghost[self.fd.pr]
        t.forall(s, lambda i: z3.Or(z3.UGE(i.bv(), 65536), bv(pr.sel(i), 8) == bv(self.pr0.sel(i), 8)), what + ': fields unchanged')
        t.prove(s, self.counter(s) == self.cur, what + ': counter unchanged')

    def kept(self, s, inv, what):
        self.nm.check(s, self.counter(s), inv, what)
        self.t.forall(s, self.same_keys(s), what + ': every field has a name and conversely')
        self.t.forall(s, self.sized(s), what + ': every column has a cell for every record')

    def refused(self, s, what='refused'):
        self.schema_unchanged(s, what)
        self.fr.unchanged(s, what)
        self.t.prove(s, s.ghost['f.n'] == self.fr.n, what + ': number of records')
        self.t.prove(s, s.ghost['writes'] == 0, what + ': no cell changes')
        self.t.forall(s, self.sized(s), what + ': every column has a cell for every record')


# ------------------------------------------------------------ C11: fields

@task('C11', SRC)
def find_field(t):
    """Table::find_field: the field with this name, or 0"""
    d = Tab(t)
    name, tok = d.W.string(d.s, 'name')
    t.E.loop_cands += [d.nm.search_cands(tok)]
    searched(t, d.nm, t.call(d.s, r'^joedb::Table::find_field\(', [d.p, name]), tok)


@task('C11 C10', SRC)
def add_field(t):
    """Table::add_field: refused without effect if used or exhausted; else a new identifier, and a column with a cell for every record"""
    d = Tab(t)
    name, tok = d.W.string(d.s, 'name')
    d.s.assume(valid(tok))
    t.E.contracts.insert(0, (r'^joedb::Table::find_field\(', d.nm.find_contract(), 'Table::find_field'))
    ty = d.s.sym('joedb::Type', 'type')
    for o in t.call(d.s, r'^joedb::Table::add_field\(', [d.p, name, ty]):
        if not o.ret:
            d.refused(o.s)
            x = o.s.fork()
            x.assume(d.cur != 65535)
            f = d.nm.absent(tok)(d.nm.pr0, d.nm.tk0)
            for b in (d.nm.pr0, d.nm.tk0):
                x.assume_forall(b, f)
            t.prove(x, z3.BoolVal(False), 'refused only if used or exhausted')
            continue
        n = d.counter(o.s)
        t.prove(o.s, z3.And(n == d.cur + 1, z3.ULE(n, 65535)), 'the new identifier is beyond every one ever used')
        t.prove(o.s, z3.And(d.nm.m.has(o.s, n), d.fd.has(o.s, n), d.nm.m.at(o.s, n) == tok), 'the field exists under its name')
        t.prove(o.s, z3.BoolVal(o.s.ghost['newtype'].obj == ty.obj), 'the field has the type given')
        d.nm.only(o.s, n, 'other fields unchanged')
        d.fr.unchanged(o.s, 'add_field')
        inv = d.nm.inv0
        d.kept(o.s, lambda x: z3.If(x == tok, n, inv(x)), 'added')


@task('C11 C10', SRC)
def drop_field(t):
    """Table::drop_field: exactly the named field disappears; refused without effect if it does not exist"""
    d = Tab(t)
    k = t.var('field', 16)
    K = B16(k)
    for o in t.call(d.s, r'^joedb::Table::drop_field\(', [d.p, k]):
        if not o.ret:
            d.refused(o.s)
            t.prove(o.s, z3.Not(d.fd.has(o.s, K)), 'refused only if absent')
            continue
        t.prove(o.s, z3.And(bv(d.pr0.sel(lin(K)), 8) != 0, z3.Not(d.fd.has(o.s, K)), z3.Not(d.nm.m.has(o.s, K))), 'the field existed and is gone')
        d.nm.only(o.s, K, 'other fields unchanged')
        t.prove(o.s, d.counter(o.s) == d.cur, 'counter unchanged')
        d.fr.unchanged(o.s, 'drop_field')
        d.kept(o.s, d.nm.inv0, 'dropped')


def db_field(t):
    """a schema whose get_table returns one symbolic table"""
    d = Tab(t)
    db = d.s.sym(DS, 'schema')
    d.exists = z3.Bool(fresh_name('table exists'))
    d.tid = t.var('table', 16)

    def get(E, s, a, ins):
        E.prove(s, bv(a[1], 16) == d.tid, 'pre', 'the table asked for is the one given')
        no = s.fork()
        s.assume(d.exists)
        no.assume(z3.Not(d.exists))
        return en.Outs([('ret', s, d.p), ('exc', no, files.EXC)])
    t.E.contracts.insert(0, (r'^joedb::Database_Schema::get_table\(', get, 'Database_Schema::get_table'))

    def chk(E, s, a, ins):
        e = s.fork()
        s.assume(valid(d.W.token(s, a[1])))
        e.assume(z3.Not(valid(d.W.token(e, a[1]))))
        return en.Outs([('ret', s, None), ('exc', e, files.EXC)])
    t.E.contracts.insert(0, (r'^joedb::Database_Schema::check_identifier\(', chk, 'Database_Schema::check_identifier'))
    return d, db


@task('C11', SRC)
def rename_field(t):
    """rename_field: exactly the named field changes its name; refused without effect if invalid, used or absent"""
    d, db = db_field(t)
    name, tok = d.W.string(d.s, 'name')
    k = t.var('field', 16)
    K = B16(k)
    t.E.contracts.insert(0, (r'^joedb::Table::find_field\(', d.nm.find_contract(), 'Table::find_field'))
    for o in t.call(d.s, r'^' + DS + r'::rename_field\(', [db, d.tid, k, name]):
        if not o.ret:
            d.refused(o.s)
            x = o.s.fork()
            x.assume(z3.And(valid(tok), d.fd.has(x, K), d.exists))
            f = d.nm.absent(tok)(d.nm.pr0, d.nm.tk0)
            for b in (d.nm.pr0, d.nm.tk0):
                x.assume_forall(b, f)
            t.prove(x, z3.BoolVal(False), 'refused only if invalid, used or absent')
            continue
        t.prove(o.s, z3.And(d.nm.m.has(o.s, K), d.nm.m.at(o.s, K) == tok), 'the field has the new name')
        d.nm.only(o.s, K, 'other fields unchanged')
        t.prove(o.s, d.counter(o.s) == d.cur, 'counter unchanged')
        inv = d.nm.inv0
        d.kept(o.s, lambda x: z3.If(x == tok, K, inv(x)), 'renamed')


@task('C11', SRC)
def schema_fields(t):
    """Database_Schema::add_field and drop_field: check the name, then exactly the operation on the table given"""
    d, db = db_field(t)
    name, tok = d.W.string(d.s, 'name')
    k = t.var('field', 16)
    ty = t.var('type', 32)
    d.s.ghost['calls'] = B(0)

    def act(adding):
        def h(E, s, a, ins):
            E.prove(s, z3.BoolVal(a[0].obj == d.p.obj), 'pre', 'on the table given')
            if adding:
                E.prove(s, z3.And(valid(tok), d.W.token(s, a[1]) == tok), 'pre', 'with the valid name given')
                E.prove(s, bv(E.load(s, a[2], 4, 'i32'), 32) == ty, 'pre', 'with the type given')
            else:
                E.prove(s, bv(a[1], 16) == k, 'pre', 'the field given')
            e = s.fork()
            s.ghost['calls'] = s.ghost['calls'] + 1
            return en.Outs([('ret', s, None), ('exc', e, files.EXC)])
        return h
    t.E.contracts.insert(0, (r'^joedb::Table::add_field\(', act(True), 'Table::add_field'))
    t.E.contracts.insert(0, (r'^joedb::Table::drop_field\(', act(False), 'Table::drop_field'))
    for n, args in (('add_field', [name, ty]), ('drop_field', [k])):
        for o in t.call(d.s.fork(), r'^' + DS + '::' + n + r'\(', [db, d.tid] + args):
            t.prove(o.s, o.s.ghost['calls'] == (1 if o.ret else 0), n + ': exactly one operation on the table, or refused without any')
            d.refused(o.s, n)


# ------------------------------------------------------------ C10: records

def grown(d, new):
    """columns before the iterator have been resized"""
    def gen(E, lp):
        out = []
        for k, w in lp.scal:
            if k[0] != 'poff':
                continue

            def f(g, k=k):
                pr, fs = g.s.ghost[d.fd.pr], g.s.ghost['fs']
                n0 = d.fr.n
                hi = bv(key_of(lin(g.cur(k)), d.fd.S).val(), 64)

                def body(i):
                    x = bv(fs.sel(i), 64)
                    return z3.Implies(z3.And(z3.ULT(i.bv(), 65536), bv(pr.sel(i), 8) != 0), z3.And(z3.UGE(x, n0), z3.ULE(x, 4 * BIG), z3.Implies(z3.ULT(i.bv(), hi), x == new)))
                return [pr, fs], body
            out.append(en.QCand('columns resized so far', f, True))

            def c(g, k=k):
                pr = g.s.ghost[d.fd.pr]
                i = key_of(lin(g.cur(k)), d.fd.S)
                return z3.And(z3.ULE(bv(i.val(), 64), 65536), z3.Or(bv(i.val(), 64) == 65536, bv(pr.sel(i), 8) != 0))
            out.append(en.Cand('valid iterator', c, True))
        for k, w in lp.scal:
            if k == ('ghost', 'f.n'):
                out.append(en.Cand('number of records', lambda g: z3.And(g.s.ghost['f.n'] >= d.fr.n, z3.Or(g.s.ghost['f.n'] == d.fr.n, g.s.ghost['f.n'] <= new)), True))
        return out
    return gen


@task('C10', SRC)
def insert_record(t):
    """Table::insert_record: exactly when unused; a cell in every column; nothing else changes"""
    d = Tab(t)
    r = t.var('record')
    d.s.assume(z3.And(r >= 0, r < BIG))
    t.E.loop_cands += [grown(d, r + 1)]
    for o in t.call(d.s, r'^joedb::Table::insert_record\(', [d.p, r]):
        if not o.ret:
            d.refused(o.s)
            continue
        t.prove(o.s, bv(d.fr.U.sel(lin(r)), 8) == 0, 'accepted only if unused')
        d.fr.exactly(o.s, lambda k: k == r, 1, 'exactly this record becomes used')
        d.schema_unchanged(o.s, 'insert')
        t.prove(o.s, o.s.ghost['writes'] == 0, 'no cell changes')
        d.kept(o.s, d.nm.inv0, 'inserted')


@task('C10', SRC)
def delete_record(t):
    """Table::delete_record: exactly when used; nothing else changes"""
    d = Tab(t)
    r = t.var('record')
    for o in t.call(d.s, r'^joedb::Table::delete_record\(', [d.p, r]):
        used = bv(d.fr.U.sel(lin(r)), 8) == 1
        t.prove(o.s, used if o.ret else z3.Not(used), 'exactly when used')
        if not o.ret:
            d.refused(o.s)
            continue
        d.fr.exactly(o.s, lambda k: k == r, 0, 'exactly this record becomes unused')
        d.schema_unchanged(o.s, 'delete')
        t.prove(o.s, o.s.ghost['writes'] == 0, 'no cell changes')
        d.kept(o.s, d.nm.inv0, 'deleted')


@task('C10', SRC)
def delete_vector(t):
    """Table::delete_vector: exactly when the whole range is used; nothing else changes"""
    d = Tab(t)
    r, n = t.var('record'), t.var('size')
    d.s.assume(n != 0)
    for o in t.call(d.s, r'^joedb::Table::delete_vector\(', [d.p, r, n]):
        if not o.ret:
            d.refused(o.s)
            U = d.fr.U
            x = o.s.fork()
            x.assume(z3.And(r >= 0, z3.ULE(n, BIG), r < BIG))
            x.assume_forall(U, lambda k: z3.Implies(z3.And(k.bv() >= r, k.bv() < r + n), bv(U.sel(k), 8) == 1))
            t.prove(x, z3.BoolVal(False), 'refused only if some record is unused')
            continue
        t.forall(o.s, lambda k: z3.Implies(z3.And(k.bv() >= r, k.bv() < r + n), bv(d.fr.U.sel(k), 8) == 1), 'accepted only if the whole range is used')
        d.fr.exactly(o.s, lambda k: z3.And(k >= r, k < r + n), 0, 'exactly this range becomes unused')
        d.schema_unchanged(o.s, 'delete')
        d.kept(o.s, d.nm.inv0, 'deleted')


def inserted_so_far(d, r, n):
    def gen(E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64 or k[0] == 'poff':
                continue

            def f(g, k=k):
                U = g.s.ghost['f.U']
                c = bv(g.cur(k), 64)
                return [U], lambda i: bv(U.sel(i), 8) == z3.If(z3.And(i.bv() >= r, i.bv() < r + c), z3.BitVecVal(1, 8), bv(d.fr.U.sel(i), 8))
            out.append(en.QCand('inserted so far', f, True))
            out.append(en.Cand('within the range', lambda g, k=k: z3.ULE(bv(g.cur(k), 64), n), True))

        def sz(g):
            pr, fs = g.s.ghost[d.fd.pr], g.s.ghost['fs']
            return [pr, fs], d.sized(g.s)
        out.append(en.QCand('columns large enough', sz, True))
        out.append(en.Cand('size', lambda g: z3.And(g.s.ghost['f.n'] >= d.fr.n, g.s.ghost['f.n'] <= 2 * BIG), True))

        def tail(g):
            U, m = g.s.ghost['f.U'], g.s.ghost['f.n']
            return [U], lambda i: z3.And(z3.ULE(bv(U.sel(i), 8), 1), z3.Implies(z3.Or(i.bv() < 0, i.bv() >= m), bv(U.sel(i), 8) == 0))
        out.append(en.QCand('used records are inside', tail, True))
        return out
    return gen


@task('C10', SRC)
def insert_vector(t):
    """Table::insert_vector: accepted only when the whole range is unused, refused without effect; exactly the range becomes used"""
    d = Tab(t)
    r, n = t.var('record'), t.var('size')
    d.s.assume(z3.And(n != 0, z3.ULT(n, BIG), r < BIG))
    new = d.fr.n + n
    t.E.loop_cands += [grown(d, new), inserted_so_far(d, r, n)]

    def insert(E, s, a, ins):
        i = bv(a[1], 64)
        E.prove(s, z3.And(i >= 0, i < 2 * BIG), 'pre', 'insert_record: identifier')
        U, m = s.ghost['f.U'], s.ghost['f.n']
        E.prove(s, bv(U.sel(lin(i)), 8) == 0, 'pre', 'insert_record: unused')
        # (allocation failure inside the loop of single insertions is not considered)
        s.ghost['f.U'] = Store(U, lin(i), 1)
        s.ghost['f.n'] = m2 = z3.If(i + 1 > m, i + 1, m)
        s.ghost['fs'] = fs = Base('column size', 64)
        f = d.sized(s, m2)
        s.assume_forall(fs, f)
    t.E.contracts.insert(0, (r'^joedb::Table::insert_record\(', insert, 'Table::insert_record'))
    for o in t.call(d.s, r'^joedb::Table::insert_vector\(', [d.p, r, n]):
        if not o.ret:
            d.refused(o.s)
            continue
        t.forall(o.s, lambda k: z3.Implies(z3.And(k.bv() >= r, k.bv() < r + n), bv(d.fr.U.sel(k), 8) == 0), 'accepted only if the whole range is unused')
        d.fr.exactly(o.s, lambda k: z3.And(k >= r, k < r + n), 1, 'exactly this range becomes used')
        d.schema_unchanged(o.s, 'insert')
        t.prove(o.s, o.s.ghost['writes'] == 0, 'no cell changes')
        d.kept(o.s, d.nm.inv0, 'inserted')


# ------------------------------------------------------------ C10: updates

def same_arg(s, x, y):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        return z3.BoolVal(isinstance(x, Ptr) and isinstance(y, Ptr) and x.same(y))
    if x is y:
        return z3.BoolVal(True)
    w = y.size() if z3.is_bv(y) else 64
    if z3.is_bool(x) or z3.is_bool(y) or w == 1:
        return truth(x) == truth(y)
    return bv(x, w) == bv(y, w)


def values(t, s, ty):
    """IR arguments of one value of this type"""
    w = {'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'reference': 64, 'boolean': 8, 'float32': 32, 'float64': 64}
    if ty == 'blob':
        return [t.var('blob position'), t.var('blob size')]
    if ty == 'string':
        return [t.var('string size'), Ptr(s.bytes_obj('characters', Lin(1 << 20)).id, 0)]
    if ty == 'boolean':
        return [z3.Bool(fresh_name('value'))]
    return [t.var('value', w[ty])]


@task('C10', SRC, budget=300)
def table_update(t):
    """Table::update_X: exactly when the record and the field exist and the type is right: one cell, with the value given"""
    for ty in TYPES:
        d = Tab(t)
        r, k = t.var('record'), t.var('field', 16)
        K = B16(k)
        v = values(t, d.s, ty)
        n0 = len(t.E.contracts)
        for o in t.call(d.s, r'^joedb::Table::update_' + ty + r'\(', [d.p, r, k] + v):
            used = bv(d.fr.U.sel(lin(r)), 8) == 1
            d.fr.unchanged(o.s, ty)
            d.schema_unchanged(o.s, ty)
            if not o.ret:
                t.prove(o.s, o.s.ghost['writes'] == 0, ty + ': refused without writing')
                continue
            t.prove(o.s, z3.And(used, d.fd.has(o.s, K)), ty + ': accepted only if the record and the field exist')
            t.prove(o.s, o.s.ghost['writes'] == 1, ty + ': one cell is written')
            if d.log:
                t.prove(o.s, z3.And(o.s.ghost['wkey'] == K, o.s.ghost['wrec'] == r), ty + ': the cell of this record in this field')
        t.prove(d.s, z3.BoolVal(len(d.log) == 1 and ('::set_' + ty + '(') in d.log[0][0]), ty + ': written with its own type')
        for x, y in zip(d.log[0][1][2:], v):
            t.prove(d.s, same_arg(d.s, x, y), ty + ': the value given')
        t.E.contracts.clear()


@task('C10', SRC, budget=300)
def table_update_accepts(t):
    """Table::update_X reaches the column whenever the record and the field exist"""
    for ty in TYPES:
        d = Tab(t)
        r, k = t.var('record'), t.var('field', 16)
        v = values(t, d.s, ty)
        d.s.assume(z3.And(bv(d.fr.U.sel(lin(r)), 8) == 1, d.fd.has(d.s, B16(k))))
        for o in t.call(d.s, r'^joedb::Table::update_' + ty + r'\(', [d.p, r, k] + v):
            if not o.ret:
                t.prove(o.s, z3.BoolVal('bad_variant' in str(o.v)), ty + ': refused only for a wrong type')
        t.E.contracts.clear()


@task('C10', SRC, budget=300)
def table_update_vector(t):
    """Table::update_vector_X: the cells of exactly the range in this field, inside the column"""
    for ty in TYPES:
        d = Tab(t)
        r, k, n = t.var('record'), t.var('field', 16), t.var('size')
        d.s.assume(z3.And(n != 0, z3.ULT(n, BIG)))
        K = B16(k)
        v = Ptr(d.s.bytes_obj('values', Lin(1 << 20)).id, 0)
        for o in t.call(d.s, r'^joedb::Table::update_vector_' + ty + r'\(', [d.p, r, k, n, v]):
            d.fr.unchanged(o.s, ty)
            d.schema_unchanged(o.s, ty)
            if not o.ret:
                t.prove(o.s, o.s.ghost['writes'] == 0, ty + ': refused without writing')
                continue
            U = d.fr.U
            t.prove(o.s, z3.And(d.fd.has(o.s, K), bv(U.sel(lin(r)), 8) == 1, bv(U.sel(lin(r + n - 1)), 8) == 1), ty + ': accepted only if the field, the first and the last record exist')
            t.prove(o.s, z3.And(o.s.ghost['writes'] == 1, o.s.ghost['wkey'] == K, o.s.ghost['wrec'] == r), ty + ': the range of this field')
        a = d.log[0][1]
        t.prove(d.s, z3.BoolVal(len(d.log) == 1 and ('::set_vector_' + ty + '(') in d.log[0][0]), ty + ': written with its own type')
        t.prove(d.s, z3.And(bv(a[2], 64) == n, same_arg(d.s, a[3], v)), ty + ': the size and values given')
        t.E.contracts.clear()


DB = 'joedb::Database'


def forwards(t, name, args, target, targs, pre=None, vec=False):
    """a Database operation is exactly one operation on the table named, or throws without any"""
    E = t.E
    E.contracts.clear()
    files.install(E)
    W = World(t)
    s = t.state()
    db = s.sym(DB, 'database')
    tab = s.sym(TB, 'table')
    tid = t.var('table', 16)
    s.ghost['calls'] = B(0)
    if pre is not None:
        s.assume(pre)

    def get(E, s, a, ins):
        E.prove(s, bv(a[1], 16) == tid, 'pre', name + ': the table given')
        return en.Outs([('ret', s.fork(), tab), ('exc', s, files.EXC)])

    def op(E, s, a, ins):
        E.prove(s, z3.BoolVal(same_ptr(a[0], tab)), 'pre', name + ': on the table given')
        E.prove(s, z3.BoolVal(len(a) - 1 == len(targs)), 'pre', name + ': arguments')
        for x, y in zip(a[1:], targs):
            E.prove(s, same_arg(s, x, y), 'pre', name + ': with the arguments given')
        e = s.fork()
        s.ghost['calls'] = s.ghost['calls'] + 1
        return en.Outs([('ret', s, None), ('exc', e, files.EXC)])
    E.contracts[:0] = [(r'^joedb::Database_Schema::get_table\(', get, 'Database_Schema::get_table'), (r'^joedb::Table::' + target + r'\(', op, 'Table::' + target),
                       (r'^joedb::Table::(?!' + target + r'\()', lambda E, s, a, ins: E.prove(s, False, 'pre', name + ': no other operation on a table'), 'Table')]
    for o in t.call(s, r'^' + DB + '::' + name + r'\(', [db, tid] + args):
        t.prove(o.s, o.s.ghost['calls'] == (1 if o.ret else 0), name + ': exactly one operation, or refused without any')
        yield o, s, db


def same_ptr(x, y):
    return isinstance(x, Ptr) and isinstance(y, Ptr) and x.same(y)


@task('C10', SRC, budget=300)
def database_forward(t):
    """Database: every record operation is exactly one operation on the table named, with the same arguments, within the configured maximum identifier"""
    r, n, k = t.var('record'), t.var('size'), t.var('field', 16)
    for o, s, db in forwards(t, 'insert_into', [r], 'insert_record', [r]):
        mx = bv(s.get(db, DB, 'max_record_id'), 64)
        if o.ret:
            t.prove(o.s, z3.And(r >= 0, z3.Or(mx < 0, r <= mx)), 'insert_into: within the maximum')
    for o, s, db in forwards(t, 'insert_vector', [r, n], 'insert_vector', [r, n]):
        mx = bv(s.get(db, DB, 'max_record_id'), 64)
        if o.ret:
            t.prove(o.s, z3.Or(mx < 0, z3.And(r < mx, z3.ULT(n, mx))), 'insert_vector: within the maximum')
    for o in forwards(t, 'delete_from', [r], 'delete_record', [r]):
        pass
    for o in forwards(t, 'delete_vector', [r, n], 'delete_vector', [r, n]):
        pass
    for ty in TYPES:
        s0 = t.state()
        v = values(t, s0, ty)
        if ty == 'string':
            v[1] = Ptr(None, 4096)
        for o in forwards(t, 'update_' + ty, [r, k] + v, 'update_' + ty, [r, k] + v):
            pass
        p = Ptr(None, 8192)
        for o in forwards(t, 'update_vector_' + ty, [r, k, n, p], 'update_vector_' + ty, [r, k, n, p]):
            pass


# ------------------------------------------------------------ C10: columns

WIDTH = {'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'reference': 64, 'boolean': 8, 'float32': 32, 'float64': 64}
COLUMN = 8       # offset of the column in Field (checked below)


class Column:
    """a Field holding a vector of n cells of one type"""

    def __init__(self, t, ty):
        self.t = t
        s = self.s = t.state()
        off, size, _ = t.M.field(FD, 'column')
        o = s.new_obj('field', t.M.types[FD]['size'])
        self.p = Ptr(o.id, 0)
        self.n = t.var('cells')
        s.assume(z3.ULT(self.n, 1 << 50))
        w = WIDTH[ty]
        d = s.new_obj('cells', lin(self.n).scale(w // 8))
        g = en.Seg(0, lin(self.n).scale(w // 8), w // 8)
        self.a0 = g.fields[(0, w // 8)] = Base('cell', w)
        d.segs.append(g)
        self.d, self.w = d.id, w
        self.index = t.var('held type', 8)
        c = Ptr(o.id, off)
        s.store(c, 8, Ptr(d.id, 0))
        end = Ptr(d.id, lin(self.n).scale(w // 8))
        s.store(c.add(Lin(8)), 8, end)
        s.store(c.add(Lin(16)), 8, end)
        s.store(c.add(Lin(size - 8)), 1, self.index)

    def cells(self, s):
        return s.obj(self.d).segs[0].fields[(0, self.w // 8)]


@task('C10', SRC, budget=300)
def field_set(t):
    """Field::set_X: with the type held, changes exactly the cell of the record; with another one, throws and changes nothing"""
    for ty in WIDTH:
        c = Column(t, ty)
        r = t.var('record')
        c.s.assume(z3.And(r >= 0, r < c.n))
        v = values(t, c.s, ty)[0]
        held = []
        for o in t.call(c.s.fork(), r'^joedb::Field::set_' + ty + r'\(', [c.p, r, v]):
            a = c.cells(o.s)
            if not o.ret:
                t.forall(o.s, lambda i: bv(a.sel(i), c.w) == bv(c.a0.sel(i), c.w), ty + ': refused without writing')
                continue
            x = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(v) else v
            t.forall(o.s, lambda i: bv(a.sel(i), c.w) == z3.If(i.bv() == r, x, bv(c.a0.sel(i), c.w)), ty + ': exactly this cell')
        # storage
        for o in t.call(c.s.fork(), r'^joedb::Field::get_own_' + ty + r'_storage\(', [c.p, r]):
            if o.ret:
                t.prove(o.s, z3.And(z3.BoolVal(o.v.obj == c.d), bv(o.v.off.val(), 64) == r * (c.w // 8)), ty + ': storage of the record')


@task('C10', SRC, budget=300)
def field_set_vector(t):
    """Field::set_vector_X: changes exactly the cells of the range, to the values given; with another type held, throws and changes nothing"""
    for ty in WIDTH:
        c = Column(t, ty)
        r, n = t.var('record'), t.var('size')
        c.s.assume(z3.And(r >= 0, n > 0, z3.ULT(r, 1 << 50), z3.ULT(n, 1 << 50), r + n <= c.n))
        d = c.s.new_obj('values', lin(n).scale(c.w // 8))
        g = en.Seg(0, lin(n).scale(c.w // 8), c.w // 8)
        v = g.fields[(0, c.w // 8)] = Base('value', c.w)
        d.segs.append(g)
        for o in t.call(c.s.fork(), r'^joedb::Field::set_vector_' + ty + r'\(', [c.p, r, n, Ptr(d.id, 0)]):
            a = c.cells(o.s)
            if not o.ret:
                t.forall(o.s, lambda i: bv(a.sel(i), c.w) == bv(c.a0.sel(i), c.w), ty + ': refused without writing')
                continue
            t.forall(o.s, lambda i: z3.Implies(z3.ULT(i.bv(), c.n), bv(a.sel(i), c.w) == z3.If(z3.And(i.bv() >= r, i.bv() < r + n), bv(v.sel(i.sub(lin(r))), c.w), bv(c.a0.sel(i), c.w))), ty + ': exactly these cells, the values given')


@task('C10', SRC, budget=300)
def field_resize(t):
    """Field (types stored as scalars): constructed with this number of cells; resize gives exactly this number of cells, keeping the values of those that remain"""
    off, size, _ = t.M.field(FD, 'column')
    for k in range(2, 10):      # Type_Id of everything but null, string (1) and blob (10)
        s = t.state()
        p = Ptr(s.new_obj('field', t.M.types[FD]['size']).id, 0)
        ty = s.new_obj('type', t.M.types['joedb::Type']['size'])
        for f, v in (('type_id', k), ('table_id', t.var('table', 16))):
            to, ts, _ = t.M.field('joedb::Type', f)
            s.store(Ptr(ty.id, to), ts, v)
        n, m = t.var('cells'), t.var('new size')
        s.assume(z3.And(z3.ULT(n, 1 << 50), z3.ULT(m, 1 << 50)))

        def vec(s, count):
            b, e = s.load(p.add(Lin(off)), 8, 'ptr'), s.load(p.add(Lin(off + 8)), 8, 'ptr')
            st = s.obj(b.obj).segs[0].stride
            t.prove(s, z3.And(z3.BoolVal(b.obj == e.obj), bv(e.off.sub(b.off).val(), 64) == count * st), 'type %d: number of cells' % k)
            return s.obj(b.obj).segs[0].fields[(0, st)], st * 8
        for o in t.call(s, r'^joedb::Field::Field\(joedb::Type const&, unsigned long\)$', [p, Ptr(ty.id, 0), n]):
            if not o.ret:
                continue
            a, w = vec(o.s, n)
            a = Base('cell', w)          # any values written since
            o.s.wobj(o.s.load(p.add(Lin(off)), 8, 'ptr').obj).segs[0].fields[(0, w // 8)] = a
            for q in t.call(o.s, r'^joedb::Field::resize\(', [p, m]):
                if not q.ret:
                    continue
                b, w = vec(q.s, m)
                t.forall(q.s, lambda i: z3.Implies(z3.And(z3.ULT(i.bv(), m), z3.ULT(i.bv(), n)), bv(b.sel(i), w) == bv(a.sel(i), w)), 'type %d: values kept' % k)
