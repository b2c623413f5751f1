"""Abstract std::map<16-bit id, V>: a set of present keys, elements addressed by
key. An iterator to key k is the address S*k of a virtual element array; end is
S*65536. Assumed contract of the standard library's ordered map; strings are
abstract tokens (equal strings <=> equal tokens)."""
import re
import z3
import engine as en
import files
from terms import *

END = 65536
EMPTY = z3.BitVecVal(0, 64)      # token of the empty string
MAP = r'std::map<.*>::(find|lower_bound|upper_bound|count|contains|begin|end|cbegin|cend|size|empty|erase|try_emplace|emplace|insert_or_assign|operator\[\]|at)(?=[<(\[])'
IT = r'^std::_Rb_tree_(const_)?iterator<'


class Ident(Arr):
    """element i of the key column is i"""
    w = 16

    def _sel(self, i):
        c = i.const()
        return c & 0xffff if c is not None else z3.Extract(15, 0, i.bv())


class Map:
    def __init__(self, W, s, name, addr, S, empty=False, text=False):
        self.W, self.name, self.addr, self.S, self.text = W, name, addr, S, text
        o = s.new_obj('elements of ' + name, S * (END + 1))
        g = en.Seg(0, Lin(S * (END + 1)), S)
        g.fields[(0, 2)] = Ident()
        o.segs.append(g)
        self.obj = o.id
        s.ghost[self.pr] = Base(name + '.present', 8)
        if text:
            s.ghost[self.tk] = Base(name + '.text', 64)
        self.on_insert = None

    pr = property(lambda self: 'm.%s.present' % self.name)
    tk = property(lambda self: 'm.%s.text' % self.name)

    def has(self, s, k):
        """is key k (Lin or bv) present"""
        return bv(s.ghost[self.pr].sel(lin(k)), 8) != 0

    def at(self, s, k):
        return bv(s.ghost[self.tk].sel(lin(k)), 64)

    def elem(self, k, off=0):
        return Ptr(self.obj, lin(k).scale(self.S).add(Lin(off)))

    def put(self, s, k, tok=None):
        k = lin(k)
        s.ghost[self.pr] = Store(s.ghost[self.pr], k, 1)
        if self.text:
            s.ghost[self.tk] = Store(s.ghost[self.tk], k, tok)

    def drop(self, s, k):
        s.ghost[self.pr] = Store(s.ghost[self.pr], lin(k), 0)


def key_of(off, S):
    if not off.divides(S):
        raise en.Unsupported('address inside a map element')
    return off.div(S)


class World:
    """the maps and strings of one verification task"""

    def __init__(self, t):
        self.t = t
        self.maps = {}       # (obj, offset) of the map -> Map
        self.byobj = {}      # element object -> Map
        self.text = {}       # (obj, offset) of a string -> token
        E = t.E
        E.contracts += [
            (MAP, self.method, 'std::map (abstract map)'),
            (r'^(bool )?std::operator(==|!=)\(std::_Rb_tree_|' + IT + r'.*>::operator(==|!=)\(', self.compare, 'std::map iterator'),
            (IT + r'.*>::operator(\*|->)\(', self.deref, 'std::map iterator'),
            (IT + r'.*>::operator\+\+\(', self.next, 'std::map iterator'),
            (IT + r'.*>::_Rb_tree_(const_)?iterator\(', self.convert, 'std::map iterator'),
            (r'(bool )?std::operator(==|!=)<char', self.str_eq, 'std::string equality (tokens)'),
            (r'^std::__cxx11::basic_string<char.*>::operator=\(', self.str_set, 'std::string assignment (tokens)'),
            (r'^joedb::get_error_message|std::operator\+<char|^std::__cxx11::to_string\(|^std::__cxx11::basic_string<char.*>::(~?basic_string|append|operator\+=)', lambda E, s, a, ins: a[0] if 'ty' in ins else None, 'std::string (contents abstract)'),
        ]

    def add(self, s, name, addr, S, **k):
        m = Map(self, s, name, addr, S, **k)
        self.maps[(addr.obj, addr.off.key())] = m
        self.byobj[m.obj] = m
        return m

    def string(self, s, name):
        o = s.new_obj(name, 32)
        p = Ptr(o.id, 0)
        self.text[(p.obj, p.off.key())] = v = self.t.var(name)
        return p, v

    def token(self, s, p):
        m = self.byobj.get(p.obj)
        if m is not None and m.text:
            return m.at(s, key_of(p.off.sub(Lin(8)), m.S))
        k = (p.obj, p.off.key())
        if k not in self.text:
            raise en.Unsupported('string without a token')
        return self.text[k]

    # ---- the map
    def map(self, p):
        m = self.maps.get((p.obj, p.off.key())) if isinstance(p, Ptr) else None
        if m is None:
            raise en.Unsupported('map not declared in the contract')
        return m

    def key(self, E, s, p):
        return lin(z3.ZeroExt(48, bv(E.load(s, p, 2, 'i16'), 16)))

    def method(self, E, s, a, ins):
        name = ins['callee'][1]
        dem = E.M.functions[name]['dem'] if name in E.M.functions else name
        op = re.search(MAP, dem).group(1)
        m = self.map(a[0])
        if op in ('end', 'cend'):
            return m.elem(END)
        if op in ('begin', 'cbegin'):
            return m.elem(self.first(s, m, Lin(0)))
        if op == 'find':
            k = self.key(E, s, a[1])
            no = s.fork()
            s.assume(m.has(s, k))
            no.assume(z3.Not(m.has(no, k)))
            return en.Outs([('ret', x, v) for x, v in ((s, m.elem(k)), (no, m.elem(END))) if E.feasible(x, z3.BoolVal(True))])
        if op in ('count', 'contains'):
            k = self.key(E, s, a[1])
            w = 1 if op == 'contains' else 64
            return m.has(s, k) if w == 1 else z3.If(m.has(s, k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        if op == 'erase':
            if len(a) == 2 and 'ty' in ins and ins['ty'] == 'ptr':       # iterator
                k = key_of(a[1].off, m.S)
                E.prove(s, z3.And(z3.ULT(k.bv(), END), m.has(s, k)), 'pre', 'the erased iterator denotes an element')
                m.drop(s, k)
                return m.elem(self.first(s, m, k))
            if len(a) == 2:
                k = self.key(E, s, a[1])
                r = z3.If(m.has(s, k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
                m.drop(s, k)
                return r
        if op in ('try_emplace', 'emplace', 'insert_or_assign'):
            k = self.key(E, s, a[1])
            new = z3.Not(m.has(s, k))
            if m.text:
                tok = self.token(s, a[2])
                m.put(s, k, tok if op == 'insert_or_assign' else z3.If(new, tok, m.at(s, k)))
            else:
                if m.on_insert:
                    m.on_insert(E, s, k, a[2:])
                m.put(s, k)
            return [m.elem(k), z3.If(new, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))]
        if op == 'operator[]' and m.text:
            k = self.key(E, s, a[1])
            m.put(s, k, z3.If(m.has(s, k), m.at(s, k), EMPTY))
            return m.elem(k, 8)
        if op == 'at':
            k = self.key(E, s, a[1])
            no = s.fork()
            s.assume(m.has(s, k))
            no.assume(z3.Not(m.has(no, k)))
            return en.Outs([('ret', s, m.elem(k, 8)), ('exc', no, '_ZTISt12out_of_range')])
        raise en.Unsupported('std::map::' + op)

    def first(self, s, m, lo):
        """smallest present key at or after lo, or END"""
        k = fresh('key', 64)
        s.assume(z3.And(z3.ULE(lo.bv(), k), z3.ULE(k, END)))
        pr = s.ghost[m.pr]
        s.assume(z3.Or(k == END, bv(pr.sel(lin(k)), 8) != 0))
        b = pr
        while not isinstance(b, Base):
            b = b.a
        s.assume_forall(b, lambda i: z3.Implies(z3.And(z3.ULE(lo.bv(), i.bv()), z3.ULT(i.bv(), k)), bv(pr.sel(i), 8) == 0))
        return lin(k)

    # ---- iterators
    def it(self, E, s, p):
        v = E.load(s, p, 8, 'ptr')
        m = self.byobj.get(v.obj) if isinstance(v, Ptr) else None
        if m is None:
            raise en.Unsupported('iterator of an undeclared map')
        return m, v

    def deref(self, E, s, a, ins):
        m, v = self.it(E, s, a[0])
        k = key_of(v.off, m.S)
        E.prove(s, z3.ULT(k.bv(), END), 'pre', 'a past-the-end iterator is not dereferenced')
        return v

    def next(self, E, s, a, ins):
        m, v = self.it(E, s, a[0])
        k = key_of(v.off, m.S)
        E.prove(s, z3.ULT(k.bv(), END), 'pre', 'a past-the-end iterator is not incremented')
        n = m.elem(self.first(s, m, k.add(Lin(1))))
        E.store(s, a[0], 8, n)
        return a[0] if len(a) == 1 else v

    def compare(self, E, s, a, ins):
        name = ins['callee'][1]
        dem = E.M.functions[name]['dem'] if name in E.M.functions else name
        (m, x), (m2, y) = self.it(E, s, a[0]), self.it(E, s, a[1])
        if m is not m2:
            raise en.Unsupported('iterators of different maps compared')
        r = key_of(x.off, m.S).bv() == key_of(y.off, m.S).bv()
        return z3.Not(r) if 'operator!=' in dem else r

    def convert(self, E, s, a, ins):
        if len(a) != 2:
            return NotImplemented
        v = E.load(s, a[1], 8, 'ptr')
        E.store(s, a[0], 8, v)

    # ---- strings
    def str_eq(self, E, s, a, ins):
        name = ins['callee'][1]
        dem = E.M.functions[name]['dem'] if name in E.M.functions else name
        r = self.token(s, a[0]) == self.token(s, a[1])
        return z3.Not(r) if 'operator!=' in dem else r

    def str_set(self, E, s, a, ins):
        m = self.byobj.get(a[0].obj)
        if m is None:
            raise en.Unsupported('assignment to a string outside the maps')
        k = key_of(a[0].off.sub(Lin(8)), m.S)
        s.ghost[m.tk] = Store(s.ghost[m.tk], k, self.token(s, a[1]))
        return a[0]
