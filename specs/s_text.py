"""C17: values as text. The syntax of string literals is given once, as a
decoding automaton; write_string is proved to emit a text that the automaton
decodes into the string, read_string is proved to return what the automaton
decodes and to consume nothing after the closing quote."""
import z3
import engine as en
import files
import builtins_model as bm
from terms import *
from task import task

SRC = ['joedb/ui/type_io.cpp']
B8 = lambda v: z3.BitVecVal(v, 8)
B64 = lambda v: z3.BitVecVal(v, 64)
START, IN, ESC, HEX1, HEX0, OCT1, OCT0, CLOSED, OTHER = map(B8, range(9))
NOTHING = z3.BitVecVal(0, 1)
IS = r'std::(basic_)?istream(<char, std::char_traits<char>\s*>)?::'
OS = r'std::(basic_)?ostream(<char, std::char_traits<char>\s*>)?::'
IOS = r'std::basic_ios<char, std::char_traits<char>\s*>::'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::'


def hexdigit(b):
    return z3.If(z3.And(z3.UGE(b, ord('0')), z3.ULE(b, ord('9'))), b - ord('0'),
                 z3.If(z3.And(z3.UGE(b, ord('a')), z3.ULE(b, ord('f'))), b - (ord('a') - 10), B8(0)))


def delta(st, acc, b):
    """one byte of text: (next state, accumulator, is a character decoded, the character)"""
    is_ = lambda *v: z3.Or([st == x for x in v])
    oct_ = b - ord('0')
    digit = z3.And(z3.UGE(b, ord('0')), z3.ULE(b, ord('9')))
    nst = z3.If(st == START, z3.If(b == ord(' '), START, z3.If(b == ord('"'), IN, OTHER)),
          z3.If(st == IN, z3.If(b == ord('"'), CLOSED, z3.If(b == ord('\\'), ESC, IN)),
          z3.If(st == ESC, z3.If(b == ord('x'), HEX1, z3.If(digit, OCT1, IN)),
          z3.If(st == HEX1, HEX0, z3.If(st == OCT1, OCT0, z3.If(is_(HEX0, OCT0), IN, OTHER))))))
    nacc = z3.If(st == ESC, oct_, z3.If(st == HEX1, hexdigit(b), (acc << 3) | oct_))
    emit = z3.Or(z3.And(st == IN, b != ord('"'), b != ord('\\')), z3.And(st == ESC, b != ord('x'), z3.Not(digit)), is_(HEX0, OCT0))
    ch = z3.If(st == HEX0, (acc << 4) | hexdigit(b), z3.If(st == OCT0, (acc << 3) | oct_, b))
    return nst, nacc, emit, ch


def stream(t, s):
    """a stream object: its virtual base is at a constant offset"""
    o = s.new_obj('stream', 512)
    vt = s.new_obj('vtable', 64)
    t.E.store(s, Ptr(vt.id, 0), 8, B64(256))
    t.E.store(s, Ptr(o.id, 0), 8, Ptr(vt.id, 24))
    return Ptr(o.id, 0)


@task('C17', SRC)
def write_string(t):
    """write_string emits printable bytes that decode into exactly the characters of the string, the last byte being the closing quote"""
    E = t.E
    s = t.state()
    n = t.var('size')
    s.assume(z3.And(n >= 0, n < 1 << 60))
    o = s.bytes_obj('string', lin(n))
    x = o.segs[0].fields[(0, 1)]
    out = stream(t, s)
    s.ghost['st'], s.ghost['acc'], s.ghost['cnt'] = START, B8(0), B64(0)

    def put(E, s, a, ins):
        if a[0].obj != out.obj:
            raise en.Unsupported('another stream')
        b = bv(a[1], 8)
        st, acc, cnt = s.ghost['st'], s.ghost['acc'], s.ghost['cnt']
        nst, nacc, emit, ch = delta(st, acc, b)
        E.prove(s, z3.And(z3.UGE(b, 0x20), b != 0x7f), 'pre', 'no control character is written')
        E.prove(s, z3.And(nst != OTHER, st != CLOSED), 'pre', 'the text stays inside the literal')
        E.prove(s, z3.Implies(emit, z3.And(cnt < n, ch == bv(x.sel(lin(cnt)), 8))), 'pre', 'the decoded character is the next one of the string')
        s.ghost['st'], s.ghost['acc'], s.ghost['cnt'] = nst, nacc, z3.simplify(z3.If(emit, cnt + 1, cnt))
        return a[0]
    E.contracts[:0] = [(r'^' + OS + r'put\(char\)', put, 'std::ostream::put: appends the byte to the stream')]

    def cands(E, lp):
        return [en.Cand('within the string', lambda g: z3.ULE(g.s.ghost['cnt'], n), True)] + [en.Cand('characters written', lambda g, k=k: z3.And(bv(g.cur(k), 64) == g.s.ghost['cnt'], g.s.ghost['st'] == IN), True) for k, w in lp.scal if w == 64]
    E.loop_cands.append(cands)
    for o in t.call(s, r'^joedb::write_string\(', [out, n, Ptr(o.id, 0), False]):
        t.prove(o.s, z3.BoolVal(o.ret), 'no exception')
        if o.ret:
            t.prove(o.s, z3.And(o.s.ghost['st'] == CLOSED, o.s.ghost['cnt'] == n), 'the literal is closed after the last character')


@task('C17', SRC)
def read_string(t):
    """read_string of a stream holding a literal returns the characters it decodes into and consumes nothing after the closing quote"""
    E = t.E
    s = t.state()
    text = Base('text', 8)
    inp = stream(t, s)
    res = Ptr(s.new_obj('result', 32).id, 0)
    g0 = dict(st=START, acc=B8(0), cnt=B64(0), pos=B64(0), last=t.var('garbage', 8), n=B64(0))
    s.ghost.update(g0)

    def settle(E, s):
        """the byte read last is now decoded"""
        g = s.ghost
        b = bv(text.sel(lin(simp(g['pos'] - 1))), 8)
        nst, nacc, emit, ch = delta(g['st'], g['acc'], b)
        first = g['pos'] == 0
        # the stream starts with spaces and a complete literal
        s.assume(z3.Or(first, nst != OTHER))
        E.prove(s, z3.Implies(z3.And(z3.Not(first), emit), z3.And(g['n'] == g['cnt'] + 1, g['last'] == ch)), 'pre', 'the decoded character is appended to the result')
        E.prove(s, z3.Implies(z3.Or(first, z3.Not(emit)), g['n'] == g['cnt']), 'pre', 'nothing else is appended to the result')
        g['st'], g['acc'], g['cnt'] = z3.simplify(z3.If(first, g['st'], nst)), z3.simplify(z3.If(first, g['acc'], nacc)), z3.simplify(z3.If(z3.And(z3.Not(first), emit), g['cnt'] + 1, g['cnt']))

    def get(E, s, a, ins):
        settle(E, s)
        g = s.ghost
        E.prove(s, g['st'] != CLOSED, 'pre', 'nothing is read after the closing quote')
        b = text.sel(lin(g['pos']))
        g['pos'] = z3.simplify(g['pos'] + 1)
        s.assume(z3.And(g['pos'] > 0, g['pos'] < 1 << 60))
        E.store(s, a[1], 1, b)
        return a[0]

    def push(E, s, a, ins):
        if a[0].obj != res.obj:
            return NotImplemented
        s.ghost['last'], s.ghost['n'] = bv(a[1], 8), z3.simplify(s.ghost['n'] + 1)
        return a[0]
    E.contracts[:0] = [(r'^' + IS + r'get\(char&\)', get, 'std::istream::get: the next byte of the stream'),
                       (r'^' + IOS + r'operator!\(\) const', lambda E, s, a, ins: False, 'std::ios::operator!: false while the literal is not closed'),
                       (r'^' + IOS + r'operator bool\(\) const', lambda E, s, a, ins: True, 'std::ios::operator bool: true while the literal is not closed'),
                       (r'^' + STR + r'(push_back|operator\+=)\(char\)', push, 'std::string::push_back: appends the character')]

    def cands(E, lp):
        g = lambda h, k: h.s.ghost[k]
        prev = lambda h: bv(text.sel(lin(simp(g(h, 'pos') - 1))), 8)
        out = [en.Cand('before the literal', lambda h: z3.And(g(h, 'st') == START, g(h, 'n') == 0, g(h, 'cnt') == 0, g(h, 'pos') >= 0, z3.Or(g(h, 'pos') == 0, prev(h) == ord(' '))), True),
               en.Cand('in the literal', lambda h: z3.And(g(h, 'st') == IN, g(h, 'n') == g(h, 'cnt'), g(h, 'pos') > 0), True)]
        for k, w in lp.scal:
            if w == 8:
                out.append(en.Cand('current character', lambda h, k=k: z3.And(g(h, 'pos') > 0, bv(h.cur(k), 8) == prev(h)), True))
        return out
    E.loop_cands.append(cands)
    for o in t.call(s, r"^joedb::read_string(\[abi:cxx11\])?\(", [res, inp]):
        t.prove(o.s, z3.BoolVal(o.ret), 'no exception')
        if o.ret:
            settle(E, o.s)
            t.prove(o.s, z3.And(o.s.ghost['st'] == CLOSED, o.s.ghost['n'] == o.s.ghost['cnt']), 'the last byte read is the closing quote')


# --- values and commands made of numbers, words and literals. The text is a
# sequence of items; that operator>> reads back the number or the word that
# operator<< wrote, when it is followed by a character that can not belong to it
# or by the end of the text, is assumed of the library.
IO = ['joedb/ui/type_io.cpp', 'joedb/ui/Interpreter_Dump_Writable.cpp', 'joedb/ui/Data_Manipulation_Command_Processor.cpp',
      'joedb/ui/Readable_Command_Processor.cpp', 'joedb/ui/Readable_Writable_Command_Processor.cpp', 'joedb/ui/Writable_Command_Processor.cpp', 'joedb/Readable.cpp']
NUM = {'int': 32, 'long': 64, 'short': 16, 'unsigned long': 64}
OSTD = r'^std::(basic_)?ostream.*& std::operator<<\s?<.*>\(std::(basic_)?ostream.*&, '


def tagged(t, s, tag):
    """a string known by its tag only"""
    o = s.new_obj('string ' + str(tag), 32)
    d = bm.fresh_string(t.E, s, Ptr(o.id, 0), 'name')
    d.meta = {'tag': tag}
    return Ptr(o.id, 0)


def tag_of(E, s, p):
    d = E.load(s, p, 8, 'ptr')
    return (s.obj(d.obj).meta or {}).get('tag')


def out_stream(t, s):
    out = stream(t, s)
    s.ghost['text'] = ()

    def add(E, s, a, *items):
        if a[0].obj != out.obj:
            raise en.Unsupported('another stream')
        s.ghost['text'] += items
        return a[0]

    def num(ty):
        return lambda E, s, a, ins: add(E, s, a, ('num', z3.SignExt(64 - NUM[ty], bv(a[1], NUM[ty])) if NUM[ty] < 64 else bv(a[1], 64)))

    def char(E, s, a, ins):
        if not isinstance(a[1], int):
            raise en.Unsupported('unknown character')
        return add(E, s, a, ('char', a[1]))

    def word(E, s, a, ins):
        c = E.cstring(s, a[1])
        if c is None:
            raise en.Unsupported('C string of unknown contents')
        return add(E, s, a, *[('char', x) for x in bytes(c)])

    def string(E, s, a, ins):
        k = tag_of(E, s, a[1])
        if k is None:
            raise en.Unsupported('unknown string')
        return add(E, s, a, ('name', k))

    def literal(E, s, a, ins):
        # stream, {size, data}, json
        k = (s.obj(a[2].obj).meta or {}).get('tag') if isinstance(a[2], Ptr) else None
        if k is None or a[3] is not False and a[3] != 0:
            raise en.Unsupported('unknown string')
        return add(E, s, a, ('literal', k)) and None
    t.E.contracts[:0] = [(r'^' + OS + r'operator<<\(%s\)' % ty, num(ty), 'std::ostream::operator<<: appends the number') for ty in NUM] + [
        (OSTD + r'char\)', char, 'std::ostream << char: appends the character'),
        (OSTD + r'char const\*\)', word, 'std::ostream << const char *: appends the characters'),
        (OSTD + r'std::__cxx11::basic_string<.*const&\)', string, 'std::ostream << std::string: appends the characters'),
        (r'^' + OS + r'put\(char\)', char, 'std::ostream::put: appends the byte to the stream'),
        (r'^std::__cxx11::basic_string<.*::operator std::basic_string_view<', view, 'std::string::operator std::string_view'),
        (r'^joedb::write_string\(', literal, 'joedb::write_string (proved in write_string)')]
    return out


def view(E, s, a, ins):
    if tag_of(E, s, a[0]) is None:
        return NotImplemented
    return (E.load(s, a[0].add(Lin(8)), 8, 'i64'), E.load(s, a[0], 8, 'ptr'))


SPACES = b' \n\t\r\v\f'


def in_stream(t, s, items):
    inp = stream(t, s)
    s.ghost['at'], s.ghost['failed'], s.ghost['eof'] = 0, False, False

    def skip(E, s, a, spaces=SPACES):
        if a[0].obj != inp.obj:
            raise en.Unsupported('another stream')
        k = s.ghost['at']
        while k < len(items) and items[k][0] == 'char' and items[k][1] in spaces:
            k += 1
        s.ghost['at'] = k
        return k

    def wrong(E, s, what):
        E.prove(s, z3.BoolVal(False), 'pre', '%s is read where one was written' % what)
        raise en.PathEnd()

    def advance(s, k):
        s.ghost['at'] = k
        s.ghost['eof'] = k >= len(items)

    def num(ty):
        def f(E, s, a, ins):
            k = skip(E, s, a)
            if k >= len(items) or items[k][0] != 'num' or k + 1 < len(items) and (items[k + 1][0] != 'char' or items[k + 1][1] in b'0123456789'):
                wrong(E, s, 'a number')
            v, w = items[k][1], NUM[ty]
            if w < 64:
                E.prove(s, v == z3.SignExt(64 - w, z3.Extract(w - 1, 0, v)), 'pre', 'the number written fits the type read')
            E.store(s, a[1], w // 8, z3.Extract(w - 1, 0, v))
            advance(s, k + 1)
            return a[0]
        return f

    def ignore(E, s, a, ins):
        k = s.ghost['at']
        E.prove(s, z3.BoolVal(k < len(items) and items[k][0] == 'char'), 'pre', 'the character skipped is the separator')
        E.prove(s, bv(a[1], 64) == 1, 'pre', 'one character is skipped')
        advance(s, k + 1)
        return a[0]

    def word(E, s, a, ins):
        k = skip(E, s, a)
        e = k
        while e < len(items) and not (items[e][0] == 'char' and items[e][1] in SPACES):
            e += 1
        if e == k and k < len(items):
            wrong(E, s, 'a word')
        if e == k:    # the end of the text: the word is empty and the stream has failed
            bm.str_set(E, s, a[1], Fill(0), Lin(0))
            s.ghost['failed'] = s.ghost['eof'] = True
            return a[0]
        if e == k + 1 and items[k][0] == 'name':
            bm.fresh_string(E, s, a[1], 'name').meta = {'tag': items[k][1]}
        elif all(x[0] == 'char' for x in items[k:e]):
            bm.str_set(E, s, a[1], ConstArr(bytes(x[1] for x in items[k:e])), Lin(e - k))
        else:
            wrong(E, s, 'a word')
        advance(s, e)
        return a[0]

    def literal(E, s, a, ins):
        k = skip(E, s, [a[1]], b' ')
        if k >= len(items) or items[k][0] != 'literal':
            wrong(E, s, 'a string')
        bm.fresh_string(E, s, a[0], 'string').meta = {'tag': items[k][1]}
        s.ghost['at'] = k + 1
        return None

    def fail(E, s, a, ins):
        s.ghost['failed'] = True
        return None
    t.E.contracts[:0] = [(r'^' + IS + r'operator>>\(%s&\)' % ty, num(ty), 'std::istream::operator>>: the number written') for ty in NUM] + [
        (r'^' + IS + r'ignore\(long, int\)', ignore, 'std::istream::ignore: skips one character'),
        (r'^std::(basic_)?istream.*& std::operator>>\s?<.*>\(.*basic_string', word, 'std::istream >> std::string: the word written'),
        (r'^joedb::read_string(\[abi:cxx11\])?\(', literal, 'joedb::read_string (proved in read_string)'),
        (r'^' + IOS + r'good\(\) const', lambda E, s, a, ins: not (s.ghost['failed'] or s.ghost['eof']), 'std::ios::good: no error, end not reached'),
        (r'^' + IOS + r'fail\(\) const', lambda E, s, a, ins: s.ghost['failed'], 'std::ios::fail'),
        (r'^' + IOS + r'setstate\(', fail, 'std::ios::setstate: reports an error')]
    return inp


def both(t, wr, args, rd, result):
    """the text written for a value, then read back"""
    s = t.state()
    n = 0
    out = out_stream(t, s)
    for o in t.call(s, wr, [out] + args):
        t.prove(o.s, z3.BoolVal(o.ret), 'written without exception')
        if not o.ret:
            continue
        n += 1
        text = o.s.ghost['text']
        inp = in_stream(t, o.s, text)
        for p in t.call(o.s, rd, [inp]):
            t.prove(p.s, z3.BoolVal(p.ret and not p.s.ghost['failed']), 'read without error')
            if p.ret:
                t.prove(p.s, z3.BoolVal(p.s.ghost['at'] == len(text)), 'the whole text is consumed')
                t.prove(p.s, result(p.v), 'the value written is read back')
    t.prove(s, z3.BoolVal(n > 0), 'something is written')


def value(ty, w):
    def f(t):
        v = t.var('value', w)
        both(t, r'^joedb::write_%s\(std' % ty, [v], r'^joedb::read_%s\(' % ty, lambda r: bv(r, w) == v)
    f.__name__ = 'value_' + ty
    f.__module__ = __name__
    f.__doc__ = 'every %s is read back as written' % ty
    return task('C17', IO)(f)


for _t, _w in (('int8', 8), ('int16', 16), ('int32', 32), ('int64', 64), ('reference', 64)):
    value(_t, _w)


@task('C17', IO)
def value_boolean(t):
    """both booleans are read back as written"""
    for x in (False, True):
        both(t, r'^joedb::write_boolean\(', [x], r'^joedb::read_boolean\(', lambda r: z3.BoolVal(r is x) if isinstance(r, bool) else r == z3.BoolVal(x))


@task('C17', IO)
def value_blob(t):
    """every blob (position, size) is read back as written"""
    p, n = t.var('position'), t.var('size')
    both(t, r'^joedb::write_blob\(', [p, n], r'^joedb::read_blob\(', lambda r: z3.And(bv(r[0], 64) == p, bv(r[1], 64) == n))


# --- commands: every operation written by the dump is one line, which the
# interpreter turns into the same operation
IW = 'joedb::Interpreter_Writable'
WR = 'joedb::Writable'
TYPES = ['string', 'int32', 'int64', 'reference', 'boolean', 'float32', 'float64', 'int8', 'int16', 'blob']
DM, RW, WC = ('joedb::%s_Command_Processor' % x for x in ('Data_Manipulation', 'Readable_Writable', 'Writable'))


WIDTH = {'int8': 8, 'int16': 16, 'int32': 32, 'float32': 32, 'boolean': 8}


class Elements:
    """the elements of a range update: written one by one after the count, each
    after a space, and read one by one by the function of their type"""

    def __init__(self, t, s, type_id, n):
        self.t, self.n, self.ty = t, n, type_id
        self.w = WIDTH.get(type_id, 64)
        self.o = s.new_obj('elements', lin(n).scale(16 if type_id == 'blob' else WIDTH.get(type_id, 64) // 8))
        size = 16 if type_id == 'blob' else self.w // 8
        self.x = [Base('elements%d' % k, self.w) for k in range(2 if type_id == 'blob' else 1)]
        self.o.segs.append(en.Seg(0, lin(n).scale(size), size, {(8 * k, self.w // 8): x for k, x in enumerate(self.x)}))
        self.fields = sorted(self.o.segs[0].fields)
        if type_id == 'boolean':
            x = self.x[0]
            s.assume_forall(x, lambda i: z3.ULE(bv(x.sel(i), 8), 1))
        s.ghost['written'], s.ghost['space'], s.ghost['read'] = B64(0), B8(0), B64(0)

    def same(self, i, vals):
        return z3.And([bv(x.sel(lin(i)), x.w) == v for x, v in zip(self.x, vals)])

    def vals(self, a):
        if self.ty == 'blob':
            return [bv(v, 64) for v in a[:2]]
        v = a[0]
        if self.ty == 'boolean':
            v = z3.If(v if not isinstance(v, bool) else z3.BoolVal(v), B8(1), B8(0)) if not (z3.is_expr(v) and z3.is_bv(v)) else v
        return [bv(v, self.w)]

    def write(self, E, s, a, ins):
        g = s.ghost
        E.prove(s, z3.And(g['space'] == 1, z3.ULT(g['written'], self.n)), 'pre', 'a space before each element')
        E.prove(s, z3.Implies(z3.ULT(g['written'], self.n), self.same(g['written'], self.vals(a[1:]))), 'pre', 'the element written is the next one')
        g['written'], g['space'] = z3.simplify(g['written'] + 1), B8(0)
        return None

    def space(self, E, s):
        E.prove(s, s.ghost['space'] == 0, 'pre', 'one space before each element')
        s.ghost['space'] = B8(1)

    def read(self, E, s, a, ins):
        g = s.ghost
        E.prove(s, z3.ULT(g['read'], self.n), 'pre', 'an element is read where one was written')
        v = [x.sel(lin(g['read'])) for x in self.x]
        g['read'] = z3.simplify(g['read'] + 1)
        return bv(v[0], 8) != 0 if self.ty == 'boolean' else v[0] if len(v) == 1 else tuple(v)

    def cands(self, E, lp):
        out = []
        for k, w in lp.scal:
            if w != 64:
                continue
            out.append(en.Cand('elements written', lambda g, k=k: z3.And(g.s.ghost['written'] == bv(g.cur(k), 64), g.s.ghost['space'] == 0, z3.ULE(bv(g.cur(k), 64), self.n)), True))
            out.append(en.Cand('elements read', lambda g, k=k: z3.And(g.s.ghost['read'] == bv(g.cur(k), 64), z3.ULE(bv(g.cur(k), 64), self.n)), True))
            for m in [m for m in lp.mods if m[0] == 'seg']:
                for x in self.x:
                    def f(g, k=k, m=m, x=x):
                        b = g.cur(m)
                        if b.w != x.w:
                            raise en.Unsupported('element width')
                        return [b], lambda i: z3.Implies(z3.ULT(i.bv(), bv(g.cur(k), 64)), bv(b.sel(i), b.w) == bv(x.sel(i), x.w))
                    out.append(en.QCand('elements so far', f, True))
        return out


def command(proc, method, params, type_id=None, word=None):
    """params: kinds of the arguments of the operation; T table, F field, R record, N count, S string, W new name, X type, V value"""
    def f(t):
        E = t.E
        s = t.state()
        w = s.sym(IW, 'dump')
        schema = s.sym('joedb::Database_Schema', 'schema')
        out = out_stream(t, s)
        s.put(w, IW, 'out', out)
        s.put(w, IW, 'schema', schema)
        tid, fid = t.var('table', 16), t.var('field', 16)
        ref = t.var('referenced table', 16)
        s.assume(z3.And(tid != 0, ref != 0, tid != ref))
        names = {'table': tid, 'field': fid, 'ref': ref}
        tags = {k: tagged(t, s, k) for k in ('table', 'field', 'ref', 'new name', 'string')}
        ty = s.new_obj('type', 4)

        def table_name(E, s, a, ins):
            i = bv(a[1], 16)
            k = 'ref' if i.eq(ref) else 'table'
            E.prove(s, i == names[k], 'pre', 'name of a table of the operation')
            return tags[k]

        def field_name(E, s, a, ins):
            E.prove(s, z3.And(bv(a[1], 16) == tid, bv(a[2], 16) == fid), 'pre', 'name of the field of the operation')
            return tags['field']

        def find_table(E, s, a, ins):
            k = tag_of(E, s, a[1])
            E.prove(s, z3.BoolVal(k in ('table', 'ref')), 'pre', 'a table is looked up by its name')
            return names.get(k, B8(0))

        def find_field(E, s, a, ins):
            E.prove(s, z3.And(bv(a[1], 16) == tid, z3.BoolVal(tag_of(E, s, a[2]) == 'field')), 'pre', 'a field is looked up by its table and its name')
            return fid
        E.contracts[:0] = [(r'^joedb::Readable::get_table_name(\[abi:cxx11\])?\(', table_name, 'Readable::get_table_name: the name of the table'),
                           (r'^joedb::Readable::get_field_name(\[abi:cxx11\])?\(', field_name, 'Readable::get_field_name: the name of the field'),
                           (r'^joedb::Readable::find_table\(', find_table, 'Readable::find_table: the table of that name'),
                           (r'^joedb::Readable::find_field\(', find_field, 'Readable::find_field: the field of that name'),
                           (r"^joedb::get_time_string(\[abi:cxx11\])?\(", lambda E, s, a, ins: bm.fresh_string(E, s, a[0], 'time').__setattr__('meta', {'tag': 'time'}), 'get_time_string: some text without line break')]
        tv = None
        if type_id is not None:
            # struct Type {Type_Id, Table_Id}: passed in one register
            tv = TYPES.index(type_id) + 1
            E.store(s, Ptr(ty.id, 0), 1, B8(tv))
            E.store(s, Ptr(ty.id, 2), 2, ref if type_id == 'reference' else z3.BitVecVal(0, 16))
            E.iface['joedb::Readable'] = {'get_field_type': lambda E, s, a, ins: Ptr(ty.id, 0)}
        args, want = [], []
        el = None

        def write_float(E, s, a, ins):
            s.ghost['text'] += (('num', bv(a[1], WIDTH.get(type_id, 64))),)
            return None

        def read_float(E, s, a, ins):
            k = s.ghost['at']
            while k < len(text_items[0]) and text_items[0][k] == ('char', 32):
                k += 1
            if k >= len(text_items[0]) or text_items[0][k][0] != 'num':
                raise en.Unsupported('text of a number')
            s.ghost['at'] = k + 1
            return text_items[0][k][1]
        text_items = [()]

        def el_char(E, s, a, ins):
            # between the elements
            if a[1] == 32 and len([x for x in s.ghost['text'] if x[0] == 'num']) == 2:
                el.space(E, s)
                return a[0]
            if a[1] == 10:
                E.prove(s, z3.And(s.ghost['written'] == el.n, s.ghost['space'] == 0), 'pre', 'all the elements are written before the end of the line')
            return NotImplemented
        for k in params:
            if k == 'T':
                args.append(tid); want.append(('bv', 16, tid))
            elif k == 'F':
                args.append(fid); want.append(('bv', 16, fid))
            elif k in 'RN':
                v = t.var({'R': 'record', 'N': 'count'}[k])
                if method == 'insert_into':
                    s.assume(v >= 0)
                args.append(v); want.append(('bv', 64, v))
            elif k == 'W':
                args.append(tags['new name']); want.append(('tag', 'new name'))
            elif k == 'S':
                args.append(tags['string']); want.append(('tag', 'string'))
            elif k == 'D':
                args += [E.load(s, tags['string'].add(Lin(8)), 8, 'i64'), E.load(s, tags['string'], 8, 'ptr')]
                want.append(('data', 'string'))
            elif k == 'X':
                v = z3.Concat(ref if type_id == 'reference' else z3.BitVecVal(0, 16), z3.BitVecVal(tv, 16))
                args.append(v); want.append(('type', tv))
            elif k == 'A':
                n = args[-1]
                s.assume(z3.And(n > 0, n < 1 << 40))
                how = 'assumed, see the bounded check' if type_id.startswith('float') else 'proved in value_' + type_id
                el = Elements(t, s, type_id, n)
                args.append(Ptr(el.o.id, 0)); want.append(('elements',))
                E.loop_cands.append(el.cands)
                E.contracts[:0] = [(r'^joedb::write_%s\(std' % type_id, el.write, 'joedb::write_%s (%s)' % (type_id, how)),
                                   (r'^joedb::read_%s\(' % type_id, el.read, 'joedb::read_%s (%s)' % (type_id, how)),
                                   (OSTD + r'char\)', el_char, 'std::ostream << char: appends the character')]
            elif k == 'V':
                if type_id == 'string':
                    args += [E.load(s, tags['string'].add(Lin(8)), 8, 'i64'), E.load(s, tags['string'], 8, 'ptr')]
                    want.append(('data', 'string'))
                elif type_id == 'blob':
                    for x in ('position', 'size'):
                        v = t.var(x)
                        args.append(v); want.append(('bv', 64, v))
                elif type_id == 'boolean':
                    v = t.var('value', 1)
                    b = v == 1
                    args.append(b); want.append(('bool', b))
                else:
                    n = WIDTH.get(type_id, 64)
                    v = t.var('value', n)
                    if type_id.startswith('float'):
                        E.contracts[:0] = [(r'^joedb::write_%s\(std' % type_id, write_float, 'joedb::write_%s (assumed, see the bounded check)' % type_id),
                                           (r'^joedb::read_%s\(' % type_id, read_float, 'joedb::read_%s (assumed, see the bounded check)' % type_id)]
                    args.append(v); want.append(('bv', n, v))
        def op(E, s, a, ins, meth):
            E.prove(s, z3.BoolVal(meth == method), 'pre', 'the operation is %s' % method)
            E.prove(s, z3.BoolVal(not s.ghost.get('op')), 'pre', 'one operation')
            s.ghost['op'] = True
            if meth != method:
                return None
            i = 2 if ins.get('sret') else 1
            for k in want:
                if k[0] == 'bv':
                    E.prove(s, bv(a[i], k[1]) == k[2], 'pre', 'the argument written is the one read')
                elif k[0] == 'bool':
                    E.prove(s, (a[i] if not isinstance(a[i], bool) else z3.BoolVal(a[i])) == k[1], 'pre', 'the argument written is the one read')
                elif k[0] == 'tag':
                    E.prove(s, z3.BoolVal(tag_of(E, s, a[i]) == k[1]), 'pre', 'the string written is the one read')
                elif k[0] == 'data':
                    i += 1
                    E.prove(s, z3.BoolVal((s.obj(a[i].obj).meta or {}).get('tag') == k[1]), 'pre', 'the string written is the one read')
                elif k[0] == 'elements':
                    E.prove(s, s.ghost['read'] == el.n, 'pre', 'all the elements are read')
                    g = s.obj(a[i].obj).segs[0]
                    for q, x in zip(el.fields, el.x):
                        y, o = g.fields[q], a[i].off
                        E.prove(s, o.bv() == 0, 'pre', 'the elements are given from the first one')
                        t.forall(s, lambda j: z3.Implies(z3.ULT(j.bv(), el.n), bv(y.sel(j), x.w) == bv(x.sel(j), x.w)), 'the elements written are those read')
                elif k[0] == 'type':
                    v = bv(a[i], 32)
                    E.prove(s, z3.Extract(7, 0, v) == k[1], 'pre', 'the type written is the one read')
                    if type_id == 'reference':
                        E.prove(s, z3.Extract(31, 16, v) == ref, 'pre', 'the referenced table is the same')
                i += 1
            if meth == 'write_blob':
                return (fresh('position', 64), fresh('size', 64))
            return None
        n = 0
        for o in t.call(s, r'^%s::%s\(' % (IW, method), [w] + args):
            t.prove(o.s, z3.BoolVal(o.ret), 'written without exception')
            if not o.ret:
                continue
            text = o.s.ghost['text']
            lines = [x for x in text if x == ('char', 10)]
            t.prove(o.s, z3.BoolVal(len(lines) == 1 and text[-1] == ('char', 10)), 'one line is written')
            text = text[:-1]
            k = 0
            while k < len(text) and text[k][0] == 'char' and text[k][1] != 32:
                k += 1
            cmd = bytes(x[1] for x in text[:k])
            t.prove(o.s, z3.BoolVal(k == len(text) or text[k][0] == 'char'), 'the line starts with a command')
            p = o.s
            text_items[0] = text[k:]
            inp = in_stream(t, p, text[k:])
            out2 = out_stream(t, p)
            pr, wr, rd = p.sym(proc, 'interpreter'), p.sym(WR, 'receiver', 64), p.sym('joedb::Readable', 'database', 64)
            E.iface[WR] = {'*': op}
            p.put(pr, proc, 'writable', wr)
            if proc != WC:
                p.put(pr, proc, 'readable', rd)
                p.put(pr, proc, 'max_record_id', B64(-1))
            c = p.bytes_obj('command', Lin(len(cmd) + 1), ConstArr(cmd + b'\0'))
            for q in t.call(p, r'^%s::process_command\(' % proc, [pr, B64(len(cmd)), Ptr(c.id, 0), inp, inp, out2]):
                n += 1
                t.prove(q.s, z3.BoolVal(q.ret), 'the command is accepted')
                if q.ret:
                    t.prove(q.s, z3.BoolVal(bool(q.s.ghost.get('op'))), 'the operation is delivered')
        t.prove(s, z3.BoolVal(n > 0), 'something is written and read')
    f.__name__ = 'command_' + method + ('_' + type_id if type_id and method == 'add_field' else '')
    f.__module__ = __name__
    f.__doc__ = 'the line written for %s%s is interpreted as the same operation' % (method, ' of type ' + type_id if type_id and method == 'add_field' else '')
    return task('C17', IO)(f)


command(RW, 'create_table', 'W')
command(RW, 'drop_table', 'T')
command(RW, 'rename_table', 'TW')
command(RW, 'drop_field', 'TF')
command(RW, 'rename_field', 'TFW')
command(RW, 'custom', 'W')
command(WC, 'comment', 'S')
command(WC, 'timestamp', 'N')
command(WC, 'valid_data', '')
command(WC, 'write_blob', 'D')
for _m in ('insert_into', 'delete_from'):
    command(DM, _m, 'TR')
for _m in ('insert_vector', 'delete_vector'):
    command(DM, _m, 'TRN')
for _t in TYPES:
    command(RW, 'add_field', 'TWX', _t)
    command(DM, 'update_' + _t, 'TRFV', _t)
    if _t != 'string':
        command(DM, 'update_vector_' + _t, 'TRFNA', _t)
