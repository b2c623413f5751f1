"""Trusted models of library functions (each is an assumed contract, reported
in the evidence)."""
import re
import z3
from terms import *
import engine as en

BUILTINS = []


def b(rx, label=None):
    def dec(f):
        BUILTINS.append((re.compile(rx), f, label or rx))
        return f
    return dec


def str_parts(E, s, p):
    """(data Ptr, size) of a std::string object"""
    d = E.load(s, p, 8, 'ptr')
    n = E.load(s, p.add(Lin(8)), 8, 'i64')
    return d, n


def str_set(E, s, p, arr, n, start=Lin(0), name='str'):
    """make *p a string holding n bytes of arr from start"""
    n = lin(n)
    base = Copy(Fill(0), Lin(0), n, arr, start) if not (n.const() == 0) else Fill(0)
    o = s.bytes_obj(name, n.add(Lin(1)), base)
    E.cell_store(s, s.wobj(p.obj), sx(p.off.c, 64), 8, Ptr(o.id, 0)) if p.off.const() is not None and E.find_seg(s, p) is None else E.store(s, p, 8, Ptr(o.id, 0))
    E.store(s, p.add(Lin(8)), 8, n.val())
    E.store(s, p.add(Lin(16)), 8, fresh('cap', 64))
    return o


def fresh_string(E, s, p, name='str'):
    n = fresh(name + '.n', 64)
    s.assume(z3.ULT(n, 1 << 40))
    return str_set(E, s, p, Base(name, 8), n, name=name)


def str_arr(E, s, p):
    d, n = str_parts(E, s, p)
    a, i = E.read_byte_array(s, d, lin(n))
    return a, i, lin(n)


def cstr_arr(E, s, p):
    c = E.cstring(s, p)
    if c is None:
        raise en.Unsupported('C string of unknown contents')
    return ConstArr(c), Lin(0), Lin(len(c))


def concat(E, a, ai, an, c, ci, cn):
    """array of a followed by c; returns (arr, n)"""
    r = Copy(Fill(0), Lin(0), an, a, ai)
    r = Copy(r, an, cn, c, ci)
    return r, an.add(cn)


# ------------------------------------------------------------ exceptions

@b(r'^__cxa_allocate_exception$')
def _(E, s, a, ins, dem):
    n = a[0] if isinstance(a[0], int) else None
    o = s.new_obj('exception', n)
    return Ptr(o.id, 0)


@b(r'^__cxa_free_exception$')
def _(E, s, a, ins, dem):
    return None


@b(r'^__cxa_throw$')
def _(E, s, a, ins, dem):
    ti = s.obj(a[1].obj).name[1:]
    s.last_exc = a[0]
    return en.Outs([('exc', s, ti)])


@b(r'^__cxa_rethrow$')
def _(E, s, a, ins, dem):
    return en.Outs([('exc', s, s.exc['ti'])])


@b(r'^__cxa_begin_catch$')
def _(E, s, a, ins, dem):
    o = s.new_obj('caught', None)
    return Ptr(o.id, 0)


@b(r'^__cxa_end_catch$')
def _(E, s, a, ins, dem):
    return None


@b(r'^(__clang_call_terminate|std::terminate\(\)|abort)$')
def _(E, s, a, ins, dem):
    E.prove(s, False, 'terminate', 'std::terminate is not reached')
    raise en.PathEnd()


@b(r'^(joedb::(Exception|Disconnection|Out_Of_Date|Assertion_Failure)|std::runtime_error|std::exception|std::logic_error|std::bad_alloc)::(~?)(Exception|Disconnection|Out_Of_Date|Assertion_Failure|runtime_error|exception|logic_error|bad_alloc)\(')
def _(E, s, a, ins, dem):
    return None


@b(r'^std::exception_ptr|^std::current_exception|^std::uncaught_exceptions')
def _(E, s, a, ins, dem):
    return NotImplemented


@b(r'^std::__throw_(\w+)\(')
def _(E, s, a, ins, dem):
    k = re.match(r'^std::__throw_(\w+)\(', dem).group(1)
    ti = {'length_error': '_ZTISt12length_error', 'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range',
          'bad_alloc': '_ZTISt9bad_alloc', 'logic_error': '_ZTISt11logic_error', 'bad_function_call': '_ZTISt17bad_function_call',
          'bad_optional_access': '_ZTISt19bad_optional_access', 'bad_array_new_length': '_ZTISt9bad_alloc'}.get(k, '_ZTISt9exception')
    return en.Outs([('exc', s, ti)])


# ------------------------------------------------------------ memory

@b(r'^operator new(\[\])?\(unsigned long(, std::align_val_t)?\)$')
def _(E, s, a, ins, dem):
    n = lin(a[0])
    on_alloc(E, s, n, 'operator new')
    o = s.new_obj('heap', n)
    if n.const() is None or n.const() > 512:
        o.segs.append(en.Seg(0, n, None))
    return Ptr(o.id, 0)


@b(r'^operator delete(\[\])?\(')
def _(E, s, a, ins, dem):
    if isinstance(a[0], Ptr) and a[0].obj is not None:
        o = s.wobj(a[0].obj)
        o.alive = False
    return None


@b(r'^(memcpy|memmove)$')
def _(E, s, a, ins, dem):
    E.copy_bytes(s, a[0], a[1], lin(a[2]))
    return a[0]


@b(r'^strlen$')
def _(E, s, a, ins, dem):
    c = E.cstring(s, a[0])
    if c is None:
        raise en.Unsupported('strlen of unknown contents')
    return len(c)


@b(r'^(memcmp|bcmp)$')
def _(E, s, a, ins, dem):
    n = lin(a[2])
    x, xi = E.read_byte_array(s, a[0], n)
    y, yi = E.read_byte_array(s, a[1], n)
    nc = n.const()
    r = fresh('memcmp', 32)
    if nc is not None and nc <= 64:
        eq = b_and(*[E.icmp(s, 'eq', x.sel(xi.add(Lin(k))), y.sel(yi.add(Lin(k))), 'i8') for k in range(nc)])
        s.assume(eq == (r == 0) if not isinstance(eq, bool) else ((r == 0) if eq else (r != 0)))
        return r
    # r == 0 -> all equal ; r != 0 -> a witness index differs
    out = []
    s2 = s.fork()
    s.assume(r == 0)
    # "all equal": attach to every base array occurring in x or y
    def body(j, off, other, oo):
        return None
    add_eq(E, s, x, xi, y, yi, n)
    w = fresh('memcmp.w', 64)
    s2.assume(r != 0)
    s2.assume(z3.ULT(w, n.bv()))
    wl = lin(w)
    s2.assume(bv(x.sel(xi.add(wl)), 8) != bv(y.sel(yi.add(wl)), 8))
    return en.Outs([('ret', s, r), ('ret', s2, r)])


def arr_bases(a, shift, out, seen):
    """all (Base, shift) with: index t of Base corresponds to index t - shift of a"""
    k = (id(a), shift.key())
    if k in seen or len(seen) > 400:
        return
    seen.add(k)
    if isinstance(a, Base):
        out.append((a, shift))
    elif isinstance(a, Store):
        arr_bases(a.a, shift, out, seen)
    elif isinstance(a, Copy):
        arr_bases(a.a, shift, out, seen)
        arr_bases(a.src, shift.add(a.soff).sub(a.dst), out, seen)
    elif isinstance(a, IteArr):
        arr_bases(a.a, shift, out, seen)
        arr_bases(a.b, shift, out, seen)


def add_eq(E, s, x, xi, y, yi, n):
    """assume x[xi..xi+n) == y[yi..yi+n), instantiated at every index at which
    an underlying array is read"""
    for a, ai in ((x, xi), (y, yi)):
        out = []
        arr_bases(a, Lin(0), out, set())
        for base, sh in out:
            def body(t, sh=sh, ai=ai):
                k = t.sub(sh).sub(ai)
                return b_imp(lin_ult(k, n), bv(x.sel(xi.add(k)), 8) == bv(y.sel(yi.add(k)), 8))
            s.assume_forall(base, body)


# ------------------------------------------------------------ std::string
BS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'


@b('^' + BS + r'basic_string\(\)$')
def _(E, s, a, ins, dem):
    str_set(E, s, a[0], Fill(0), 0)


@b('^' + BS + r'basic_string\(std::__cxx11::basic_string<.*> const&\)$')
def _(E, s, a, ins, dem):
    x, i, n = str_arr(E, s, a[1])
    str_set(E, s, a[0], x, n, i)


@b('^' + BS + r'basic_string\(std::__cxx11::basic_string<.*>&&\)$')
def _(E, s, a, ins, dem):
    x, i, n = str_arr(E, s, a[1])
    str_set(E, s, a[0], x, n, i)
    str_set(E, s, a[1], Fill(0), 0)


@b('^' + BS + r'basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$')
def _(E, s, a, ins, dem):
    c = E.cstring(s, a[1])
    if c is None:
        return NotImplemented
    str_set(E, s, a[0], ConstArr(c), len(c))


@b('^' + BS + r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$')
def _(E, s, a, ins, dem):
    x, i = E.read_byte_array(s, a[1], lin(a[2]))
    str_set(E, s, a[0], x, a[2], i)


@b('^' + BS + r'basic_string(<[^(]*>)?\(unsigned long, char, std::allocator<char> const&\)$')
def _(E, s, a, ins, dem):
    n = a[1]
    if not isinstance(n, int):
        # length_error above max_size
        out = []
        for big, st in E.split(s, z3.UGT(n, (1 << 62))):
            if big:
                out.append(('exc', st, '_ZTISt12length_error'))
            else:
                str_set(E, st, a[0], Fill(a[2]), n)
                out.append(('ret', st, None))
        return en.Outs(out)
    str_set(E, s, a[0], Fill(a[2]), n)


@b('^' + BS + r'basic_string<std::basic_string_view<.*(basic_string_view|>) const&, std::allocator<char> const&\)$')
def _(E, s, a, ins, dem):
    n = E.load(s, a[1], 8, 'i64')
    d = E.load(s, a[1].add(Lin(8)), 8, 'ptr')
    x, i = E.read_byte_array(s, d, lin(n))
    str_set(E, s, a[0], x, n, i)


@b('^' + BS + r'~basic_string\(\)$')
def _(E, s, a, ins, dem):
    return None


@b('^' + BS + r'(clear)\(\)$')
def _(E, s, a, ins, dem):
    str_set(E, s, a[0], Fill(0), 0)


@b('^' + BS + r'resize\(unsigned long(, char)?\)$')
def _(E, s, a, ins, dem):
    fill = a[2] if len(a) > 2 else 0
    x, i, n = str_arr(E, s, a[0])
    m = lin(a[1])
    out = []
    c = z3.UGT(m.bv(), (1 << 62)) if m.const() is None else m.const() > (1 << 62)
    for big, st in E.split(s, c):
        if big:
            out.append(('exc', st, '_ZTISt12length_error'))
        else:
            # keep min(n,m) bytes, fill the rest
            if n.const() == 0:
                arr = Fill(fill)
            else:
                keep = lin(simp(z3.If(z3.ULT(n.bv(), m.bv()), n.bv(), m.bv())))
                arr = Copy(Fill(fill), Lin(0), keep, x, i)
            on_alloc(E, st, m, 'std::string')
            str_set(E, st, a[0], arr, m)
            out.append(('ret', st, None))
    return en.Outs(out)


@b('^' + BS + r'reserve\(')
def _(E, s, a, ins, dem):
    return None


@b('^' + BS + r'(push_back|operator\+=)\(char\)$')
def _(E, s, a, ins, dem):
    x, i, n = str_arr(E, s, a[0])
    arr = Copy(Fill(0), Lin(0), n, x, i)
    o = s.bytes_obj('str', n.add(Lin(2)), Store(arr, n, a[1]))
    E.store(s, a[0], 8, Ptr(o.id, 0))
    E.store(s, a[0].add(Lin(8)), 8, n.add(Lin(1)).val())
    return a[0]


@b('^' + BS + r'(append|operator\+=)\(char const\*\)$')
def _(E, s, a, ins, dem):
    x, i, n = str_arr(E, s, a[0])
    y, j, m = cstr_arr(E, s, a[1])
    r, t = concat(E, x, i, n, y, j, m)
    str_set(E, s, a[0], r, t)
    return a[0]


@b('^' + BS + r'append\(char const\*, unsigned long\)$')
def _(E, s, a, ins, dem):
    x, i, n = str_arr(E, s, a[0])
    m = lin(a[2])
    y, j = E.read_byte_array(s, a[1], m)
    r, t = concat(E, x, i, n, y, j, m)
    str_set(E, s, a[0], r, t)
    return a[0]


@b('^' + BS + r'(append|operator\+=)\(std::__cxx11::basic_string<.*> const&\)$')
def _(E, s, a, ins, dem):
    x, i, n = str_arr(E, s, a[0])
    y, j, m = str_arr(E, s, a[1])
    r, t = concat(E, x, i, n, y, j, m)
    str_set(E, s, a[0], r, t)
    return a[0]


@b('^' + BS + r'append\(unsigned long, char\)$')
def _(E, s, a, ins, dem):
    x, i, n = str_arr(E, s, a[0])
    m = lin(a[1])
    r, t = concat(E, x, i, n, Fill(a[2]), Lin(0), m)
    str_set(E, s, a[0], r, t)
    return a[0]


@b('^' + BS + r'operator=\(std::__cxx11::basic_string<.*>( const&|&&)\)$')
def _(E, s, a, ins, dem):
    if a[0].same(a[1]):
        return a[0]
    x, i, n = str_arr(E, s, a[1])
    str_set(E, s, a[0], x, n, i)
    return a[0]


@b('^' + BS + r'operator=\(char const\*\)$')
def _(E, s, a, ins, dem):
    x, i, n = cstr_arr(E, s, a[1])
    str_set(E, s, a[0], x, n, i)
    return a[0]


@b('^' + BS + r'operator std::basic_string_view<')
def _(E, s, a, ins, dem):
    d, n = str_parts(E, s, a[0])
    return [n, d]


@b(r'^std::__cxx11::to_string\(')
def _(E, s, a, ins, dem):
    fresh_string(E, s, a[0], 'to_string')


@b(r'std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(')
def _(E, s, a, ins, dem):
    # message construction: contents abstracted
    fresh_string(E, s, a[0], 'concat')


@b(r'^joedb::Destructor_Logger::|^joedb::Logger::')
def _(E, s, a, ins, dem):
    return None


@b(r'^std::allocator<.*>::~?allocator\(|^std::__new_allocator<.*>::~?__new_allocator\(')
def _(E, s, a, ins, dem):
    return None


# ------------------------------------------------------------ std::vector

def vec_elem(E, dem, ins, fname):
    f = E.M.functions.get(fname)
    cls = f.get('cls') if f else None
    return cls


def vget(E, s, p):
    return E.load(s, p, 8, 'ptr'), E.load(s, p.add(Lin(8)), 8, 'ptr'), E.load(s, p.add(Lin(16)), 8, 'ptr')


VEC = r'^std::vector<(.*)>::'
SCALAR = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': None, 'short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
          'float': 4, 'double': 8}


PLAIN = ('joedb::Record_Id',)    # trivially copyable, one scalar


# structures of scalars: fields as (offset, size)
STRUCTS = {'joedb::Blob': [(0, 8), (8, 8)]}


def elem_size(E, dem):
    m = re.match(r'^std::vector<', dem)
    if not m:
        return None, None
    d = 0
    for k in range(m.end(), len(dem)):
        ch = dem[k]
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
            if d < 0:
                return None, None
        elif ch == ',' and d == 0:
            break
    t = dem[m.end():k]
    if 'basic_string<char' in t and t.endswith('>'):
        return 'std::string', 32
    if t in SCALAR and SCALAR[t]:
        return t, SCALAR[t]
    ti = E.M.types.get(t)
    if ti and ti['size']:
        return t, ti['size']
    return t, None


def vec_fields(E, t, S):
    """fields of a freshly constructed element; None: not modelled"""
    if t in SCALAR:
        return {(0, S): Fill(0, S * 8)}
    if t in PLAIN:
        return {(0, S): Base('new', S * 8)}    # nothing assumed about new elements
    if t in STRUCTS and t not in getattr(E, 'opaque_elems', ()):
        return {f: Base('new', f[1] * 8) for f in STRUCTS[t]}
    if t in getattr(E, 'opaque_elems', ()):
        return {}    # contents unknown, read as arbitrary values
    return None


def on_alloc(E, s, n, what):
    h = getattr(E, 'alloc_hook', None)
    if h:
        h(s, n, what)


@b(VEC + r'vector\(unsigned long, std::allocator<.*> const&\)$')
def _(E, s, a, ins, dem):
    t, S = elem_size(E, dem)
    F = vec_fields(E, t, S)
    if F is None:
        return NotImplemented
    n = lin(a[1])
    out = []
    lim = (1 << 63) // S - 1
    c = z3.UGT(n.bv(), lim) if n.const() is None else n.const() > lim
    for big, st in E.split(s, c):
        if big:
            out.append(('exc', st, '_ZTISt12length_error'))
            continue
        vec_new(E, st, a[0], n, S, F)
        out.append(('ret', st, None))
    return en.Outs(out)


def vec_new(E, s, p, n, S, arr):
    ln = n.scale(S)
    on_alloc(E, s, ln, 'std::vector')
    o = s.new_obj('vec', ln)
    sg = en.Seg(0, ln, S)
    sg.fields.update(arr)
    o.segs.append(sg)
    E.store(s, p, 8, Ptr(o.id, 0))
    E.store(s, p.add(Lin(8)), 8, Ptr(o.id, ln))
    E.store(s, p.add(Lin(16)), 8, Ptr(o.id, ln))
    return o


@b(VEC + r'~vector\(\)$')
def _(E, s, a, ins, dem):
    return None


@b(VEC + r'reserve\(unsigned long\)$')
def _(E, s, a, ins, dem):
    return None


@b(VEC + r'resize\(unsigned long\)$')
def _(E, s, a, ins, dem):
    t, S = elem_size(E, dem)
    F = vec_fields(E, t, S)
    if F is None:
        return NotImplemented
    bgn, end, cap = vget(E, s, a[0])
    n = lin(a[1])
    out = []
    lim = (1 << 63) // S - 1
    c = z3.UGT(n.bv(), lim) if n.const() is None else n.const() > lim
    for big, st in E.split(s, c):
        if big:
            out.append(('exc', st, '_ZTISt12length_error'))
            continue
        if bgn.obj is None:
            arr = F
        elif t not in SCALAR and t not in PLAIN and t not in STRUCTS:
            return NotImplemented
        else:
            o = st.obj(bgn.obj)
            if o.segs[0].stride != S:
                return NotImplemented
            olds = {}
            for f in STRUCTS.get(t, [(0, S)]):
                olds[f] = o.segs[0].fields.get(f)
                if olds[f] is None:
                    olds[f] = E.seg_init(st, o, o.segs[0], f)
            oldn = end.off.sub(bgn.off)
            if S > 1:
                if not oldn.divides(S):
                    return NotImplemented
                oldn = oldn.div(S)
            keep = lin(simp(z3.If(z3.ULT(oldn.bv(), n.bv()), oldn.bv(), n.bv())))
            arr = {f: Copy(F[f], Lin(0), keep, old, Lin(0)) for f, old in olds.items()}
        vec_new(E, st, a[0], n, S, arr)
        out.append(('ret', st, None))
    return en.Outs(out)
