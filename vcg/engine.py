"""Deductive verifier over LLVM IR: path-wise verification-condition generation
with exact machine arithmetic; calls resolved by contract, library model or
inlining; loops by complete unrolling or by inductive invariants (Houdini over
templates plus specification-supplied candidates); interfaces by contract."""
import json
import re
import sys
import time
import z3
from terms import *

sys.setrecursionlimit(20000)


import os
VCG_LOG = os.environ.get('VCG_LOG')


def tac_solver():
    return z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver()


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ module

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.functions = d['functions']
        self.globals = d['globals']
        self.types = d['types']
        self.by_dem = {}
        for n, f in self.functions.items():
            f['name'] = n
            self.by_dem.setdefault(f['dem'], n)
        self._loops = {}
        self._leaf = {}

    def find(self, regex, body=True):
        r = re.compile(regex)
        return [n for n, f in self.functions.items()
                if r.search(f['dem']) and (not body or 'blocks' in f)]

    def fn(self, regex):
        l = self.find(regex)
        if len(l) != 1:
            raise Unsupported('function %s: %d candidates' % (regex, len(l)))
        return l[0]

    # --- loops
    def loops(self, fname):
        if fname in self._loops:
            return self._loops[fname]
        f = self.functions[fname]
        n = len(f['blocks'])
        succ = [self.succs(b) for b in f['blocks']]
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for t in s:
                pred[t].append(i)
        # dominators
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t)
                        st.append((t, iter(succ[t])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        dom = {b: None for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0:
                    continue
                ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in rpo:
            for t in succ[b]:
                if dom.get(b) and t in dom[b]:
                    body = loops.setdefault(t, {t})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pred[x] if p in dom)
        self._loops[fname] = loops
        return loops

    @staticmethod
    def succs(block):
        t = block[-1]
        if t['op'] == 'br':
            return t['succ']
        if t['op'] == 'switch':
            return [t['default']] + [c[1] for c in t['cases']]
        if t['op'] == 'invoke':
            return [t['normal'], t['unwind']]
        return []

    # --- debug-info layout
    def leaves(self, cls):
        """flatten a class into [(off, size, type, path)]"""
        if cls in self._leaf:
            return self._leaf[cls]
        r = []
        t = self.types.get(cls)
        if t is None:
            return None
        for b in t['bases']:
            sub = self.leaves(b['type'])
            if sub:
                for o, s, ty, p in sub:
                    r.append((b['off'] + o, s, ty, p))
        for m in t['members']:
            if 'off' not in m:
                continue
            ty = m['type']
            sub = None
            if ty in self.types and self.types[ty]['tag'] == 'struct' and ty not in OPAQUE_CLASSES and not ty.startswith(OPAQUE_PREFIX):
                sub = self.leaves(ty)
            if sub:
                for o, s, ty2, p in sub:
                    r.append((m['off'] + o, s, ty2, m['name'] + '.' + p))
            else:
                r.append((m['off'], m['size'], ty, m['name']))
        self._leaf[cls] = r
        return r

    def field(self, cls, path):
        """(offset, size, type) of a dotted member path, searched through bases"""
        off = 0
        ty = cls
        for part in path.split('.'):
            o, s, t2 = self._member(ty, part)
            off += o
            ty = t2
        return off, s, ty

    def _member(self, cls, name):
        t = self.types.get(cls)
        if t is None:
            raise Unsupported('no layout for ' + cls)
        for m in t['members']:
            if m['name'] == name:
                return m['off'], m['size'], m['type']
        for b in t['bases']:
            try:
                o, s, ty = self._member(b['type'], name)
                return b['off'] + o, s, ty
            except Unsupported:
                pass
        raise Unsupported('no member %s in %s' % (name, cls))

    def vslots(self, cls):
        """slot -> method name, for the primary vtable chain"""
        r = {}
        t = self.types.get(cls)
        if t is None:
            return r
        for b in t['bases']:
            if b['off'] == 0:
                r.update(self.vslots(b['type']))
        for v in t['virt']:
            if v['name'].startswith('~') and not v['link']:
                continue
            if not v['name'].startswith('~'):
                r[v['vi']] = (v['name'], v['link'])
        return r

    def dtor_slots(self, cls):
        r = set()
        t = self.types.get(cls)
        if t is None:
            return r
        for b in t['bases']:
            if b['off'] == 0:
                r |= self.dtor_slots(b['type'])
        for v in t['virt']:
            if v['name'].startswith('~') and v.get('vi') is not None:
                r |= {v['vi'], v['vi'] + 1}
        return r

    def derives(self, cls, base):
        if cls == base:
            return True
        t = self.types.get(cls)
        return bool(t) and any(self.derives(b['type'], base) for b in t['bases'])


OPAQUE_CLASSES = set()
OPAQUE_PREFIX = ('std::vector<', 'std::map<', 'std::__cxx11::basic_string', 'std::function', 'std::unordered_map', 'std::list', 'std::deque')

INT_TYPES = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'char': 8, 'signed char': 8, 'unsigned char': 8,
             'short': 16, 'unsigned short': 16, 'bool': 8, 'long long': 64, 'unsigned long long': 64, 'float': 32, 'double': 64}


def ty_size(ty):
    if isinstance(ty, str):
        if ty == 'ptr':
            return 8
        if ty[0] == 'i':
            return (int(ty[1:]) + 7) // 8
        if ty == 'f32':
            return 4
        if ty == 'f64':
            return 8
        if ty == 'f80':
            return 16
    elif 'a' in ty:
        return ty['n'] * ty['es']
    elif 's' in ty:
        return ty['size']
    elif 'v' in ty:
        return ty['n'] * ty_size(ty['v'])
    raise Unsupported('size of type %s' % (ty,))


def ty_w(ty):
    if isinstance(ty, str):
        if ty[0] == 'i':
            return int(ty[1:])
        if ty == 'f32':
            return 32
        if ty == 'f64':
            return 64
        if ty == 'ptr':
            return 64
        if ty == 'f80':
            return 80
    raise Unsupported('width of type %s' % (ty,))


# ------------------------------------------------------------------ memory

class Seg:
    """array region: [off, off+len) with element stride; contents per
    (offset in element, width in bytes)"""
    __slots__ = ('off', 'len', 'stride', 'fields', 'init')

    def __init__(self, off, ln, stride, fields=None, init=None):
        self.off = off
        self.len = ln        # Lin, bytes
        self.stride = stride  # or None (decided at first access)
        self.fields = fields or {}
        self.init = init      # callback name for missing fields

    def copy(self):
        return Seg(self.off, self.len, self.stride, dict(self.fields), self.init)


class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'segs', 'owner', 'cls', 'kind', 'sym', 'alive', 'const', 'meta')

    def __init__(self, id, name, size, kind='mem'):
        self.id = id
        self.name = name
        self.size = size      # Lin or None (unknown)
        self.cells = {}       # off -> (size, value)
        self.segs = []
        self.owner = None
        self.cls = None       # debug-info class for lazily created symbolic contents
        self.kind = kind
        self.sym = False      # missing cells are symbolic inputs (else: uninitialised)
        self.alive = True
        self.const = False
        self.meta = None

    def copy(self, owner):
        o = Obj(self.id, self.name, self.size, self.kind)
        o.cells = dict(self.cells)
        o.segs = [s.copy() for s in self.segs]
        o.owner = owner
        o.cls, o.sym, o.alive, o.const, o.meta = self.cls, self.sym, self.alive, self.const, self.meta
        return o


class Frame:
    __slots__ = ('fn', 'name', 'regs', 'block', 'idx', 'prev', 'allocas', 'hook')

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name
        self.regs = {}
        self.block = 0
        self.idx = 0
        self.prev = None
        self.allocas = ()
        self.hook = None

    def copy(self):
        f = Frame(self.fn, self.name)
        f.regs = dict(self.regs)
        f.block, f.idx, f.prev, f.allocas, f.hook = self.block, self.idx, self.prev, self.allocas, self.hook
        return f


class State:
    _ids = [0]

    def __init__(self, E):
        self.E = E
        State._ids[0] += 1
        self.sid = State._ids[0]
        self.frames = []
        self.mem = {}
        self.pc = []
        self.qax = []          # (uf name, fn(Lin)->Bool)
        self.ghost = {}
        self.exc = None
        self.at_edge = False
        self.model = None
        self.havoc = False     # path went through an abstracted loop/contract result
        self.trace = ()

    def fork(self):
        n = State.__new__(State)
        n.E = self.E
        State._ids[0] += 1
        n.sid = State._ids[0]
        # both copies lose ownership
        State._ids[0] += 1
        self.sid = State._ids[0]
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem)
        n.pc = list(self.pc)
        n.qax = list(self.qax)
        n.ghost = dict(self.ghost)
        n.exc = self.exc
        n.at_edge = self.at_edge
        n.model = self.model
        n.havoc = self.havoc
        n.trace = self.trace
        return n

    # --- assumptions
    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.pc.append(z3.BoolVal(False))
            self.model = None
            return
        self.pc.append(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def assume_forall(self, base, fn):
        """for all indices i: fn(i) — instantiated at every index at which the
        array `base` is read in a query"""
        self.qax.append((base.name, fn))

    # --- objects
    def new_obj(self, name, size, kind='mem'):
        self.E.nobj += 1
        o = Obj(self.E.nobj, name, None if size is None else lin(size), kind)
        o.owner = self.sid
        self.mem[o.id] = o
        return o

    def obj(self, i):
        o = self.mem.get(i)
        if o is None:
            o = self.E.base_mem.get(i)
            if o is None:
                raise Unsupported('dangling object %s' % (i,))
            self.mem[i] = o
        return o

    def wobj(self, i):
        o = self.obj(i)
        if o.owner != self.sid:
            o = o.copy(self.sid)
            self.mem[i] = o
        return o

    def bytes_obj(self, name, size, arr=None):
        o = self.new_obj(name, size)
        s = Seg(0, lin(size), 1)
        s.fields[(0, 1)] = arr or Base(name, 8)
        o.segs.append(s)
        return o

    def sym(self, cls, name, size=None):
        """symbolic instance of class cls laid out from debug information"""
        t = self.E.M.types.get(cls)
        o = self.new_obj(name, size if size is not None else (t['size'] if t else None))
        o.cls = cls
        o.sym = True
        self.E.layout_segs(o)
        return Ptr(o.id, 0)

    def get(self, p, cls, path):
        off, size, ty = self.E.M.field(cls, path)
        return self.load(p.add(Lin(off)), size, self.E.di_ir_type(ty, size))

    def put(self, p, cls, path, v):
        off, size, ty = self.E.M.field(cls, path)
        self.store(p.add(Lin(off)), size, v)

    # --- access
    def load(self, p, size, ty=None):
        return self.E.load(self, p, size, ty)

    def store(self, p, size, v):
        return self.E.store(self, p, size, v)

    def seg_arr(self, p, width=1, create=True):
        """(obj, seg, byte index Lin) of a byte segment at p, or None"""
        return self.E.find_seg(self, p)


class Ctx:
    def __init__(self, depth, header, blocks):
        self.depth = depth
        self.header = header
        self.blocks = blocks


class Obl:
    __slots__ = ('kind', 'msg', 'fn', 'line', 'status', 'model', 'real', 't', 'trace')

    def __init__(self, kind, msg, fn, line, status, model=None, real=True, t=0.0, trace=()):
        self.kind, self.msg, self.fn, self.line, self.status, self.model, self.real, self.t = kind, msg, fn, line, status, model, real, t
        self.trace = trace


class Engine:
    def __init__(self, module, timeout_ms=15000, budget_s=240):
        self.M = module
        self.nobj = 0
        self.base_mem = {}
        self.init_cells = {}
        self.undef_cells = set()
        self.gobj = {}
        self.obls = []
        self.recording = True
        self.contracts = []       # (compiled regex, handler, label)
        self.iface = {}           # class -> {method: handler}
        self.used_contracts = set()
        self.abstract_div = False
        self.div_memo = {}
        self.used_models = set()
        self.used_iface = set()
        self.inlined = set()
        self.timeout = timeout_ms
        self.solver_time = 0.0
        self.queries = 0
        self.slow = []
        self.inputs = {}          # name -> z3 expr for counterexample display
        self.unroll_limit = 3
        self.unroll = {}          # demangled regex -> limit
        self.cvc5_calls = self.cvc5_proofs = 0
        self.loop_cands = []
        self.inst_rounds = 4      # fn(E, S0, fname, header) -> list of fn(state, getter)->Bool
        self.fork_limit = 24
        self.max_states = 20000
        self.templates = True    # propose generic loop invariants, besides those of the task
        self.nstates = 0
        self.deadline = time.time() + budget_s
        self.depth_limit = 60
        self.inv_log = []
        self.loop_qcands = []
        self.bounded = False
        self._instcache = {}
        self.leaf_hook = None
        self.bound_reached = False
        self.no_inv = False
        from builtins_model import BUILTINS
        self.builtins = BUILTINS
        self._bcache = {}

    # ---------------------------------------------------------- solver
    def _apps(self, e):
        k = e.get_id()
        c = self._instcache.get(k)
        if c is not None and c[0].eq(e):
            return c[1]
        seen = set()
        out = {}
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == 1:
                    a = x.arg(0)
                    out.setdefault(d.name(), {})[a.get_id()] = a
                st.extend(x.children())
        self._instcache[k] = (e, out)
        return out

    def instantiate(self, state, exprs, extra_terms=()):
        if not state.qax:
            return []
        by = {}
        for n, f in state.qax:
            by.setdefault(n, []).append(f)
        done = set()
        out = []
        cur = list(exprs)
        for rnd in range(self.inst_rounds):
            new = []
            for e in cur:
                for n, args in self._apps(e).items():
                    if n in by:
                        for aid, a in args.items():
                            for fi, f in enumerate(by[n]):
                                key = (n, aid, fi)
                                if key in done:
                                    continue
                                done.add(key)
                                r = f(lin(a))
                                if r is True:
                                    continue
                                if r is False:
                                    r = z3.BoolVal(False)
                                new.append(r)
            if not new or len(out) > 3000:
                break
            out.extend(new)
            cur = new
        return out

    def solve(self, state, extra, want_model=False, timeout=None):
        if time.time() > self.deadline:
            raise Budget()
        t0 = time.time()
        ex = [e if not isinstance(e, bool) else z3.BoolVal(e) for e in extra]
        exprs = state.pc + ex
        exprs = exprs + self.instantiate(state, exprs)
        T = timeout or self.timeout
        r = z3.unknown
        s = None
        for mk, lim in ((z3.SimpleSolver, min(T, 300)), ('cvc5', min(T, 4000)), (z3.SimpleSolver, min(T, 1500)), (tac_solver, T // 2), (z3.Solver, T)):
            if mk == 'cvc5':
                # linear 64-bit reasoning is easy over the integers
                c = self.cvc5_unsat(s, lim)
                if c:
                    self.cvc5_proofs += 1
                    r = z3.unsat
                    break
                continue
            s = mk()
            s.set('timeout', lim)
            for e in exprs:
                s.add(e)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
            if T <= 1500 and lim > 300:
                break
        self.queries += 1
        dt = time.time() - t0
        self.solver_time += dt
        if VCG_LOG and dt > 0.15:
            import traceback
            st = [f.name for f in traceback.extract_stack(limit=6)[:-1]]
            print('%.2fs %s nexpr=%d T=%d %s' % (dt, r, len(exprs), T, '<'.join(reversed(st))), flush=True)
        if dt > 3:
            self.slow.append((round(dt, 1), str(r), state.frames[-1].fn['dem'] if state.frames else ''))
        if r == z3.sat:
            return True, s.model()
        if r == z3.unsat:
            return False, None
        return None, None

    def cvc5_unsat(self, s, lim):
        import subprocess
        txt = s.to_smt2()
        if len(txt) > 400000:
            return False
        self.cvc5_calls += 1
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % lim, '--solve-bv-as-int=sum', '-'], input='(set-logic ALL)\n' + txt,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=lim / 1000 + 3)
        except Exception:
            return False
        return p.stdout.split('\n')[0].strip() == 'unsat'

    def feasible(self, state, c):
        if c is True:
            return True
        if c is False:
            return False
        if state.model is not None:
            if z3.is_true(state.model.eval(c, model_completion=True)):
                return True
        r, m = self.solve(state, [c], timeout=3000)
        if r is None:
            return True
        if r:
            state.model_try = m
        self._lastm = m
        return r

    def prove(self, state, cond, kind, msg, assume=True):
        """an obligation: cond holds on every execution reaching this point"""
        fn, line = '', 0
        if state.frames:
            f = state.frames[-1]
            fn = f.fn['dem']
            try:
                line = f.fn['blocks'][f.block][min(f.idx, len(f.fn['blocks'][f.block]) - 1)].get('ln', 0)
            except Exception:
                pass
        if not isinstance(cond, bool):
            cond = simp(cond)
        if cond is True:
            if self.recording:
                self.obls.append(Obl(kind, msg, fn, line, 'proved'))
            return True
        if not self.recording:
            if assume:
                state.assume(cond)
            return True
        t0 = time.time()
        r, m = self.solve(state, [b_not(cond)])
        st = {True: 'failed', False: 'proved', None: 'unknown'}[r]
        mo = None
        if r:
            mo = {}
            for n, e in self.inputs.items():
                try:
                    mo[n] = str(m.eval(e, model_completion=True))
                except z3.Z3Exception:
                    pass
        self.obls.append(Obl(kind, msg, fn, line, st, mo, not state.havoc, time.time() - t0, state.trace))
        if assume:
            state.assume(cond)
        return st == 'proved'

    def forall(self, state, fn, kind, msg):
        """obligation: for every 64-bit index k: fn(k)"""
        k = fresh('sk', 64)
        return self.prove(state, fn(lin(k)), kind, msg, assume=False)

    # ---------------------------------------------------------- layout
    def di_ir_type(self, ty, size):
        if ty.endswith('*') or ty.endswith('&') or ty.endswith('&&'):
            return 'ptr'
        return 'i%d' % (size * 8)

    def layout_segs(self, o):
        lv = self.M.leaves(o.cls) if o.cls else None
        if not lv:
            return
        for off, size, ty, path in lv:
            m = re.match(r'^(.*)\[(\d+)\]$', ty)
            if m and size > 64:
                el = size // int(m.group(2))
                s = Seg(off, Lin(size), el)
                if m.group(1) in INT_TYPES:
                    s.fields[(0, el)] = Base(o.name + '.' + path, el * 8)
                o.segs.append(s)

    def ir_segs(self, ty, base=0):
        """array segments of an IR type"""
        out = []
        if isinstance(ty, dict):
            if 'a' in ty:
                if ty['n'] * ty['es'] > 256 and isinstance(ty['a'], str):
                    out.append(Seg(base, Lin(ty['n'] * ty['es']), ty['es']))
                elif ty['n'] <= 64:
                    for k in range(ty['n']):
                        out += self.ir_segs(ty['a'], base + k * ty['es'])
            elif 's' in ty:
                for f, o in zip(ty['s'], ty['o']):
                    out += self.ir_segs(f, base + o)
        return out

    # ---------------------------------------------------------- memory
    def find_seg(self, state, p):
        if p.obj is None:
            return None
        o = state.obj(p.obj)
        if not o.segs:
            return None
        c = sx(p.off.c, 64)
        if not p.off.t:
            for s in o.segs:
                n = s.len.const()
                if c >= s.off and (n is None or c < s.off + n):
                    return o, s
            # one-past-the-end pointers
            for s in o.segs:
                n = s.len.const()
                if n is not None and c == s.off + n and (o.size is None or lin(o.size).const() == c):
                    return o, s
            return None
        if len(o.segs) == 1 and o.segs[0].off == 0:
            return o, o.segs[0]
        for s in o.segs:
            n = s.len.const()
            if c >= s.off and (n is None or c <= s.off + n):
                return o, s
        if len(o.segs) == 1:
            return o, o.segs[0]
        return None

    def check_ptr(self, state, p, size, what):
        if isinstance(p, (Fn, PI)) or not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        if p.obj is None:
            self.prove(state, False, 'memory', 'null pointer dereference')
            raise PathEnd()
        o = state.obj(p.obj)
        if not o.alive:
            self.prove(state, False, 'memory', what + ' of freed object ' + o.name)
        return o

    def bounds(self, state, o, s, rel, size, what):
        # rel: Lin offset from segment start; size: Lin
        if s is not None:
            ln = s.len
        else:
            ln = o.size
        if ln is None:
            return
        end = ln.sub(size)
        if size.const() is not None and ln.const() is not None:
            if ln.const() < size.const():
                c = False
            else:
                c = lin_ule(rel, end)
        else:
            # the quantities are assumed/proved < 2^63 individually
            c = b_and(lin_ule(size, ln), lin_ule(rel, end))
        self.prove(state, c, 'bounds', '%s within %s' % (what, o.name))

    def load(self, state, p, size, ty=None):
        o = self.check_ptr(state, p, size, 'read')
        if o.kind == 'vtable':
            return self.load_vtable(state, o, p, size)
        fs = self.find_seg(state, p)
        if fs:
            o, s = fs
            return self.seg_load(state, o, s, p, size, ty)
        c = p.off.const()
        if c is None:
            return self.load_sym(state, o, p, size, ty)
        c = sx(c, 64)
        self.bounds(state, o, None, Lin(c), Lin(size), 'read')
        return self.cell_load(state, o, c, size, ty)

    def cell_load(self, state, o, c, size, ty):
        e = o.cells.get(c)
        if e is not None and e[0] == size:
            return self.conv(e[1], size, ty)
        # covering / tiling
        for off, (sz, v) in o.cells.items():
            if off <= c and c + size <= off + sz:
                if isinstance(v, (Ptr, Fn, PI)):
                    raise Unsupported('partial read of a pointer')
                if v is UNDEF:
                    return self.conv(fresh('undef', size * 8), size, ty)
                x = bv(v, sz * 8)
                lo = (c - off) * 8
                return self.conv(simp(z3.Extract(lo + size * 8 - 1, lo, x)), size, ty)
        parts = [(off, sz, v) for off, (sz, v) in o.cells.items() if off < c + size and off + sz > c]
        if not parts:
            v = self.materialize(state, o, c, size, ty)
            o2 = state.wobj(o.id)
            o2.cells[c] = (size, v)
            return self.conv(v, size, ty)
        # byte-wise
        if all(v is UNDEF for _, _, v in parts):
            return self.conv(fresh('undef', size * 8), size, ty)
        bs = []
        for k in range(size):
            bs.append(self.byte_at(state, state.obj(o.id), c + k))
        return self.conv(self.cat(bs), size, ty)

    def byte_at(self, state, o, c):
        for off, (sz, v) in o.cells.items():
            if off <= c < off + sz:
                if isinstance(v, (Ptr, Fn, PI)):
                    raise Unsupported('byte of a pointer')
                if v is UNDEF:
                    return fresh('undef', 8)
                if isinstance(v, int):
                    return (v >> ((c - off) * 8)) & 255
                x = bv(v, sz * 8)
                lo = (c - off) * 8
                return z3.Extract(lo + 7, lo, x)
        v = self.materialize(state, o, c, 1, 'i8')
        o2 = state.wobj(o.id)
        o2.cells[c] = (1, v)
        return fresh('undef', 8) if v is UNDEF else v

    @staticmethod
    def cat(bs):
        if all(isinstance(b, int) for b in bs):
            r = 0
            for k, b in enumerate(bs):
                r |= b << (8 * k)
            return r
        if len(bs) == 1:
            return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def conv(self, v, size, ty):
        """memory value -> value of IR type"""
        if ty is None or v is UNDEF:
            return v
        if ty == 'ptr':
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, PI):
                return v.p
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, Lin(v))
            s = simp(v)
            if isinstance(s, int):
                return NULL if s == 0 else Ptr(None, Lin(s))
            raise Unsupported('integer read as pointer')
        if isinstance(ty, str) and ty[0] == 'i':
            if isinstance(v, Ptr):
                if v.obj is None:
                    return v.off.val()
                return PI(v)
            w = int(ty[1:])
            if w == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if z3.is_bool(v):
                    return v
                return simp(z3.Extract(0, 0, v) == 1)
            if z3.is_expr(v) and z3.is_bool(v):
                return bv(v, w)
            if z3.is_expr(v) and v.size() != w:
                return simp(z3.Extract(w - 1, 0, v)) if v.size() > w else simp(z3.ZeroExt(w - v.size(), v))
        return v

    def materialize(self, state, o, c, size, ty):
        """initial contents of a cell that was never written (the same value on
        every path)"""
        if o.kind == 'global':
            k = ('g', o.id, c, size)
            if k not in self.init_cells:
                self.init_cells[k] = self.global_cell(state, o, c, size)
            return self.init_cells[k]
        if not o.sym:
            return UNDEF
        k = (o.id, c, size)
        if k in self.init_cells:
            v, facts = self.init_cells[k]
            for f in facts:
                state.assume(f)
            return v
        before = set(state.mem)
        n = len(state.pc)
        v = self.materialize1(state, o, c, size, ty)
        for i in state.mem:
            if i not in before:
                state.mem[i].owner = None
                self.base_mem[i] = state.mem[i]
        self.init_cells[k] = (v, list(state.pc[n:]))
        return v

    def materialize1(self, state, o, c, size, ty):
        leaf = None
        if o.cls:
            for off, sz, t, path in self.M.leaves(o.cls) or []:
                if off <= c < off + sz:
                    leaf = (off, sz, t, path)
                    break
        nm = o.name + ('.' + leaf[3] if leaf else '@%d' % c)
        if leaf:
            off, sz, t, path = leaf
            if self.leaf_hook:
                h = self.leaf_hook(state, o, off, sz, t, path)
                if h is not None:
                    # hook filled cells
                    e = state.obj(o.id).cells.get(c)
                    if e is not None:
                        return e[1]
                    return h
            if path.startswith('_vptr$') or path.split('.')[-1].startswith('_vptr$'):
                return self.make_vptr(state, o, off)
            if off == c and sz == size and (t.endswith('*') or t.endswith('&')):
                base = t.rstrip('&*')
                if t.endswith('**') or base in ('void',):
                    raise Unsupported('symbolic pointer of type ' + t)
                if base in ('char', 'unsigned char'):
                    raise Unsupported('symbolic char pointer ' + nm)
                return state.sym(base, nm)
            if t.startswith('std::__cxx11::basic_string') or t.startswith('std::vector<'):
                self.make_container(state, o, off, t, nm)
                for k3 in (0, 8, 16):
                    ee = state.obj(o.id).cells.get(off + k3)
                    self.init_cells[(o.id, off + k3, 8)] = (ee[1], [])
                e = state.obj(o.id).cells.get(c)
                if e and e[0] == size:
                    return e[1]
                raise Unsupported('container internals')
            if t == 'bool' and size == 1:
                b = z3.BitVec(fresh_name(nm), 8)
                state.assume(z3.ULE(b, 1))
                self.inputs[nm] = b
                return b
        if ty == 'ptr':
            if o.meta and 'elem_ptr' in o.meta:
                return o.meta['elem_ptr'](state, o, c)
            raise Unsupported('symbolic pointer %s' % nm)
        v = fresh(nm, size * 8)
        self.inputs[nm] = v
        return v

    def make_container(self, state, o, off, t, nm):
        n = fresh(nm + '.size', 64)
        self.inputs[nm + '.size'] = n
        o2 = state.wobj(o.id)
        if t.startswith('std::__cxx11::basic_string'):
            state.assume(z3.ULT(n, 1 << 62))
            h = state.bytes_obj(nm + '.data', lin(n).add(Lin(1)))
            state.assume(simp(h.segs[0].fields[(0, 1)].sel(lin(n)) == 0))
            o2.cells[off] = (8, Ptr(h.id, 0))
            o2.cells[off + 8] = (8, n)
            o2.cells[off + 16] = (8, fresh(nm + '.cap', 64))
        else:
            ti = self.M.types.get(t)
            if not ti or not ti['tparams'] or not ti['tparams'][0]['size']:
                raise Unsupported('element size of ' + t)
            S = ti['tparams'][0]['size']
            cap = fresh(nm + '.cap', 64)
            state.assume(z3.ULE(n, cap))
            state.assume(z3.ULT(cap, (1 << 62) // S))
            ln = lin(n).scale(S)
            h = state.new_obj(nm + '.data', ln)
            sg = Seg(0, ln, S)
            h.segs.append(sg)
            h.meta = {'elem': ti['tparams'][0]['type'], 'name': nm}
            o2.cells[off] = (8, Ptr(h.id, 0))
            o2.cells[off + 8] = (8, Ptr(h.id, ln))
            o2.cells[off + 16] = (8, Ptr(h.id, lin(cap).scale(S)))

    def load_sym(self, state, o, p, size, ty):
        """symbolic offset into a cell region: enumerate feasible offsets"""
        vals = self.enum_values(state, p.off, 16)
        if vals is None and o.size is not None and o.size.const() is not None and o.size.const() <= 256:
            # the access must be inside the object: then there are few offsets
            self.prove(state, lin_ule(p.off, Lin(o.size.const() - size)) if o.size.const() >= size else False, 'bounds', 'access within ' + o.name)
            vals = self.enum_values(state, p.off, 64)
        if vals is None:
            raise Unsupported('symbolic offset into %s' % o.name)
        res = []
        for v in vals:
            self.bounds_c(state, o, p, v, size)
            res.append((v, self.cell_load(state, state.obj(o.id), sx(v, 64), size, ty)))
        if all(isinstance(r, (int,)) or z3.is_expr(r) for _, r in res) and ty != 'ptr':
            x = res[-1][1]
            isb = isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x))
            for v, r in reversed(res[:-1]):
                c = lin_eq(p.off, Lin(v))
                if isb:
                    x = z3.If(c, r, x)
                else:
                    x = ite(c, r, x, size * 8 if not isinstance(ty, str) or ty[0] != 'i' else ty_w(ty))
            return x
        raise ForkOn(p.off, [v for v, _ in res])

    def bounds_c(self, state, o, p, v, size):
        if o.size is None or o.size.const() is None:
            return
        ok = 0 <= sx(v, 64) and sx(v, 64) + size <= o.size.const()
        if not ok:
            self.prove(state, b_not(lin_eq(p.off, Lin(v))), 'bounds', 'access within ' + o.name)

    def enum_values(self, state, l, limit):
        e = l.bv()
        out = []
        excl = []
        while len(out) <= limit:
            r, m = self.solve(state, excl)
            if r is None:
                return None
            if not r:
                return out
            v = m.eval(e, model_completion=True).as_long()
            out.append(v)
            excl.append(e != v)
        return None

    # segments
    def seg_init(self, state, o, s, f):
        a = s.fields.get(f)
        if a is None:
            # maybe byte view requested on wider-element segment or the reverse
            others = [k for k in s.fields if not (k[0] + k[1] <= f[0] or f[0] + f[1] <= k[0])]
            if others:
                return None
            o2 = state.wobj(o.id)
            for s2 in o2.segs:
                if s2.off == s.off:
                    if o.kind == 'global':
                        a = self.global_seg(o)
                    else:
                        a = Base('%s[%d:%d]' % (o.name, f[0], f[1]), f[1] * 8)
                    s2.fields[f] = a
        return a

    def seg_index(self, state, s, rel):
        """rel Lin -> (index Lin, offset in element)"""
        st = s.stride
        if st == 1:
            return rel, 0
        r = rel.c % st if sx(rel.c, 64) >= 0 else sx(rel.c, 64) % st
        l2 = rel.sub(Lin(r))
        if not l2.divides(st):
            raise Unsupported('unaligned index into array of stride %d' % st)
        return l2.div(st), r

    def set_stride(self, state, o, s, p, size):
        if s.stride is None:
            ks = [sx(k, 64) for _, _, k in p.off.t]
            st = ks[0] if ks else size
            o = state.wobj(o.id)
            for s2 in o.segs:
                if s2.off == s.off:
                    s2.stride = abs(st)
                    return o, s2
        return o, s

    def seg_load(self, state, o, s, p, size, ty):
        o, s = self.set_stride(state, o, s, p, size)
        rel = p.off.sub(Lin(s.off))
        self.bounds(state, o, s, rel, Lin(size), 'read')
        i, f = self.seg_index(state, s, rel)
        if (f, size) in s.fields:
            return self.conv_elem(state, s.fields[(f, size)], i, size, ty)
        if s.stride == 1:
            a = self.seg_init(state, o, s, (0, 1))
            bs = [a.sel(i.add(Lin(k))) for k in range(size)]
            return self.conv(self.cat(bs), size, ty)
        if ty == 'ptr':
            if o.meta and 'elem_ptr' in o.meta:
                return o.meta['elem_ptr'](state, o, i, f)
            raise Unsupported('pointer element of %s' % o.name)
        # inside one field?
        for (fo, fw), a in s.fields.items():
            if fo <= f and f + size <= fo + fw:
                v = bv(a.sel(i), fw * 8)
                lo = (f - fo) * 8
                return self.conv(simp(z3.Extract(lo + size * 8 - 1, lo, v)), size, ty)
        a = self.seg_init(state, o, s, (f, size))
        if a is None:
            # several narrower fields
            bs = []
            for k in range(size):
                for (fo, fw), ar in s.fields.items():
                    if fo <= f + k < fo + fw:
                        v = bv(ar.sel(i), fw * 8)
                        lo = (f + k - fo) * 8
                        bs.append(z3.Extract(lo + 7, lo, v))
                        break
                else:
                    raise Unsupported('mixed widths in array of ' + o.name)
            return self.conv(self.cat(bs), size, ty)
        return self.conv_elem(state, a, i, size, ty)

    def conv_elem(self, state, a, i, size, ty):
        return self.conv(a.sel(i), size, ty)

    def seg_store(self, state, o, s, p, size, v):
        o, s = self.set_stride(state, o, s, p, size)
        rel = p.off.sub(Lin(s.off))
        self.bounds(state, o, s, rel, Lin(size), 'write')
        i, f = self.seg_index(state, s, rel)
        o = state.wobj(o.id)
        s = [x for x in o.segs if x.off == s.off][0]
        if isinstance(v, (Ptr, Fn, PI)):
            raise Unsupported('pointer stored into array of ' + o.name)
        if v is UNDEF:
            v = fresh('undef', size * 8)
        if s.stride == 1:
            a = self.seg_init(state, o, s, (0, 1))
            o = state.wobj(o.id)
            s = [x for x in o.segs if x.off == s.off][0]
            for k in range(size):
                b = ((v >> (8 * k)) & 255) if isinstance(v, int) else (v if size == 1 else z3.Extract(8 * k + 7, 8 * k, v))
                a = Store(a, i.add(Lin(k)), b)
            s.fields[(0, 1)] = a
            return
        if (f, size) not in s.fields:
            for (fo, fw), a in list(s.fields.items()):
                if fo <= f and f + size <= fo + fw:
                    old = bv(a.sel(i), fw * 8)
                    lo = (f - fo) * 8
                    parts = []
                    if lo + size * 8 < fw * 8:
                        parts.append(z3.Extract(fw * 8 - 1, lo + size * 8, old))
                    parts.append(bv(v, size * 8))
                    if lo:
                        parts.append(z3.Extract(lo - 1, 0, old))
                    s.fields[(fo, fw)] = Store(a, i, simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0])
                    return
            if self.seg_init(state, o, s, (f, size)) is None:
                raise Unsupported('mixed widths in array of ' + o.name)
            o = state.wobj(o.id)
            s = [x for x in o.segs if x.off == s.off][0]
        s.fields[(f, size)] = Store(s.fields[(f, size)], i, v)

    def store(self, state, p, size, v):
        o = self.check_ptr(state, p, size, 'write')
        if o.const:
            self.prove(state, False, 'memory', 'write to constant ' + o.name)
        fs = self.find_seg(state, p)
        if fs:
            return self.seg_store(state, fs[0], fs[1], p, size, v)
        c = p.off.const()
        if c is None:
            vals = self.enum_values(state, p.off, 16)
            if vals is None:
                raise Unsupported('symbolic offset into %s' % o.name)
            if len(vals) == 1:
                c = vals[0]
            else:
                raise ForkOn(p.off, vals)
        c = sx(c, 64)
        self.bounds(state, o, None, Lin(c), Lin(size), 'write')
        self.cell_store(state, o, c, size, v)

    def cell_store(self, state, o, c, size, v):
        o = state.wobj(o.id)
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            v = int(v) if isinstance(v, bool) else bv(v, size * 8)
        if c in o.cells and o.cells[c][0] == size:
            o.cells[c] = (size, v)
            return
        for off in [k for k, (sz, _) in o.cells.items() if k < c + size and k + sz > c]:
            sz, old = o.cells[off]
            if c <= off and off + sz <= c + size:
                del o.cells[off]
                continue
            if isinstance(old, (Ptr, Fn, PI)):
                raise Unsupported('partial overwrite of a pointer')
            del o.cells[off]
            if old is UNDEF:
                continue
            x = bv(old, sz * 8)
            for k in range(sz):
                if not (c <= off + k < c + size):
                    o.cells[off + k] = (1, simp(z3.Extract(8 * k + 7, 8 * k, x)))
        o.cells[c] = (size, v)

    # bytes
    def read_byte_array(self, state, p, n, what='read'):
        """(Arr, start index) for n bytes at p (byte segment), with the bounds
        obligation; cells are converted"""
        if isinstance(p, Ptr) and n.const() == 0:
            return Fill(0), Lin(0)
        o = self.check_ptr(state, p, None, what)
        fs = self.find_seg(state, p)
        if fs:
            o, s = fs
            if s.stride is None:
                o = state.wobj(o.id)
                s = [x for x in o.segs if x.off == s.off][0]
                s.stride = 1
            rel = p.off.sub(Lin(s.off))
            self.bounds(state, o, s, rel, n, what)
            if s.stride == 1:
                return self.seg_init(state, o, s, (0, 1)), rel
            if list(s.fields.keys()) in ([(0, s.stride)], []):
                self.seg_init(state, o, s, (0, s.stride))
                s = [x for x in state.obj(o.id).segs if x.off == s.off][0]
                return Bytes(s.fields[(0, s.stride)], s.stride), rel
            raise Unsupported('byte view of a structured array')
        c = p.off.const()
        if c is None:
            vals = self.enum_values(state, p.off, 16)
            if vals is None:
                raise Unsupported('byte copy at symbolic offset of cells')
            if len(vals) > 1:
                raise ForkOn(p.off, vals)
            c = vals[0]
        c = sx(c, 64)
        self.bounds(state, o, None, Lin(c), n, what)
        lim = n.const()
        if lim is None:
            lim = o.size.const() - c if o.size is not None and o.size.const() is not None else None
            if lim is None or lim > 256:
                raise Unsupported('symbolic byte count over cells')
        bs = []
        for k in range(lim):
            bs.append(self.byte_at(state, state.obj(o.id), c + k))
        return Cells(bs), Lin(0)

    def write_bytes(self, state, p, n, src, soff, what='write'):
        """mem[p .. p+n) := src[soff ..]"""
        if isinstance(p, Ptr) and n.const() == 0:
            return
        o = self.check_ptr(state, p, None, what)
        if o.const:
            self.prove(state, False, 'memory', 'write to constant ' + o.name)
        fs = self.find_seg(state, p)
        if fs:
            o, s = fs
            if s.stride is None:
                o = state.wobj(o.id)
                s = [x for x in o.segs if x.off == s.off][0]
                s.stride = 1
            rel = p.off.sub(Lin(s.off))
            self.bounds(state, o, s, rel, n, what)
            if s.stride != 1:
                # convert the whole segment to bytes when it has one field
                if list(s.fields.keys()) in ([(0, s.stride)], []):
                    self.seg_init(state, o, s, (0, s.stride))
                    o = state.wobj(o.id)
                    s = [x for x in o.segs if x.off == s.off][0]
                    s.fields = {(0, 1): Bytes(s.fields[(0, s.stride)], s.stride)}
                    s.stride = 1
                else:
                    raise Unsupported('bytes into a structured array')
            a = self.seg_init(state, o, s, (0, 1))
            o = state.wobj(o.id)
            s = [x for x in o.segs if x.off == s.off][0]
            nc = n.const()
            if nc is not None and nc <= 16:
                vs = [src.sel(soff.add(Lin(k))) for k in range(nc)]
                for k in range(nc):
                    a = Store(a, rel.add(Lin(k)), vs[k])
                s.fields[(0, 1)] = a
            else:
                s.fields[(0, 1)] = Copy(a, rel, n, src, soff)
            return
        c = p.off.const()
        if c is None:
            vals = self.enum_values(state, p.off, 16)
            if vals is None:
                raise Unsupported('byte copy at symbolic offset of cells')
            if len(vals) > 1:
                raise ForkOn(p.off, vals)
            c = vals[0]
        c = sx(c, 64)
        self.bounds(state, o, None, Lin(c), n, what)
        nc = n.const()
        if nc is not None:
            if nc > 512:
                raise Unsupported('large byte copy into cells')
            k = 0
            while k < nc:
                ch = 8 if nc - k >= 8 and (c + k) % 4 == 0 else (4 if nc - k >= 4 and (c + k) % 4 == 0 else 1)
                e = state.obj(o.id).cells.get(c + k)
                if e is not None and e[0] <= nc - k:
                    ch = e[0]
                v = self.cat([src.sel(soff.add(Lin(k + j))) for j in range(ch)])
                self.cell_store(state, o, c + k, ch, v)
                k += ch
            return
        if o.size is None or o.size.const() is None:
            raise Unsupported('symbolic byte count into cells')
        lim = o.size.const() - c
        if lim > 128:
            raise Unsupported('symbolic byte count into cells')
        k = 0
        while k < lim:
            ch = min(8, lim - k)
            e = state.obj(o.id).cells.get(c + k)
            if e is not None:
                ch = e[0]
                if isinstance(e[1], (Ptr, Fn, PI)):
                    raise Unsupported('bytes over a pointer')
            old = [self.byte_at(state, state.obj(o.id), c + k + j) for j in range(ch)]
            v = self.cat([ite(lin_ult(Lin(k + j), n), src.sel(soff.add(Lin(k + j))), old[j], 8) for j in range(ch)])
            self.cell_store(state, o, c + k, ch, v)
            k += ch

    def copy_bytes(self, state, d, s, n):
        nc = n.const()
        if nc == 0:
            return
        if nc == 8 and isinstance(s, Ptr) and isinstance(d, Ptr) and s.obj is not None:
            mt = state.obj(s.obj).meta
            if mt and 'elem_ptr' in mt:
                # an array of pointers
                self.store(state, d, 8, self.load(state, s, 8, 'ptr'))
                return
        # one whole array element
        if nc in (2, 4, 8) and isinstance(s, Ptr) and isinstance(d, Ptr) and s.obj is not None and d.obj is not None:
            def elem(q):
                g = self.find_seg(state, q)
                if not g:
                    return None
                o, sg = g
                return sg.stride == nc and (0, nc) in sg.fields and q.off.sub(Lin(sg.off)).divides(nc)
            es, ed = elem(s), elem(d)
            if es and ed is not False or ed and es is None:
                self.store(state, d, nc, self.load(state, s, nc))
                return
        # structure-preserving copy between cell regions
        if nc is not None and nc <= 512 and isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj is not None and s.obj is not None:
            if not self.find_seg(state, d) and not self.find_seg(state, s) and d.off.const() is not None and s.off.const() is not None:
                so = self.check_ptr(state, s, nc, 'read')
                self.bounds(state, so, None, s.off, n, 'read')
                do = self.check_ptr(state, d, nc, 'write')
                self.bounds(state, do, None, d.off, n, 'write')
                sc, dc = sx(s.off.c, 64), sx(d.off.c, 64)
                # materialise unknown source cells by leaf
                covered = set()
                for off, (sz, v) in so.cells.items():
                    covered.update(range(off, off + sz))
                if so.kind == 'global':
                    for off, (sz, v) in sorted((self.ginit(so) or {}).items()):
                        if sc <= off and off + sz <= sc + nc and off not in covered and not isinstance(v, int):
                            self.load(state, Ptr(s.obj, off), sz)
                if so.sym and so.cls:
                    for off, sz, t, path in self.M.leaves(so.cls) or []:
                        if sc <= off and off + sz <= sc + nc and off not in covered and sz in (1, 2, 4, 8):
                            self.load(state, Ptr(s.obj, off), sz, self.di_ir_type(t, sz))
                so = state.obj(so.id)
                items = [(off, sz, v) for off, (sz, v) in so.cells.items() if off < sc + nc and off + sz > sc]
                if all(off >= sc and off + sz <= sc + nc for off, sz, v in items):
                    # bytes of the source without a cell
                    have = set()
                    for off, sz, v in items:
                        have.update(range(off, off + sz))
                    runs, k = [], sc
                    while k < sc + nc:
                        if k in have:
                            k += 1
                            continue
                        j = k
                        while j < sc + nc and j not in have:
                            j += 1
                        runs.append((k, j))
                        k = j
                    for k, j in runs:
                        if so.kind != 'global' and not so.sym:
                            items.append((k, j - k, UNDEF))
                            continue
                        while k < j:
                            ch = 8 if j - k >= 8 and k % 8 == 0 else 4 if j - k >= 4 and k % 4 == 0 else 1
                            items.append((k, ch, self.load(state, Ptr(s.obj, k), ch)))
                            k += ch
                    do = state.obj(do.id)
                    for off, sz, v in sorted(items, key=lambda x: x[0]):
                        self.cell_store(state, do, dc + off - sc, sz, v)
                    return
        # whole elements between arrays of the same element width
        if nc is None and isinstance(s, Ptr) and isinstance(d, Ptr) and s.obj is not None and d.obj is not None:
            gs, gd = self.find_seg(state, s), self.find_seg(state, d)
            if gs and gd and gs[1].stride == gd[1].stride and gs[1].stride in (2, 4, 8):
                st = gs[1].stride
                rs, rd = s.off.sub(Lin(gs[1].off)), d.off.sub(Lin(gd[1].off))
                if set(gs[1].fields) == set(gd[1].fields) == {(0, st)} and n.divides(st) and rs.divides(st) and rd.divides(st):
                    so = self.check_ptr(state, s, None, 'read')
                    self.bounds(state, so, gs[1], rs, n, 'read')
                    do = self.check_ptr(state, d, None, 'write')
                    self.bounds(state, do, gd[1], rd, n, 'write')
                    do = state.wobj(d.obj)
                    sg = [x for x in do.segs if x.off == gd[1].off][0]
                    sg.fields[(0, st)] = Copy(sg.fields[(0, st)], rd.div(st), n.div(st), gs[1].fields[(0, st)], rs.div(st))
                    return
        a, i = self.read_byte_array(state, s, n)
        self.write_bytes(state, d, n, a, i)

    # ---------------------------------------------------------- globals
    def global_ptr(self, state, name):
        g = self.M.globals.get(name)
        if name not in self.gobj:
            self.nobj += 1
            o = Obj(self.nobj, '@' + name, Lin(g['size']) if g and g['size'] else None, 'global')
            o.meta = {'g': name}
            o.const = bool(g and g.get('const'))
            if g and g['ty'] and isinstance(g['ty'], dict):
                o.segs = [s for s in self.ir_segs(g['ty'])]
                if 'a' in g['ty'] and g['ty']['a'] == 'i8' and not o.segs:
                    o.segs = [Seg(0, Lin(g['size']), 1)]
            if o.const and g.get('init') and not o.segs and g['size'] > 8:
                # a table of bytes in several parts
                try:
                    if all(sz == 1 and (isinstance(v, int) or v[0] == 'i') for sz, v in (self.ginit(o) or {0: (0, 0)}).values()):
                        o.segs = [Seg(0, Lin(g['size']), 1)]
                except Exception:
                    pass
            self.base_mem[o.id] = o
            self.gobj[name] = o.id
        return Ptr(self.gobj[name], 0)

    def flatten_const(self, c, ty, base, out):
        k = c[0]
        if k == 'agg':
            t = c[2]
            if isinstance(t, dict) and 'a' in t:
                for i, e in enumerate(c[1]):
                    self.flatten_const(e, t['a'], base + i * t['es'], out)
            else:
                for e, f, o in zip(c[1], t['s'], t['o']):
                    self.flatten_const(e, f, base + o, out)
        elif k in ('zero', 'undef'):
            n = ty_size(c[1])
            for j in range(n):
                out[base + j] = (1, 0)
        else:
            sz = {'i': lambda: (c[1] + 7) // 8, 'fp': lambda: ty_size(c[1])}.get(k, lambda: 8)()
            out[base] = (sz, c)

    def ginit(self, o):
        m = o.meta
        if 'flat' not in m:
            g = self.M.globals[m['g']]
            out = {}
            if 'init' in g:
                self.flatten_const(g['init'], g['ty'], 0, out)
            else:
                out = None
            m['flat'] = out
        return m['flat']

    def global_cell(self, state, o, c, size):
        fl = self.ginit(o)
        if fl is None:
            n = o.name[1:]
            if self.M.globals.get(n, {}).get('const') is False or True:
                return fresh('extern.' + n, size * 8)
        if not o.const and not self.M.globals[o.meta['g']].get('const'):
            # mutable global: unknown value unless written on this path
            return fresh('global.' + o.meta['g'], size * 8)
        e = fl.get(c)
        if e is None:
            # part of something bigger
            for off, (sz, v) in fl.items():
                if off <= c < off + sz and not isinstance(v, int) and v[0] == 'i':
                    return (int(v[2]) >> ((c - off) * 8)) & mask(size * 8)
            return 0
        sz, v = e
        if isinstance(v, int):
            r = 0
            for k in range(size):
                x = fl.get(c + k)
                if x and not isinstance(x[1], int):
                    raise Unsupported('mixed global init')
                r |= (x[1] if x else 0) << (8 * k)
            return r
        if sz != size:
            if v[0] == 'i' and size < sz:
                return int(v[2]) & mask(size * 8)
            r = 0
            for k in range(size):
                x = self.gbyte(fl, c + k)
                r |= x << (8 * k)
            return r
        return self.operand(state, None, v)

    def gbyte(self, fl, c):
        for b in range(8):
            e = fl.get(c - b)
            if e and e[0] > b:
                v = e[1]
                if isinstance(v, int):
                    return v
                if v[0] in ('i', 'fp'):
                    return (int(v[2]) >> (8 * b)) & 255
                raise Unsupported('pointer byte in global')
        return 0

    def global_seg(self, o):
        fl = self.ginit(o)
        if fl is None:
            return Base(o.name, 8)
        n = o.size.const()
        if o.segs[0].stride == 1:
            return ConstArr(bytes(self.gbyte(fl, k) for k in range(n)))
        st = o.segs[0].stride
        vals = []
        for k in range(n // st):
            r = 0
            for j in range(st):
                r |= self.gbyte(fl, k * st + j) << (8 * j)
            vals.append(r)
        return ConstVals(vals, st * 8)

    def cstring(self, state, p):
        """python bytes of a constant C string, or None"""
        if not isinstance(p, Ptr) or p.obj is None or p.off.const() is None:
            return None
        o = state.obj(p.obj)
        if o.kind != 'global':
            return None
        fl = self.ginit(o)
        if fl is None:
            return None
        r = bytearray()
        c = p.off.const()
        while c < o.size.const():
            b = self.gbyte(fl, c)
            if b == 0:
                return bytes(r)
            r.append(b)
            c += 1
        return None

    # ---------------------------------------------------------- vtables
    def make_vptr(self, state, o, off):
        cls = o.cls
        if o.meta and o.meta.get('exact'):
            vt = '_ZTV' + mangle_cls(cls)
            g = self.M.globals.get(vt)
            if g and 'init' in g:
                # find the address point whose offset-to-top is -off
                pos = 0
                arrs = g['init'][1] if g['init'][0] == 'agg' else None
                offs = g['init'][2]['o'] if 'o' in g['init'][2] else [0]
                for a, ao in zip(arrs, offs):
                    top = 0
                    e0 = a[1][0]
                    if e0[0] == 'ce' and e0[1] == 'inttoptr':
                        top = sx(int(e0[2][0][2]), 64)
                    if -top == off:
                        gp = self.global_ptr(state, vt)
                        return Ptr(gp.obj, Lin(ao + 16))
            raise Unsupported('vtable of ' + cls)
        # static class of the sub-object holding this vptr
        sub = self.subobject_class(cls, off)
        v = state.new_obj('vtable:' + sub, None, 'vtable')
        v.cls = sub
        return Ptr(v.id, 0)

    def subobject_class(self, cls, off):
        t = self.M.types.get(cls)
        if t and off != 0:
            for b in t['bases']:
                sz = self.M.types.get(b['type'], {}).get('size', 0)
                if b['off'] <= off < b['off'] + sz:
                    return self.subobject_class(b['type'], off - b['off'])
            for m in t['members']:
                sz = m.get('size', 0)
                if 'off' in m and m['off'] <= off < m['off'] + sz:
                    return self.subobject_class(m['type'], off - m['off'])
        return cls

    def load_vtable(self, state, o, p, size):
        c = p.off.const()
        if c is None:
            raise Unsupported('symbolic vtable slot')
        slots = self.M.vslots(o.cls)
        s = sx(c, 64) // 8
        if s in slots:
            return Fn('iface:%s::%s:%s' % (o.cls, slots[s][0], slots[s][1]))
        if sx(c, 64) == -16:
            return 0
        d = self.M.dtor_slots(o.cls)
        if d and s not in d:
            raise Unsupported('virtual function %d of %s' % (s, o.cls))
        return Fn('iface:%s::~dtor:' % o.cls)

    # ---------------------------------------------------------- operands
    def operand(self, state, fr, op):
        k = op[0]
        if k == 'r':
            return fr.regs[op[1]]
        if k == 'i':
            v = int(op[2])
            if op[1] == 1:
                return bool(v & 1)
            return v
        if k == 'null':
            return NULL
        if k == 'f':
            return Fn(op[1])
        if k == 'g':
            return self.global_ptr(state, op[1])
        if k == 'gep':
            p = self.operand(state, fr, op[1])
            return p.add(Lin(op[2]))
        if k == 'fp':
            return int(op[2])
        if k == 'zero':
            return self.zero(op[1])
        if k == 'undef':
            if isinstance(op[1], dict) and 's' in op[1]:
                return [UNDEF] * len(op[1]['s'])
            return UNDEF
        if k == 'agg':
            return [self.operand(state, fr, e) for e in op[1]]
        if k == 'ce':
            return self.constexpr(state, fr, op)
        if k == 'md':
            return None
        raise Unsupported('operand %s' % (op,))

    def zero(self, ty):
        if ty == 'ptr':
            return NULL
        if isinstance(ty, str):
            return False if ty == 'i1' else 0
        if 's' in ty:
            return [self.zero(t) for t in ty['s']]
        raise Unsupported('zero of %s' % (ty,))

    def constexpr(self, state, fr, op):
        o = op[1]
        a = [self.operand(state, fr, x) for x in op[2]]
        if o == 'ptrtoint':
            return PI(a[0])
        if o == 'inttoptr':
            if isinstance(a[0], PI):
                return a[0].p
            return Ptr(None, Lin(a[0]))
        if o == 'sub':
            return self.arith(state, 'sub', a[0], a[1], ty_w(op[3]))
        if o == 'trunc' and isinstance(a[0], int):
            return a[0] & mask(ty_w(op[3]))
        raise Unsupported('constant expression ' + o)

    # ---------------------------------------------------------- arithmetic
    def arith(self, state, op, a, b, w):
        if a is UNDEF:
            a = fresh('undef', w)
        if b is UNDEF:
            b = fresh('undef', w)
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if a.p.obj == b.p.obj:
                    return a.p.off.sub(b.p.off).val() if w == 64 else None
                raise Unsupported('difference of pointers to different objects')
            if op in ('add', 'sub') and isinstance(a, PI) and not isinstance(b, PI):
                l = lin(b)
                return PI(a.p.add(l if op == 'add' else Lin(0).sub(l)))
            if op == 'add' and isinstance(b, PI):
                return PI(b.p.add(lin(a)))
            raise Unsupported('pointer arithmetic ' + op)
        if w == 1:
            if op == 'and':
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op == 'xor':
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if b is True:
                    return b_not(a)
                if a is True:
                    return b_not(b)
                if b is False:
                    return a
                if a is False:
                    return b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, int) and isinstance(b, int):
            m = mask(w)
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sx(a, w) >> min(b, w - 1)) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.prove(state, False, 'arith', 'division by zero')
                    raise PathEnd()
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sx(a, w), sx(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q & m) if op == 'sdiv' else ((x - q * y) & m)
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if b == 0 and op in ('mul', 'and'):
                return 0
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('mul', 'and', 'shl', 'lshr', 'udiv', 'urem'):
                return 0
        if w == 64 and op in ('add', 'sub'):
            la, lb = lin(a), lin(b)
            return (la.add(lb) if op == 'add' else la.sub(lb)).val()
        if w == 64 and op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
            if isinstance(b, int):
                return lin(a).scale(b).val()
            return lin(b).scale(a).val()
        if w == 64 and op == 'shl' and isinstance(b, int):
            return lin(a).scale(1 << b).val()
        if w == 64 and isinstance(b, int) and op in ('sdiv', 'ashr', 'udiv', 'lshr'):
            s = b if op in ('sdiv', 'udiv') else (1 << b)
            la = lin(a)
            if la.t and la.divides(s) and self.exact_ok(state, la, s):
                return la.div(s).val()
        if w == 64 and isinstance(b, int) and b > 1 and op in ('udiv', 'urem') and not isinstance(a, int):
            # s*q + r with a constant 0 <= r < s and q non-negative and small
            la = lin(a)
            r = sx(la.c, 64) % b
            lb = la.sub(Lin(r))
            if lb.t and lb.divides(b):
                q = lb.div(b)
                c = z3.And(q.bv() >= 0, q.bv() < (1 << 62) // b)
                if self.solve(state, [z3.Not(c)], timeout=3000)[0] is False:
                    return q.val() if op == 'udiv' else r
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return x << y
        if op == 'lshr':
            return z3.LShR(x, y)
        if op == 'ashr':
            return x >> y
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.prove(state, y != 0, 'arith', 'divisor is not zero')
            if self.abstract_div and z3.is_bv_value(simp(y)) and not z3.is_bv_value(simp(x)):
                # the quotient is some value determined by the operands
                k = (op, simp(x).get_id(), simp(y).as_long())
                if k not in self.div_memo:
                    self.div_memo[k] = (fresh('quotient', w), x)
                return self.div_memo[k][0]
            if op == 'udiv':
                return z3.UDiv(x, y)
            if op == 'urem':
                return z3.URem(x, y)
            if op == 'sdiv':
                return x / y
            return z3.SRem(x, y)
        raise Unsupported('arith ' + op)

    def exact_ok(self, state, la, s):
        """la/s computed coefficient-wise is exact only if no wrap-around:
        require every atom*coef provably below 2^62 -- cheap check by solver,
        cached per state via pc length"""
        if s & (s - 1):
            pass
        # sizes of containers are assumed < 2^62 at creation; check with solver
        d = la.div(s)
        x = d.bv()
        lim = (1 << 62) // s
        c = z3.And(x < lim, x > -lim)
        if not hasattr(self, '_exact'):
            self._exact = {}
        key = (la.key(), s)
        if self._exact.get(key):
            return True
        if state.model is not None and not z3.is_true(state.model.eval(c, model_completion=True)):
            return False
        r, m = self.solve(state, [z3.Not(c)], timeout=3000)
        ok = (r is False)
        return ok

    def icmp(self, state, pred, a, b, oty):
        if oty == 'ptr' or isinstance(a, (Ptr, Fn, PI)) or isinstance(b, (Ptr, Fn, PI)):
            if isinstance(a, PI):
                a = a.p
            if isinstance(b, PI):
                b = b.p
            if isinstance(a, int) and not isinstance(a, bool):
                a = Ptr(None, Lin(a))
            if isinstance(b, int) and not isinstance(b, bool):
                b = Ptr(None, Lin(b))
            if a is UNDEF or b is UNDEF:
                return fresh_bool('undefcmp')
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn):
                    r = a.name == b.name
                else:
                    r = False
                if pred == 'eq':
                    return r
                if pred == 'ne':
                    return not r
                raise Unsupported('function pointer order')
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported('comparison of pointer with integer')
            if a.obj == b.obj:
                if pred == 'eq':
                    return lin_eq(a.off, b.off)
                if pred == 'ne':
                    return b_not(lin_eq(a.off, b.off))
                f = {'ult': lambda: lin_ult(a.off, b.off), 'ule': lambda: lin_ule(a.off, b.off),
                     'ugt': lambda: lin_ult(b.off, a.off), 'uge': lambda: lin_ule(b.off, a.off)}.get(pred)
                if f:
                    return f()
                raise Unsupported('pointer comparison ' + pred)
            if pred == 'eq':
                return self.alias(state, a, b)
            if pred == 'ne':
                return b_not(self.alias(state, a, b))
            # unspecified order between objects: both outcomes possible
            return fresh_bool('ptrorder')
        w = ty_w(oty)
        if a is UNDEF:
            a = fresh('undef', w) if w > 1 else fresh_bool('undef')
        if b is UNDEF:
            b = fresh('undef', w) if w > 1 else fresh_bool('undef')
        if w == 1:
            x = a if not isinstance(a, int) else bool(a)
            y = b if not isinstance(b, int) else bool(b)
            if pred == 'eq':
                if isinstance(x, bool) and isinstance(y, bool):
                    return x == y
                if y is True:
                    return x
                if y is False:
                    return b_not(x)
                return x == y
            if pred == 'ne':
                return self.icmp(state, 'eq', a, b_not(b) if not isinstance(b, int) else not b, oty)
            x, y = bv(a, 1), bv(b, 1)
            return {'ult': z3.ULT, 'ugt': z3.UGT, 'ule': z3.ULE, 'uge': z3.UGE}[pred](x, y)
        if isinstance(a, int) and isinstance(b, int):
            s, t = sx(a, w), sx(b, w)
            a &= mask(w)
            b &= mask(w)
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': s < t, 'sle': s <= t, 'sgt': s > t, 'sge': s >= t}[pred]
        x, y = bv(a, w), bv(b, w)
        if pred in ('eq', 'ne') and w == 64:
            r = lin_eq(lin(a), lin(b))
            return r if pred == 'eq' else b_not(r)
        if x.eq(y):
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()

    def alias(self, state, a, b):
        return False

    # ---------------------------------------------------------- running
    def call(self, state, fname, args):
        """run a function on a state; returns [(kind, state, value)] with kind
        'ret' or 'exc'"""
        f = self.M.functions[fname]
        base = len(state.frames)
        bar = Frame({'dem': '', 'blocks': []}, '')
        bar.block = None
        state.frames.append(bar)
        fr = Frame(f, fname)
        for k, a in enumerate(args):
            fr.regs[k] = a
        state.frames.append(fr)
        state.at_edge = True
        outs = []
        ctx = Ctx(base + 2, None, None)
        self.explore(state, ctx, outs)
        res = []
        for k, s in outs:
            assert len(s.frames) == base + 1
            s.frames.pop()
            s.at_edge = False
            if s.exc is not None and s.exc.get('unwinding'):
                e = s.exc
                s.exc = None
                res.append(('exc', s, e))
            else:
                res.append(('ret', s, s.retval))
        return res

    def explore(self, state, ctx, outs):
        work = [state]
        while work:
            if time.time() > self.deadline:
                raise Budget()
            s = work.pop()
            if ctx is not None and len(s.frames) < ctx.depth:
                outs.append(('exit', s))
                continue
            if not s.frames:
                outs.append(('exit', s))
                continue
            if s.at_edge:
                fr = s.frames[-1]
                if ctx is not None and ctx.header is not None and len(s.frames) == ctx.depth:
                    if fr.block == ctx.header:
                        outs.append(('back', s))
                        continue
                    if fr.block not in ctx.blocks:
                        outs.append(('exit', s))
                        continue
                loops = self.M.loops(fr.name)
                if fr.block in loops:
                    for e in self.handle_loop(s, fr.block, loops[fr.block]):
                        work.append(e)
                    continue
                self.enter_block(s)
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Unsupported('too many paths')
            try:
                r = self.run_block(s)
            except PathEnd:
                continue
            work.extend(r)

    def enter_block(self, s):
        """evaluate phis"""
        fr = s.frames[-1]
        blk = fr.fn['blocks'][fr.block]
        vals = []
        i = 0
        while i < len(blk) and blk[i]['op'] == 'phi':
            for op, b in blk[i]['ops']:
                if b == fr.prev:
                    vals.append((blk[i]['id'], self.operand(s, fr, op)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
            i += 1
        for k, v in vals:
            fr.regs[k] = v
        fr.idx = i
        s.at_edge = False

    def goto(self, s, b):
        fr = s.frames[-1]
        fr.prev = fr.block
        fr.block = b
        fr.idx = 0
        s.at_edge = True

    def run_block(self, s):
        """execute until a block edge or fork; returns successor states"""
        while True:
            fr = s.frames[-1]
            blk = fr.fn['blocks'][fr.block]
            ins = blk[fr.idx]
            try:
                r = self.step(s, fr, ins)
            except ForkOn as f:
                # case split on the value of an offset
                res = []
                for v in f.vals:
                    n = s.fork()
                    n.assume(lin_eq(f.off, Lin(v)))
                    self.subst_off(n, f.off, v)
                    res.append(n)
                return res
            if r is not None:
                return r

    def subst_off(self, s, off, v):
        """replace a pointer register whose offset equals `off` by a constant"""
        k = off.key()
        for fr in s.frames:
            for i, x in list(fr.regs.items()):
                if isinstance(x, Ptr) and x.off.key() == k:
                    fr.regs[i] = Ptr(x.obj, Lin(v))
                elif isinstance(x, Ptr) and x.off.t:
                    d = x.off.sub(off)
                    if not d.t:
                        fr.regs[i] = Ptr(x.obj, Lin(v).add(d))

    def branch(self, s, cond):
        """(can be true, can be false) with model caching"""
        if isinstance(cond, bool):
            return cond, not cond
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond, not cond
        self._lastm = None
        nt = z3.Not(cond)
        t = self.feasible(s, cond)
        mt = self._lastm
        self._lastm = None
        if not t:
            return False, True
        f = self.feasible(s, nt)
        mf = self._lastm
        self._models = (mt, mf)
        return True, f

    def split(self, s, cond):
        """list of (bool, state)"""
        self._models = (None, None)
        t, f = self.branch(s, cond)
        if isinstance(cond, bool):
            return [(cond, s)]
        if t and f:
            mt, mf = self._models
            n = s.fork()
            s.assume(cond)
            n.assume(z3.Not(cond))
            if s.model is None and mt is not None:
                s.model = mt
            if n.model is None and mf is not None:
                n.model = mf
            return [(True, s), (False, n)]
        if t:
            s.assume(cond)
            return [(True, s)]
        s.assume(b_not(cond))
        return [(False, s)]

    def step(self, s, fr, ins):
        op = ins['op']
        R = fr.regs
        if op == 'load':
            p = self.operand(s, fr, ins['ops'][0])
            ty = ins['ty']
            if isinstance(ty, dict):
                raise Unsupported('aggregate load')
            R[ins['id']] = self.load(s, p, ty_size(ty), ty)
        elif op == 'store':
            v = self.operand(s, fr, ins['ops'][0])
            p = self.operand(s, fr, ins['ops'][1])
            ty = ins['sty']
            if isinstance(ty, dict):
                if 's' in ty and isinstance(v, list):
                    for x, o, t in zip(v, ty['o'], ty['s']):
                        if x is not UNDEF:
                            self.store(s, p.add(Lin(o)), ty_size(t), x)
                else:
                    raise Unsupported('aggregate store')
            else:
                self.store(s, p, ty_size(ty), v)
        elif op == 'getelementptr':
            p = self.operand(s, fr, ins['ops'][0])
            if isinstance(p, PI):
                p = p.p
            if not isinstance(p, Ptr):
                if isinstance(p, Fn):
                    raise Unsupported('gep of function')
                raise Unsupported('gep of %r' % (p,))
            off = Lin(ins['off'])
            for t, sc, ty in ins['terms']:
                v = self.operand(s, fr, t)
                w = ty_w(ty)
                if v is UNDEF:
                    v = fresh('undef', w)
                if w < 64:
                    v = (sx(v, w) & M64) if isinstance(v, int) else z3.SignExt(64 - w, v)
                off = off.add(lin(v).scale(sc))
            R[ins['id']] = p.add(off)
        elif op == 'alloca':
            sz = ins['asz']
            o = s.new_obj('%%%s' % (ins['nm'] or ins['id']), sz)
            o.segs = self.ir_segs(ins['aty'])
            fr.allocas = fr.allocas + (o.id,)
            R[ins['id']] = Ptr(o.id, 0)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a = self.operand(s, fr, ins['ops'][0])
            b = self.operand(s, fr, ins['ops'][1])
            R[ins['id']] = self.arith(s, op, a, b, ty_w(ins['ty']))
        elif op == 'icmp':
            a = self.operand(s, fr, ins['ops'][0])
            b = self.operand(s, fr, ins['ops'][1])
            R[ins['id']] = self.icmp(s, ins['pred'], a, b, ins['oty'])
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            v = self.operand(s, fr, ins['ops'][0])
            R[ins['id']] = self.cast(s, op, v, ins.get('sty', ins['ty']), ins['ty'])
        elif op == 'select':
            c = self.operand(s, fr, ins['ops'][0])
            a = self.operand(s, fr, ins['ops'][1])
            b = self.operand(s, fr, ins['ops'][2])
            if isinstance(c, bool):
                R[ins['id']] = a if c else b
            elif isinstance(a, (Ptr, Fn, PI, list)) or isinstance(b, (Ptr, Fn, PI, list)):
                if isinstance(a, Ptr) and a.same(b):
                    R[ins['id']] = a
                else:
                    out = []
                    for t, n in self.split(s, c):
                        n.frames[-1].regs[ins['id']] = a if t else b
                        n.frames[-1].idx += 1
                        out.append(n)
                    return out
            else:
                w = ty_w(ins['ty'])
                if a is UNDEF:
                    a = fresh('undef', w) if w > 1 else fresh_bool('undef')
                if b is UNDEF:
                    b = fresh('undef', w) if w > 1 else fresh_bool('undef')
                if w == 1:
                    if isinstance(a, bool) and isinstance(b, bool):
                        R[ins['id']] = c if a and not b else (b_not(c) if b and not a else a)
                    elif b is False:
                        R[ins['id']] = b_and(c, a)
                    elif a is True:
                        R[ins['id']] = b_or(c, b)
                    elif a is False:
                        R[ins['id']] = b_and(b_not(c), b)
                    elif b is True:
                        R[ins['id']] = b_or(b_not(c), a)
                    else:
                        R[ins['id']] = z3.If(c, a, b)
                else:
                    R[ins['id']] = z3.If(c, bv(a, w), bv(b, w))
        elif op == 'br':
            if not ins['ops']:
                self.goto(s, ins['succ'][0])
                return [s]
            c = self.operand(s, fr, ins['ops'][0])
            if c is UNDEF:
                c = fresh_bool('undef')
            out = []
            for t, n in self.split(s, c):
                self.goto(n, ins['succ'][0 if t else 1])
                out.append(n)
            return out
        elif op == 'switch':
            v = self.operand(s, fr, ins['ops'][0])
            if isinstance(v, int):
                w = ins['cases'][0][0][1] if ins['cases'] else 64
                for c, b in ins['cases']:
                    if int(c[2]) & mask(w) == int(v) & mask(w):
                        self.goto(s, b)
                        return [s]
                self.goto(s, ins['default'])
                return [s]
            out = []
            groups = {}
            for c, b in ins['cases']:
                groups.setdefault(b, []).append(v == z3.BitVecVal(int(c[2]), c[1]))
            nd = []
            for b, cs in groups.items():
                cond = z3.Or(*cs) if len(cs) > 1 else cs[0]
                nd.append(z3.Not(cond))
                if self.feasible(s, cond):
                    n = s.fork()
                    n.assume(cond)
                    self.goto(n, b)
                    out.append(n)
            dc = z3.And(*nd) if nd else True
            if self.feasible(s, dc):
                s.assume(dc)
                self.goto(s, ins['default'])
                out.append(s)
            return out
        elif op in ('call', 'invoke'):
            return self.do_call(s, fr, ins)
        elif op == 'ret':
            v = self.operand(s, fr, ins['ops'][0]) if ins['ops'] else None
            return self.do_return(s, v)
        elif op == 'unreachable':
            self.prove(s, False, 'unreachable', 'unreachable code is not reached')
            raise PathEnd()
        elif op == 'extractvalue':
            v = self.operand(s, fr, ins['ops'][0])
            for k in ins['idx']:
                v = UNDEF if v is UNDEF else v[k]
            R[ins['id']] = v
        elif op == 'insertvalue':
            v = self.operand(s, fr, ins['ops'][0])
            x = self.operand(s, fr, ins['ops'][1])
            n = len(ins['ty']['s'])
            v = [UNDEF] * n if v is UNDEF else list(v)
            if len(ins['idx']) != 1:
                raise Unsupported('nested insertvalue')
            v[ins['idx'][0]] = x
            R[ins['id']] = v
        elif op == 'landingpad':
            e = s.exc
            sel = self.lp_selector(ins, e)
            R[ins['id']] = [e['ptr'], sel]
        elif op == 'resume':
            s.exc = dict(s.exc)
            return self.unwind(s)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            a = tuple(self.operand(s, fr, x) for x in ins['ops'])
            R[ins['id']] = self.float_op(op, a, ins)
        elif op == 'fcmp':
            R[ins['id']] = fresh_bool('fcmp')
        elif op == 'cmpxchg' or op == 'atomicrmw' or op == 'fence':
            raise Unsupported(op)
        else:
            raise Unsupported('instruction ' + op)
        fr.idx += 1
        return None

    def float_op(self, op, a, ins):
        w = ty_w(ins['ty'])
        return fresh('fp', w)

    def cast(self, s, op, v, sty, ty):
        if op == 'freeze':
            if v is UNDEF:
                w = ty_w(ty)
                return fresh('undef', w) if w > 1 else fresh_bool('undef')
            return v
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None:
                return v.off.val()
            return PI(v)
        if op == 'inttoptr':
            if isinstance(v, PI):
                return v.p
            if isinstance(v, int):
                return Ptr(None, Lin(v))
            raise Unsupported('inttoptr')
        sw, w = ty_w(sty), ty_w(ty)
        if v is UNDEF:
            v = fresh('undef', sw) if sw > 1 else fresh_bool('undef')
        if isinstance(v, PI):
            if w == sw:
                return v
            raise Unsupported('cast of a pointer')
        if op == 'zext':
            if isinstance(v, (int, bool)):
                return int(v)
            if sw == 1:
                return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - sw, v)
        if op == 'sext':
            if isinstance(v, bool):
                return mask(w) if v else 0
            if isinstance(v, int):
                return sx(v, sw) & mask(w)
            if sw == 1:
                return z3.If(v, z3.BitVecVal(mask(w), w), z3.BitVecVal(0, w))
            return z3.SignExt(w - sw, v)
        if op == 'trunc':
            if isinstance(v, int):
                return bool(v & 1) if w == 1 else v & mask(w)
            if w == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return z3.Extract(w - 1, 0, v)
        raise Unsupported(op)

    # ---------------------------------------------------------- calls
    def do_return(self, s, v):
        fr = s.frames.pop()
        for a in fr.allocas:
            o = s.wobj(a)
            o.alive = False
        if fr.hook is not None:
            fr.hook(s, v)
        return self.deliver(s, v)

    def deliver(self, s, v):
        """give value v to the pending call of the top frame"""
        s.retval = v
        fr = s.frames[-1]
        if fr.block is None:
            return [s]
        ins = fr.fn['blocks'][fr.block][fr.idx]
        if ins['op'] not in ('call', 'invoke'):
            return [s]
        if 'ty' in ins:
            fr.regs[ins['id']] = v
        if ins['op'] == 'invoke':
            self.goto(s, ins['normal'])
        else:
            fr.idx += 1
        return [s]

    def throw(self, s, ti, ptr=None, why=''):
        """start an exception of type info `ti` from the current call site"""
        s.exc = {'ti': ti, 'ptr': ptr or Ptr(None, Lin(16)), 'why': why}
        return self.unwind(s, first=True)

    def unwind(self, s, first=False):
        s.exc = dict(s.exc)
        if not first:
            # leave the current frame
            fr = s.frames.pop()
            for a in fr.allocas:
                s.wobj(a).alive = False
        while True:
            if not s.frames or self.call_base(s):
                s.exc['unwinding'] = True
                s.retval = None
                return [s]
            fr = s.frames[-1]
            ins = fr.fn['blocks'][fr.block][fr.idx]
            if ins['op'] == 'invoke' and self.lp_enters(fr, ins, s.exc):
                s.exc.pop('unwinding', None)
                self.goto(s, ins['unwind'])
                return [s]
            s.frames.pop()
            for a in fr.allocas:
                s.wobj(a).alive = False

    def call_base(self, s):
        return s.frames[-1].block is None

    def lp_enters(self, fr, ins, e):
        blk = fr.fn['blocks'][ins['unwind']]
        for i in blk:
            if i['op'] == 'landingpad':
                return i['cleanup'] or self.lp_selector(i, e) != 0
        raise Unsupported('landing block without landingpad')

    def lp_selector(self, ins, e):
        for kind, c in ins['clauses']:
            if kind != 'catch':
                raise Unsupported('exception filter')
            if c[0] == 'null':
                return 1000
            if c[0] == 'g':
                if e['ti'] is None:
                    raise Unsupported('unknown exception type')
                if self.ti_derives(e['ti'], c[1]):
                    return self.ti_id(c[1])
        return 0

    def ti_id(self, name):
        if not hasattr(self, '_tis'):
            self._tis = {}
        return self._tis.setdefault(name, 2000 + len(self._tis))

    TI_BASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
                '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
                '_ZTISt12out_of_range': ['_ZTISt11logic_error']}

    def ti_derives(self, t, base):
        if t == base:
            return True
        for b in self.TI_BASES.get(t, []):
            if self.ti_derives(b, base):
                return True
        g = self.M.globals.get(t)
        if g and 'init' in g and g['init'][0] == 'agg':
            for e in g['init'][1][2:]:
                if e[0] == 'g' and e[1].startswith('_ZTI') and self.ti_derives(e[1], base):
                    return True
        return False

    def do_call(self, s, fr, ins):
        cal = self.operand(s, fr, ins['callee'])
        if not isinstance(cal, Fn):
            raise Unsupported('indirect call')
        args = [self.operand(s, fr, a) for a in ins['ops']]
        name = cal.name
        if name.startswith('llvm.'):
            from intrinsics import intrinsic
            v = intrinsic(self, s, fr, ins, name, args)
            if isinstance(v, list) and v and isinstance(v[0], State):
                return v
            if 'ty' in ins:
                fr.regs[ins['id']] = v
            if ins['op'] == 'invoke':
                self.goto(s, ins['normal'])
                return [s]
            fr.idx += 1
            return None
        if name.startswith('iface:'):
            _, rest = name.split(':', 1)
            m = re.match(r'^(.*)::([^:]+):([^:]*)$', rest)
            cls, meth, link = m.group(1), m.group(2), m.group(3)
            h = self.iface_handler(cls, meth)
            if h is None:
                h = self.iface_handler(cls, '*')
                if h is not None:
                    self.used_iface.add('%s::%s' % (cls, meth))
                    return self.apply(s, h(self, s, args, ins, meth))
                if meth == '~dtor':
                    return self.deliver(s, None)
                # a virtual method with a body and no interface contract:
                # only sound if specified
                raise Unsupported('no interface contract for %s::%s' % (cls, meth))
            self.used_iface.add('%s::%s' % (cls, meth))
            return self.apply(s, h(self, s, args, ins))
        f = self.M.functions.get(name)
        dem = f['dem'] if f else name
        for rx, h, label in self.contracts:
            if re.search(rx, dem):
                r = h(self, s, args, ins)
                if r is not NotImplemented:
                    self.used_contracts.add(label or dem)
                    return self.apply(s, r)
        b = self.find_builtin(dem, name)
        if b is not None:
            r = b[1](self, s, args, ins, dem)
            if r is not NotImplemented:
                self.used_models.add(b[2])
                return self.apply(s, r)
        if f is None or 'blocks' not in f:
            raise Unsupported('no contract, model or body for ' + dem)
        if len(s.frames) > self.depth_limit:
            raise Unsupported('inlining depth')
        self.inlined.add(dem)
        n = Frame(f, name)
        for k, a in enumerate(args):
            n.regs[k] = a
        s.frames.append(n)
        s.at_edge = True
        return [s]

    def iface_handler(self, cls, meth):
        for c in self.base_chain(cls):
            h = self.iface.get(c, {}).get(meth)
            if h is not None:
                return h
        return None

    def base_chain(self, cls):
        out = [cls]
        t = self.M.types.get(cls)
        if t:
            for b in t['bases']:
                out += self.base_chain(b['type'])
        return out

    def find_builtin(self, dem, name):
        k = (dem, name)
        if k not in self._bcache:
            r = None
            for rx, h, label in self.builtins:
                if rx.search(dem) or rx.search(name):
                    r = (rx, h, label)
                    break
            self._bcache[k] = r
        return self._bcache[k]

    def apply(self, s, r):
        """r: value, or list of ('ret'|'exc'|'end', state, value)"""
        if isinstance(r, Outs):
            out = []
            for kind, n, v in r.items:
                if kind == 'ret':
                    out += self.deliver(n, v)
                elif kind == 'exc':
                    out += self.throw(n, v)
            return out
        return self.deliver(s, r)

    # ---------------------------------------------------------- loops
    def loop_limit(self, fname):
        dem = self.M.functions[fname]['dem']
        for rx, n in self.unroll.items():
            if re.search(rx, dem):
                return n
        return self.unroll_limit

    def handle_loop(self, s0, header, blocks):
        fname = s0.frames[-1].name
        limit = self.loop_limit(fname)
        depth = len(s0.frames)
        ctx = Ctx(depth, header, blocks)
        key = (fname, header)
        if not hasattr(self, 'needs_inv'):
            self.needs_inv = set()
        if limit > 0 and key not in self.needs_inv:
            mark = len(self.obls)
            start = s0.fork() if not self.bounded else s0
            cur = [start]
            exits = []
            ok = True
            it = 0
            nfork = 0
            while cur:
                nxt = []
                for s in cur:
                    # decided iterations are free, undecided ones are counted
                    outs = []
                    self.enter_block(s)
                    self.explore(s, ctx, outs)
                    for k, n in outs:
                        if k == 'back':
                            nxt.append(n)
                        else:
                            exits.append(n)
                    if len(outs) > 1:
                        nfork += 1
                it += 1
                cur = nxt
                if cur and (nfork > limit or len(exits) + len(cur) > max(60, limit) or it > 400):
                    ok = False
                    break
            if ok:
                return exits
            if self.bounded:
                self.bound_reached = True
                return exits
            del self.obls[mark:]
            self.needs_inv.add(key)
        if self.no_inv:
            raise Unsupported('loop needs an invariant')
        return self.loop_invariant(s0, header, blocks, ctx)

    def steps(self, h, st):
        """any multiple of st: with st = 2^m * odd, counts in [-2^(63-m), 2^(63-m)) reach all of them modulo 2^64"""
        k = fresh('loop', 64)
        m = (st & -st).bit_length() - 1 if st else 0
        if m:
            h.assume(z3.And(k >= -(1 << (63 - m)), k < (1 << (63 - m))))
        return lin(k).scale(st)

    # state components of a loop
    def phis(self, s, header):
        fr = s.frames[-1]
        out = []
        for ins in fr.fn['blocks'][header]:
            if ins['op'] != 'phi':
                break
            out.append(ins)
        return out

    def phi_in(self, s, ins):
        """incoming value of a header phi for a state at the header edge"""
        fr = s.frames[-1]
        for op, b in ins['ops']:
            if b == fr.prev:
                return self.operand(s, fr, op)
        raise Unsupported('phi without incoming edge')

    def mem_diff(self, a, b):
        """locations present in a whose contents differ in b"""
        d = set()
        for i, oa in a.mem.items():
            ob = b.mem.get(i)
            if ob is None or ob is oa:
                continue
            if oa.kind == 'vtable':
                continue
            for off, e in ob.cells.items():
                ea = oa.cells.get(off)
                if ea is None:
                    if oa.kind == 'global':
                        continue
                    ini = self.init_cells.get((i, off, e[0]))
                    if ini is not None and same_val(ini[0], e[1]):
                        continue
                    d.add(('cell', i, off, e[0]))
                    if isinstance(e[1], (Ptr, Fn, PI)) or e[1] is UNDEF:
                        self.undef_cells.add(('cell', i, off, e[0]))
                elif ea[0] != e[0] or not same_val(ea[1], e[1]):
                    d.add(('cell', i, off, e[0]))
            sa = {s.off: s for s in oa.segs}
            for sg in ob.segs:
                s0 = sa.get(sg.off)
                if s0 is None:
                    continue
                for f, arr in sg.fields.items():
                    if f in s0.fields and s0.fields[f] is not arr:
                        d.add(('seg', i, sg.off, f))
        for k, v in b.ghost.items():
            v0 = a.ghost.get(k)
            if v0 is not v and not same_val(v0, v):
                d.add(('ghost', k))
        return d

    def havoc_loc(self, h, loc, s0, info):
        if loc[0] == 'cell':
            _, i, off, sz = loc
            e = h.obj(i).cells.get(off)
            old = e[1] if e and e[0] == sz else None
            if old is None and loc in self.undef_cells:
                self.cell_store(h, h.wobj(i), off, sz, UNDEF)
                return
            if isinstance(old, Ptr):
                st = info['stride'].get(loc)
                if st is None:
                    raise Unsupported('pointer changes in loop')
                v = old.add(self.steps(h, st))
            elif isinstance(old, (Fn, PI)):
                raise Unsupported('function pointer changes in loop')
            else:
                v = fresh('loop', sz * 8)
            self.cell_store(h, h.wobj(i), off, sz, v)
        elif loc[0] == 'seg':
            _, i, so, f = loc
            o = h.wobj(i)
            for sg in o.segs:
                if sg.off == so:
                    sg.fields[f] = Base('loop.' + o.name, f[1] * 8)
        else:
            k = loc[1]
            v = h.ghost.get(k)
            if isinstance(v, Arr):
                h.ghost[k] = Base('loop.' + str(k), v.w)
            elif isinstance(v, Ghost):
                h.ghost[k] = v.havoc(self, h)
            elif isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
                h.ghost[k] = fresh_bool('loop.' + str(k))
            elif isinstance(v, int) or z3.is_expr(v):
                h.ghost[k] = fresh('loop.' + str(k), 64 if isinstance(v, int) else v.size())
            else:
                raise Unsupported('ghost %s changes in loop' % (k,))

    def loop_invariant(self, s0, header, blocks, ctx):
        fname = s0.frames[-1].name
        phis = self.phis(s0, header)
        pre = {('phi', p['id']): self.phi_in(s0, p) for p in phis}
        mods = set()
        info = {'stride': {}}
        rec = self.recording
        self.recording = False
        try:
            for rnd in range(8):
                h, hv = self.havoced(s0, header, phis, pre, mods, info)
                hsnap = h.fork()
                outs = []
                self.explore(h, ctx, outs)
                new = set()
                changed = False
                for k, n in outs:
                    if k != 'back':
                        continue
                    for p in phis:
                        key = ('phi', p['id'])
                        v = self.phi_in(n, p)
                        a = hv[key]
                        if isinstance(a, Ptr) or isinstance(v, Ptr):
                            if not isinstance(v, Ptr) or not isinstance(a, Ptr) or v.obj != a.obj:
                                raise Unsupported('pointer phi changes object in loop')
                            if not v.same(a):
                                changed |= self.upd_stride(info, key, v.off.sub(a.off))
                    # arrays first touched in the loop: give them a name before it
                    for i, oa in hsnap.mem.items():
                        ob = n.mem.get(i)
                        if ob is None or ob is oa or oa.kind in ('vtable', 'global') or i not in s0.mem:
                            continue
                        for sg in ob.segs:
                            for f in sg.fields:
                                for s1 in s0.mem[i].segs:
                                    if s1.off == sg.off and s1.stride == sg.stride and f not in s1.fields and self.seg_init(s0, s0.mem[i], s1, f) is not None:
                                        changed = True
                    for d in self.mem_diff(hsnap, n):
                        if d[0] == 'cell':
                            old = hsnap.obj(d[1]).cells.get(d[2])
                            nv = n.obj(d[1]).cells.get(d[2])
                            if old and isinstance(old[1], Ptr):
                                if not isinstance(nv[1], Ptr) or nv[1].obj != old[1].obj:
                                    raise Unsupported('pointer changes object in loop')
                                changed |= self.upd_stride(info, d, nv[1].off.sub(old[1].off))
                        if d not in mods:
                            new.add(d)
                if not new and not changed:
                    break
                mods |= new
            else:
                raise Unsupported('loop frame does not stabilise')
        finally:
            self.recording = rec
        # candidates
        cands = self.candidates(s0, header, blocks, phis, pre, mods, hv)
        live = []
        # initiation
        g0 = Getter(self, s0, {k: v for k, v in pre.items()}, pre, s0)
        live = self.filter_cands(s0, g0, cands)
        self.recording = False
        try:
            for rnd in range(40):
                h, hv = self.havoced(s0, header, phis, pre, mods, info)
                gh = Getter(self, h, hv, pre, s0)
                for c in live:
                    c.assume(h, gh)
                outs = []
                self.explore(h, ctx, outs)
                n0 = len(live)
                for k, n in outs:
                    if k != 'back':
                        continue
                    vals = {('phi', p['id']): self.phi_in(n, p) for p in phis}
                    live = self.filter_cands(n, Getter(self, n, vals, pre, s0), live)
                if len(live) == n0:
                    break
            else:
                raise Unsupported('invariant inference does not converge')
        finally:
            self.recording = rec
        h, hv = self.havoced(s0, header, phis, pre, mods, info)
        gh = Getter(self, h, hv, pre, s0)
        for c in live:
            c.assume(h, gh)
        self.inv_log.append((self.M.functions[fname]['dem'], header, len(live), [c.name for c in live if c.named]))
        h.havoc = True
        outs = []
        self.explore(h, ctx, outs)
        # named candidates that were required but did not survive are reported
        for c in cands:
            if c.required and c not in live:
                self.obls.append(Obl('invariant', c.name, self.M.functions[fname]['dem'], 0, 'failed', None, False))
            elif c.named and c in live and rec:
                self.obls.append(Obl('invariant', c.name, self.M.functions[fname]['dem'], 0, 'proved'))
        return [n for k, n in outs if k != 'back']

    def upd_stride(self, info, key, d):
        import math
        g = 0
        for _, _, k in d.t:
            g = math.gcd(g, abs(sx(k, 64)))
        g = math.gcd(g, abs(sx(d.c, 64)))
        old = info['stride'].get(key, 0)
        n = math.gcd(old, g)
        if n == 0:
            return False
        if n != old:
            info['stride'][key] = n
            return True
        return False

    def havoced(self, s0, header, phis, pre, mods, info):
        h = s0.fork()
        fr = h.frames[-1]
        hv = {}
        for p in phis:
            key = ('phi', p['id'])
            v = pre[key]
            ty = p['ty']
            if isinstance(v, Ptr):
                st = info['stride'].get(key)
                n = v if st is None else v.add(self.steps(h, st))
            elif isinstance(v, Fn):
                n = v
            elif isinstance(v, PI):
                st = info['stride'].get(key)
                n = v if st is None else PI(v.p.add(self.steps(h, st)))
            elif ty == 'i1':
                n = fresh_bool('loop')
            else:
                n = fresh('loop', ty_w(ty))
            fr.regs[p['id']] = n
            hv[key] = n
        i = 0
        blk = fr.fn['blocks'][header]
        while i < len(blk) and blk[i]['op'] == 'phi':
            i += 1
        fr.idx = i
        h.at_edge = False
        for loc in sorted(mods, key=repr):
            self.havoc_loc(h, loc, s0, info)
        h.model = None
        return h, hv

    def candidates(self, s0, header, blocks, phis, pre, mods, hv):
        """template candidates over the loop's scalars"""
        fr = s0.frames[-1]
        scal = []      # (key, width)
        for p in phis:
            v = hv[('phi', p['id'])]
            if isinstance(v, Ptr):
                if not v.same(pre[('phi', p['id'])]):
                    scal.append((('poff', ('phi', p['id'])), 64))
            elif isinstance(v, PI):
                pass
            elif p['ty'] == 'i1' or pre[('phi', p['id'])] is UNDEF:
                pass
            elif isinstance(p['ty'], str) and p['ty'][0] == 'i':
                scal.append((('phi', p['id']), int(p['ty'][1:])))
        for loc in sorted(mods, key=repr):
            if loc[0] == 'cell':
                e = s0.obj(loc[1]).cells.get(loc[2])
                if e and e[0] == loc[3]:
                    if isinstance(e[1], Ptr):
                        scal.append((('poff', loc), 64))
                    elif not isinstance(e[1], (Fn, PI)) and e[1] is not UNDEF and loc[3] in (1, 2, 4, 8):
                        scal.append((loc, loc[3] * 8))
            elif loc[0] == 'ghost':
                v = s0.ghost.get(loc[1])
                if isinstance(v, int) and not isinstance(v, bool):
                    scal.append((loc, 64))
                elif z3.is_expr(v) and z3.is_bv(v):
                    scal.append((loc, v.size()))
        # loop-invariant terms compared or added in the loop
        consts = {}
        inloop = set()
        for b in blocks:
            for ins in fr.fn['blocks'][b]:
                inloop.add(ins['id'])
        for b in blocks:
            for ins in fr.fn['blocks'][b]:
                if ins['op'] in ('icmp', 'add', 'sub', 'call', 'invoke', 'select'):
                    for o in ins['ops']:
                        if not isinstance(o, list):
                            continue
                        if o[0] == 'r' and o[1] not in inloop and o[1] in fr.regs:
                            v = fr.regs[o[1]]
                            if isinstance(v, Ptr):
                                consts[('p', v.obj, v.off.key())] = (v.off.val(), 64)
                            elif isinstance(v, int) and not isinstance(v, bool):
                                for w in (32, 64):
                                    consts[('i', v & mask(w), w)] = (v, w)
                            elif z3.is_expr(v) and z3.is_bv(v):
                                consts[('e', v.get_id())] = (v, v.size())
                        elif o[0] == 'i' and o[1] > 1:
                            consts[('i', int(o[2]) & mask(o[1]), o[1])] = (int(o[2]) & mask(o[1]), o[1])
        for k, v in s0.ghost.items():
            if ('ghost', k) not in mods and z3.is_expr(v) and z3.is_bv(v):
                consts[('e', v.get_id())] = (v, v.size())
        # unmodified cells read in the loop: integer cells of objects reachable
        for i, o in list(s0.mem.items()):
            if o.kind == 'mem' and o.sym and o.cls:
                for off, (sz, v) in o.cells.items():
                    if ('cell', i, off, sz) not in mods and z3.is_expr(v) and z3.is_bv(v) and len(consts) < 40:
                        consts[('e', v.get_id())] = (v, v.size())
        cl = [('const', v, w) for v, w in consts.values()]
        # initial values as constants too
        out = []

        def add(name, fn, named=False):
            out.append(Cand(name, fn, named))

        for k, w in scal if self.templates else ():
            add('pre_ule', lambda g, k=k, w=w: z3.ULE(bv(g.pre(k), w), bv(g.cur(k), w)))
            add('pre_sle', lambda g, k=k, w=w: bv(g.pre(k), w) <= bv(g.cur(k), w))
            add('pre_uge', lambda g, k=k, w=w: z3.UGE(bv(g.pre(k), w), bv(g.cur(k), w)))
            add('pre_sge', lambda g, k=k, w=w: bv(g.pre(k), w) >= bv(g.cur(k), w))
            add('pre_eq', lambda g, k=k, w=w: bv(g.pre(k), w) == bv(g.cur(k), w))
            if w >= 32:
                add('nonneg', lambda g, k=k, w=w: bv(g.cur(k), w) >= 0)
                add('small', lambda g, k=k, w=w: z3.ULE(bv(g.cur(k), w), 1 << (w - 2)))
        tot = [(k, w, True) for k, w in scal]
        for x in range(len(scal)) if self.templates else ():
            kx, wx = scal[x]
            for y in range(len(scal)):
                if x == y:
                    continue
                ky, wy = scal[y]
                if wx != wy:
                    if wx == 32 and wy == 64:
                        add('zeq', lambda g, a=kx, b=ky: z3.ZeroExt(32, bv(g.cur(a), 32)) == bv(g.cur(b), 64))
                        add('zdelta', lambda g, a=kx, b=ky: z3.SignExt(32, bv(g.cur(a), 32) - bv(g.pre(a), 32)) == bv(g.cur(b), 64) - bv(g.pre(b), 64))
                    continue
                w = wx
                if x < y:
                    add('eq', lambda g, a=kx, b=ky, w=w: bv(g.cur(a), w) == bv(g.cur(b), w))
                    add('delta', lambda g, a=kx, b=ky, w=w: bv(g.cur(a), w) - bv(g.pre(a), w) == bv(g.cur(b), w) - bv(g.pre(b), w))
                    add('conserve', lambda g, a=kx, b=ky, w=w: bv(g.cur(a), w) + bv(g.cur(b), w) == bv(g.pre(a), w) + bv(g.pre(b), w))
                add('ule', lambda g, a=kx, b=ky, w=w: z3.ULE(bv(g.cur(a), w), bv(g.cur(b), w)))
                add('sle', lambda g, a=kx, b=ky, w=w: bv(g.cur(a), w) <= bv(g.cur(b), w))
            for _, v, w in cl:
                if w != wx:
                    if wx == 32 and w == 64:
                        add('czule', lambda g, a=kx, v=v: z3.ULE(z3.ZeroExt(32, bv(g.cur(a), 32)), bv(v, 64)))
                    continue
                add('cule', lambda g, a=kx, v=v, w=w: z3.ULE(bv(g.cur(a), w), bv(v, w)))
                add('cuge', lambda g, a=kx, v=v, w=w: z3.UGE(bv(g.cur(a), w), bv(v, w)))
                add('csle', lambda g, a=kx, v=v, w=w: bv(g.cur(a), w) <= bv(v, w))
                add('csge', lambda g, a=kx, v=v, w=w: bv(g.cur(a), w) >= bv(v, w))
                add('ceq', lambda g, a=kx, v=v, w=w: bv(g.cur(a), w) == bv(v, w))
                add('cne', lambda g, a=kx, v=v, w=w: bv(g.cur(a), w) != bv(v, w))
        # strided pointer offsets: cur = pre + stride*k  is built in
        lp = LoopInfo(self, s0, header, blocks, phis, pre, mods, scal, cl)
        for f in self.loop_cands:
            for c in f(self, lp) or []:
                out.append(c)
        return out

    def houdini(self, s, pend, solo):
        live = []
        while pend:
            if not solo:
                neg = z3.Or(*[z3.Not(e) for _, e in pend]) if len(pend) > 1 else z3.Not(pend[0][1])
                r, m = self.solve(s, [neg], timeout=1500 if len(pend) > 1 else None)
                if r is False:
                    live += [c for c, _ in pend]
                    break
                if r is True:
                    keep = []
                    for c, e in pend:
                        if z3.is_false(m.eval(e, model_completion=True)):
                            continue
                        keep.append((c, e))
                    if len(keep) == len(pend):
                        keep = keep[1:]
                    pend = keep
                    continue
                solo = True
            # undecided together: one at a time, models still prune the rest
            c, e = pend[0]
            pend = pend[1:]
            r, m = self.solve(s, [z3.Not(e)], timeout=self.timeout if c.named else 1500)
            if r is False:
                live.append(c)
            elif r is True and not isinstance(c, QCand):
                # (a model of a quantified candidate says nothing about the others)
                pend = [(c2, e2) for c2, e2 in pend if not z3.is_false(m.eval(e2, model_completion=True))]
        return live

    def filter_cands(self, s, g, cands):
        """keep candidates that hold in state s"""
        live = []
        exprs = []
        for c in cands:
            try:
                e = c.goal(s, g)
            except Unsupported:
                continue
            if not isinstance(e, bool):
                e = simp(e)
            if e is True:
                live.append(c)
            elif e is False:
                continue
            else:
                exprs.append((c, e))
        # Houdini with models: scalar candidates together, quantified ones after
        live += self.houdini(s, [x for x in exprs if not isinstance(x[0], QCand)], False)
        live += self.houdini(s, [x for x in exprs if isinstance(x[0], QCand)], True)
        order = {id(c): n for n, c in enumerate(cands)}
        live.sort(key=lambda c: order[id(c)])
        return live


class Ghost:
    """base class of structured ghost values"""

    def havoc(self, E, s):
        raise Unsupported('ghost havoc')


class Outs:
    def __init__(self, items):
        self.items = items


class PathEnd(Exception):
    pass


class ForkOn(Exception):
    def __init__(self, off, vals):
        self.off = off
        self.vals = vals


class Cand:
    def __init__(self, name, fn, named=False, required=False):
        self.name = name
        self.fn = fn
        self.named = named
        self.required = required

    def goal(self, s, g):
        return self.fn(g)

    def assume(self, s, g):
        s.assume(self.fn(g))


class QCand(Cand):
    """quantified candidate: fn(g) -> (list of Base arrays to trigger on, body(Lin)->Bool)"""

    def goal(self, s, g):
        bases, body = self.fn(g)
        return body(lin(fresh('sk', 64)))

    def assume(self, s, g):
        bases, body = self.fn(g)
        for b in bases:
            if isinstance(b, Base):
                s.assume_forall(b, body)


class LoopInfo:
    def __init__(self, E, s0, header, blocks, phis, pre, mods, scal, consts):
        self.E, self.s0, self.header, self.blocks, self.phis, self.pre, self.mods, self.scal, self.consts = \
            E, s0, header, blocks, phis, pre, mods, scal, consts
        self.dem = s0.frames[-1].fn['dem']


class Getter:
    """reads loop-state components in a given state"""

    def __init__(self, E, s, phivals, prevals, s0):
        self.E, self.s, self.ph, self.prev, self.s0 = E, s, phivals, prevals, s0

    def _get(self, s, ph, k):
        if k[0] == 'phi':
            return ph[k]
        if k[0] == 'poff':
            v = self._get(s, ph, k[1])
            return v.off.val()
        if k[0] == 'cell':
            e = s.obj(k[1]).cells.get(k[2])
            if e and e[0] == k[3]:
                return e[1]
            v = self.E.cell_load(s, s.obj(k[1]), k[2], k[3], None)
            return v
        if k[0] == 'ghost':
            return s.ghost[k[1]]
        if k[0] == 'seg':
            for sg in s.obj(k[1]).segs:
                if sg.off == k[2]:
                    return sg.fields[k[3]]
        raise Unsupported('component %s' % (k,))

    def cur(self, k):
        return self._get(self.s, self.ph, k)

    def pre(self, k):
        return self._get(self.s0, self.prev, k)


class Bytes(Arr):
    """byte view of an array of wider little-endian elements"""

    def __init__(self, a, st):
        self.a, self.st, self.w = a, st, 8

    def _sel(self, i):
        r = i.c % self.st
        l2 = i.sub(Lin(r))
        if l2.divides(self.st):
            v = self.a.sel(l2.div(self.st))
            if isinstance(v, int):
                return (v >> (8 * r)) & 255
            return z3.Extract(8 * r + 7, 8 * r, v)
        x = i.bv()
        sh = self.st.bit_length() - 1
        if 1 << sh != self.st:
            raise Unsupported('byte view of stride %d' % self.st)
        v = bv(self.a.sel(lin(simp(z3.LShR(x, sh)))), self.st * 8)
        k = simp(x & (self.st - 1))
        r = z3.Extract(7, 0, v)
        for j in range(1, self.st):
            r = z3.If(bv(k, 64) == j, z3.Extract(8 * j + 7, 8 * j, v), r)
        return r


class Cells(Arr):
    def __init__(self, bs):
        self.bs, self.w = bs, 8

    def _sel(self, i):
        c = i.const()
        if c is not None:
            return self.bs[c] if c < len(self.bs) else 0
        r = bv(self.bs[-1], 8) if self.bs else z3.BitVecVal(0, 8)
        for k in range(len(self.bs) - 1):
            r = z3.If(i.bv() == k, bv(self.bs[k], 8), r)
        return r


class ConstVals(Arr):
    def __init__(self, vals, w):
        self.vals, self.w = vals, w

    def _sel(self, i):
        c = i.const()
        if c is not None and c < len(self.vals):
            return self.vals[c]
        r = z3.BitVecVal(0, self.w)
        for k, v in enumerate(self.vals):
            r = z3.If(i.bv() == k, z3.BitVecVal(v, self.w), r)
        return r


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr):
        return isinstance(b, Ptr) and a.same(b)
    if isinstance(a, Fn):
        return isinstance(b, Fn) and a.name == b.name
    if isinstance(a, PI):
        return isinstance(b, PI) and a.p.same(b.p)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def mangle_cls(cls):
    parts = cls.split('::')
    if len(parts) == 1:
        return '%d%s' % (len(cls), cls)
    return 'N' + ''.join('%d%s' % (len(p), p) for p in parts) + 'E'
