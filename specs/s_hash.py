"""C12: SHA-256 and file hashing."""
import z3
import engine as en
import files
import lib
import fraig
from terms import *
from task import task
from files import gf, gset

DRV = ['drivers/hash.cpp']
SRC = ['joedb/journal/File_Hasher.cpp', 'joedb/journal/Abstract_File.cpp', 'drivers/hash.cpp']
BIG = 1 << 60
SHA = 'joedb::SHA_256'


def primes(n):
    r, p = [], 2
    while len(r) < n:
        if all(p % q for q in r):
            r.append(p)
        p += 1
    return r


def iroot(x, n):
    lo, hi = 0, 1 << (x.bit_length() // n + 1)
    while lo + 1 < hi:
        m = (lo + hi) // 2
        if m ** n <= x:
            lo = m
        else:
            hi = m
    return lo


# FIPS 180-4, 4.2.2 and 5.3.3: fractional parts of roots of the first primes
K = [iroot(p << 96, 3) & 0xffffffff for p in primes(64)]
H0 = [iroot(p << 64, 2) & 0xffffffff for p in primes(8)]


def compress(H, W):
    """FIPS 180-4, 6.2.2"""
    R = z3.RotateRight
    W = list(W)
    for t in range(16, 64):
        s1 = R(W[t - 2], 17) ^ R(W[t - 2], 19) ^ z3.LShR(W[t - 2], 10)
        s0 = R(W[t - 15], 7) ^ R(W[t - 15], 18) ^ z3.LShR(W[t - 15], 3)
        W.append(s1 + W[t - 7] + s0 + W[t - 16])
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        T1 = h + (R(e, 6) ^ R(e, 11) ^ R(e, 25)) + ((e & f) ^ (~e & g)) + z3.BitVecVal(K[t], 32) + W[t]
        T2 = (R(a, 2) ^ R(a, 13) ^ R(a, 22)) + ((a & b) ^ (a & c) ^ (b & c))
        h, g, f, e, d, c, b, a = g, f, e, d + T1, c, b, a, T1 + T2
    return [x + y for x, y in zip(H, [a, b, c, d, e, f, g, h])]


def hash_words(s, p):
    return [bv(s.load(p.add(Lin(4 * i)), 4), 32) for i in range(8)]


@task('C12', DRV)
def initial_hash(t):
    """the initial hash value is the one of FIPS 180-4, 5.3.3"""
    s = t.state()
    p = s.sym(SHA, 'sha')
    for o in t.call(s, r'^verif::sha_init\(', [p]):
        if o.ret:
            for i, w in enumerate(hash_words(o.s, p)):
                t.prove(o.s, w == H0[i], 'initial hash word %d' % i)


@task('C12', DRV, budget=300)
def process_chunk(t):
    """process_chunk replaces the hash by the FIPS 180-4 compression of it with the 64 bytes, for all hash values and all contents"""
    E = t.E
    s = t.state()
    p = s.sym(SHA, 'sha')
    o = s.bytes_obj('data', lin(64))
    d = Ptr(o.id, 0)
    h0 = hash_words(s, p)
    arr, i0 = E.read_byte_array(s, d, Lin(64))
    by = [bv(arr.sel(i0.add(Lin(i))), 8) for i in range(64)]
    W = [z3.Concat(*by[4 * i:4 * i + 4]) for i in range(16)]
    spec = compress(h0, W)
    for o in t.call(s, r'^verif::sha_chunk\(', [p, d]):
        if not o.ret:
            t.prove(o.s, False, 'process_chunk does not throw')
            continue
        st = {}
        r, m = fraig.equal(list(zip(hash_words(o.s, p), spec)), 250, st)
        E.queries += st.get('queries', 0)
        E.solver_time += st.get('solver_s', 0)
        for i in range(8):
            E.obls.append(en.Obl('post', 'hash word %d is that of FIPS 180-4' % i, 'joedb::SHA_256::process_chunk', 0, r, m and {'leaves': str(m)[:600]}, True))


def contract_chunk(log):
    """process_chunk: records the 64 bytes given (proved: s_hash.process_chunk)"""
    def h(E, s, a, ins):
        arr, i0 = E.read_byte_array(s, a[1], Lin(64), 'chunk')
        log(E, s, a[0], arr, i0)
        return None
    return h


@task('C12', DRV, budget=400)
def process_final_chunk(t):
    """process_final_chunk processes exactly the padding of FIPS 180-4, 5.1.1, for all contents and lengths (case split over the 64 residues of the length)"""
    E = t.E
    cur = {}

    def log(E, s, this, a, ai):
        c = s.ghost[('chunks',)]
        t.prove(s, c < cur['blocks'], 'no extra block')
        for j in range(64):
            t.prove(s, bv(a.sel(ai.add(Lin(j))), 8) == cur['byte'](64 * c + j), 'padded byte %d' % (64 * c + j))
        s.ghost[('chunks',)] = c + 1
    E.contracts.append((r'^joedb::SHA_256::process_chunk\(', contract_chunk(log), 'SHA_256::process_chunk (proved: s_hash.process_chunk)'))
    q = t.var('total/64', 58)
    for n in range(64):
        s = t.state()
        p = s.sym(SHA, 'sha')
        total = z3.Concat(q, z3.BitVecVal(n, 6))
        s.assume(z3.ULT(total, z3.BitVecVal(1 << 61, 64)))
        o = s.bytes_obj('data%d' % n, lin(n))
        d = Ptr(o.id, 0)
        arr, i0 = E.read_byte_array(s, d, lin(n))
        s.ghost[('chunks',)] = 0
        blocks = 2 if n > 55 else 1

        def byte(j):
            """byte j of the padded last blocks"""
            if j < n:
                return bv(arr.sel(i0.add(lin(j))), 8)
            if j == n:
                return z3.BitVecVal(0x80, 8)
            k = j - (64 * blocks - 8)
            return z3.Extract(7, 0, z3.LShR(total * 8, (7 - k) * 8)) if k >= 0 else z3.BitVecVal(0, 8)
        cur.update(blocks=blocks, byte=byte)
        for o in t.call(s, r'^verif::sha_final\(', [p, d, total]):
            t.prove(o.s, bool(o.ret), 'does not throw')
            t.prove(o.s, o.s.ghost[('chunks',)] == blocks, 'all blocks were processed')


def fed_cands(E, lp):
    """bytes given to process_chunk so far, against the loop counters"""
    out = []
    F = ('ghost', ('fed',))
    for k, w in lp.scal:
        if k == F:
            continue
        if w in (8, 16, 32, 64):
          for c in (1, 64, 4096):
            def f(g, k=k, w=w, c=c):
                v = bv(g.cur(k), w)
                v = v if w == 64 else z3.ZeroExt(64 - w, v)
                p = bv(g.pre(k), w)
                p = p if w == 64 else z3.ZeroExt(64 - w, p)
                return bv(g.cur(F), 64) == bv(g.pre(F), 64) + c * (v - p)
            out.append(en.Cand('blocks fed', f, True))
        if w == 64:
            out.append(en.Cand('fed = scalar', lambda g, k=k: bv(g.cur(F), 64) == bv(g.cur(k), 64), True))
            out.append(en.Cand('whole blocks', lambda g, k=k: bv(g.cur(k), 64) & 63 == 0, True))
            for c, v, cw in lp.consts:
                if cw == 64 and z3.is_expr(v):
                    out.append(en.Cand('inside', lambda g, k=k, v=v: z3.And(bv(g.cur(k), 64) >= 0, bv(g.cur(k), 64) <= v), True))
                    out.append(en.Cand('inside strictly or nothing', lambda g, k=k, v=v: z3.Or(bv(g.cur(k), 64) == 0, bv(g.cur(k), 64) < v), True))
    if any(k == F for k, w in lp.scal):
        return out
    return [c for c in out if 'fed' not in c.name]


@task('C12', SRC, budget=300)
def get_hash(t):
    """get_hash(file, start, size) processes exactly the bytes of the range in order, then the remaining bytes with the length of the range, whatever short reads happen (range inside the file)"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    start, size = t.var('start'), t.var('size')
    arr, fsz = gf(s, f, 'arr'), bv(gf(s, f, 'size'), 64)
    s.assume(z3.And(start >= 0, start < BIG, size >= 0, size < BIG, start + size <= fsz))
    s.ghost[('fed',)] = z3.BitVecVal(0, 64)
    s.ghost[('final',)] = z3.BitVecVal(0, 64)
    res = Ptr(s.new_obj('result', 32).id, 0)
    E.loop_cands += [lib.buffer_prefix([f]), fed_cands]

    def chunk(E, s, this, a, i0):
        fed = bv(s.ghost[('fed',)], 64)
        t.prove(s, z3.And(s.ghost[('final',)] == 0, fed >= 0, fed + 64 <= size), 'a block inside the range')
        t.forall(s, lambda i: z3.Implies(z3.ULT(i.bv(), 64), lib.byte_eq(a, i0.add(i), arr, lin(start).add(lin(fed)).add(i))), 'the next 64 bytes of the range')
        s.ghost[('fed',)] = simp(fed + 64)

    def final(E, s, a, ins):
        fed = bv(s.ghost[('fed',)], 64)
        total = bv(a[2], 64)
        n = total & 63
        t.prove(s, z3.And(s.ghost[('final',)] == 0, total == size), 'final block once, with the length of the range')
        t.prove(s, fed == size - n, 'all full blocks were processed')
        d, i0 = E.read_byte_array(s, a[1], lin(n), 'final')
        t.forall(s, lambda i: z3.Implies(z3.ULT(i.bv(), n), lib.byte_eq(d, i0.add(i), arr, lin(start).add(lin(fed)).add(i))), 'the remaining bytes of the range')
        s.ghost[('final',)] = z3.BitVecVal(1, 64)
        return None
    E.contracts.append((r'^joedb::SHA_256::process_chunk\(', contract_chunk(chunk), 'SHA_256::process_chunk (proved: s_hash.process_chunk)'))
    E.contracts.append((r'^joedb::SHA_256::process_final_chunk\(', final, 'SHA_256::process_final_chunk (proved: s_hash.process_final_chunk)'))
    for o in t.call(s, r'^joedb::File_Hasher::get_hash\(joedb::Abstract_File const&, long, long\)$', [res, f, start, size]):
        if o.ret:
            t.prove(o.s, o.s.ghost[('final',)] == 1, 'the final block was processed')
            t.prove(o.s, bool(gf(o.s, f, 'arr') is arr), 'file unchanged')


@task('C12', SRC, budget=300)
def get_fast_hash(t):
    """get_fast_hash gives process_chunk only bytes of the file, at positions that depend on the range alone (range inside the file, sampled blocks inside the file)"""
    E = t.E
    files.install(E)
    s = t.state()
    f = files.new_file(E, s, 'file')
    start, size = t.var('start'), t.var('size')
    arr, fsz = gf(s, f, 'arr'), bv(gf(s, f, 'size'), 64)
    s.assume(z3.And(start >= 0, start <= 41, size >= 0, size < 1 << 48, start + size <= fsz))
    s.ghost[('base',)] = z3.BitVecVal(0, 64)
    s.ghost[('fed',)] = z3.BitVecVal(0, 64)
    res = Ptr(s.new_obj('result', 32).id, 0)
    E.loop_cands += [lib.buffer_prefix([f]), fed_cands]
    E.abstract_div = True   # block positions: some function of the range and the block number
    pread = E.iface[files.AF]['pread']

    def rd(E, s, a, ins):
        b = simp(lin(a[3]).sub(a[1].off).bv())
        s.assume(z3.And(b >= 0, b + 4096 <= fsz))
        s.ghost[('base',)] = b
        return pread(E, s, a, ins)
    E.iface[files.AF]['pread'] = rd

    def chunk(E, s, this, a, i0):
        fed = bv(s.ghost[('fed',)], 64)
        base = bv(s.ghost[('base',)], 64)
        t.forall(s, lambda i: z3.Implies(z3.ULT(i.bv(), 64), lib.byte_eq(a, i0.add(i), arr, lin(base).add(i0).add(i))), 'the 64 bytes are bytes of the file at the position requested')
        s.ghost[('fed',)] = simp(fed + 64)

    def full(E, s, a, ins):
        t.prove(s, z3.And(bv(a[2], 64) == start, bv(a[3], 64) == size), 'small files: full hash of the same range')
        s.ghost[('full',)] = True
        return None
    E.contracts.append((r'^joedb::SHA_256::process_chunk\(', contract_chunk(chunk), 'SHA_256::process_chunk (proved: s_hash.process_chunk)'))
    E.contracts.append((r'^joedb::File_Hasher::get_hash\(joedb::Abstract_File const&, long, long\)$', full, 'File_Hasher::get_hash (proved: s_hash.get_hash)'))
    for o in t.call(s, r'^joedb::File_Hasher::get_fast_hash\(joedb::Abstract_File const&, long, long\)$', [res, f, start, size]):
        if o.ret and not o.s.ghost.get(('full',)):
            t.prove(o.s, bv(o.s.ghost[('fed',)], 64) == 256 * 4096, '256 blocks of 4096 bytes were processed')
