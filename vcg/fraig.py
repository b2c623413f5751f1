"""Equivalence of two large bit-vector terms: random simulation proposes equal
intermediate values, which are proved bottom-up over a cut, then merged. The
result is a proof of t1 == t2 for all values of the leaves, or a counterexample."""
import random
import time
import z3


def topo(roots):
    seen, out = {}, []
    for r in roots:
        st = [(r, False)]
        while st:
            e, d = st.pop()
            i = e.get_id()
            if d:
                if i not in seen:
                    seen[i] = True
                    out.append(e)
                continue
            if i in seen:
                continue
            st.append((e, True))
            if not leaf(e):
                for c in e.children():
                    if c.get_id() not in seen:
                        st.append((c, False))
    return out


def leaf(e):
    return z3.is_app(e) and (e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) or (e.num_args() == 0 and not z3.is_bv_value(e)))


def simulate(nodes, n, rnd):
    val = {}
    K = z3
    for e in nodes:
        w = e.size() if z3.is_bv(e) else 1
        m = (1 << w) - 1
        if leaf(e):
            if z3.is_true(e) or z3.is_false(e):
                v = [int(z3.is_true(e))] * n
            else:
                v = [rnd.choice([0, m, rnd.getrandbits(w), rnd.getrandbits(w), rnd.getrandbits(w)]) for _ in range(n)]
        elif z3.is_bv_value(e):
            v = [e.as_long()] * n
        else:
            a = [val[c.get_id()] for c in e.children()]
            k = e.decl().kind()
            ps = e.params() if hasattr(e, 'params') else []

            def red(f):
                r = a[0]
                for b in a[1:]:
                    r = [f(x, y) & m for x, y in zip(r, b)]
                return r
            cw = e.arg(0).size() if z3.is_bv(e.arg(0)) else 1

            def sg(x):
                return x - (1 << cw) if x >> (cw - 1) & 1 else x
            if k == K.Z3_OP_BADD: v = red(lambda x, y: x + y)
            elif k == K.Z3_OP_BSUB: v = red(lambda x, y: x - y)
            elif k == K.Z3_OP_BMUL: v = red(lambda x, y: x * y)
            elif k == K.Z3_OP_BNEG: v = [-x & m for x in a[0]]
            elif k in (K.Z3_OP_BAND, K.Z3_OP_AND): v = red(lambda x, y: x & y)
            elif k in (K.Z3_OP_BOR, K.Z3_OP_OR): v = red(lambda x, y: x | y)
            elif k in (K.Z3_OP_BXOR, K.Z3_OP_XOR): v = red(lambda x, y: x ^ y)
            elif k in (K.Z3_OP_BNOT, K.Z3_OP_NOT): v = [~x & m for x in a[0]]
            elif k == K.Z3_OP_BSHL: v = [(x << y) & m if y < w else 0 for x, y in zip(*a)]
            elif k == K.Z3_OP_BLSHR: v = [x >> y if y < w else 0 for x, y in zip(*a)]
            elif k == K.Z3_OP_BASHR: v = [(sg(x) >> min(y, w)) & m for x, y in zip(*a)]
            elif k == K.Z3_OP_CONCAT:
                v = [0] * n
                for c, b in zip(e.children(), a):
                    v = [(x << c.size()) | y for x, y in zip(v, b)]
            elif k == K.Z3_OP_EXTRACT: v = [(x >> ps[1]) & m for x in a[0]]
            elif k == K.Z3_OP_ZERO_EXT: v = a[0]
            elif k == K.Z3_OP_SIGN_EXT: v = [sg(x) & m for x in a[0]]
            elif k == K.Z3_OP_ROTATE_LEFT: v = [((x << (ps[0] % w)) | (x >> (w - ps[0] % w))) & m for x in a[0]]
            elif k == K.Z3_OP_ROTATE_RIGHT: v = [((x >> (ps[0] % w)) | (x << (w - ps[0] % w))) & m for x in a[0]]
            elif k == K.Z3_OP_EXT_ROTATE_LEFT: v = [((x << (y % w)) | (x >> (w - y % w))) & m for x, y in zip(*a)]
            elif k == K.Z3_OP_EXT_ROTATE_RIGHT: v = [((x >> (y % w)) | (x << (w - y % w))) & m for x, y in zip(*a)]
            elif k == K.Z3_OP_ITE: v = [y if c else z for c, y, z in zip(*a)]
            elif k in (K.Z3_OP_EQ, K.Z3_OP_IFF): v = [int(x == y) for x, y in zip(*a)]
            elif k == K.Z3_OP_ULT: v = [int(x < y) for x, y in zip(*a)]
            elif k == K.Z3_OP_ULEQ: v = [int(x <= y) for x, y in zip(*a)]
            elif k == K.Z3_OP_SLT: v = [int(sg(x) < sg(y)) for x, y in zip(*a)]
            elif k == K.Z3_OP_SLEQ: v = [int(sg(x) <= sg(y)) for x, y in zip(*a)]
            else:
                return None
        val[e.get_id()] = v
    return val


def equal(pairs, budget=120, stats=None):
    """pairs of terms -> 'proved', ('failed', model) or 'unknown'"""
    t0 = time.time()
    A = [a for a, b in pairs]
    B = [b for a, b in pairs]
    nodes = topo(A + B)
    keep = list(nodes)
    n = 24
    val = simulate(nodes, n, random.Random(7))
    if val is None:
        return 'unknown', None
    for a, b in zip(A, B):
        x, y = val[a.get_id()], val[b.get_id()]
        for i in range(n):
            if x[i] != y[i]:
                return 'failed', {str(e): val[e.get_id()][i] for e in nodes if leaf(e)}
    # bottom-up merging; rep[id] = the node that stands for id
    rep = {}
    bysig = {}
    memo = {}      # id -> expression over representatives' cut variables
    cutvar = {}

    def var(e):
        i = e.get_id()
        if i not in cutvar:
            cutvar[i] = e if leaf(e) or z3.is_bv_value(e) else z3.FreshConst(e.sort(), 'c')
        return cutvar[i]
    deps = {}

    def local(e, depth):
        """e over cut variables: representatives with several members, at the given depth"""
        if leaf(e) or z3.is_bv_value(e) or z3.is_true(e) or z3.is_false(e):
            return e
        return e.decl()(*[cutdown(c, depth) for c in e.children()])

    multi = set()

    def cutdown(c, depth):
        c = rep.get(c.get_id(), c)
        if leaf(c) or z3.is_bv_value(c):
            return c
        if c.get_id() in multi or depth <= 0:
            return var(c)
        return local(c, depth - 1)
    q = 0
    tsolve = 0
    for e in nodes:
        i = e.get_id()
        if leaf(e) or z3.is_bv_value(e):
            rep[i] = e
            continue
        sig = (e.sort().sexpr(), tuple(val[i]))
        for o in bysig.get(sig, []):
            done = False
            for depth in (1, 3, 6, 10):
                x, y = z3.simplify(local(e, depth), som=False), z3.simplify(local(o, depth))
                if x.eq(y):
                    done = True
                    break
                s = z3.Solver()
                s.set('timeout', 3000 if depth < 10 else 10000)
                s.add(x != y)
                q += 1
                t1 = time.time()
                r = s.check()
                tsolve += time.time() - t1
                if r == z3.unsat:
                    done = True
                    break
                if time.time() - t0 > budget:
                    return 'unknown', None
            if done:
                rep[i] = o
                multi.add(o.get_id())
                break
        else:
            rep[i] = e
            bysig.setdefault(sig, []).append(e)
    if stats is not None:
        stats.update(queries=q, nodes=len(nodes), solver_s=tsolve)
    for a, b in zip(A, B):
        if not rep[a.get_id()].eq(rep[b.get_id()]):
            return 'unknown', None
    return 'proved', None
