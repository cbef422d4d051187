"""Discrete logarithms, trial division, dynamic arrays, symbol tables."""
import ctypes as C
import pbc, families, model as M

RULE = ("an evaluation is one logarithm checked by raising the base to it in the reference model, one complete factor list compared with the reference factorization, or one observable "
        "of a container after a step of a random history; distinct counts (solver, group kind, order class), (factor pattern, limit class), (container, operation, size)")
ASSUMPTIONS = ["targets are powers of the base (the solvers do not return otherwise, documented)", "Pollard rho: the exponent's structure is the integers modulo a multiple of the order of the base",
               "trial division: n >= 1; a remaining factor without prime divisors up to the limit is reported whole, with multiplicity 1 (as the code documents for its caller)",
               "arrays are indexed within bounds; the last element is asked for, and removed, only from non-empty arrays; callbacks do not modify the container they visit"]
TD = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_uint)
DA = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)
GROUPS = ("fpstar", "fpsub", "curve", "curvesub", "quad", "G1", "GT", "fpsub2")


def units(tier, rng):
    k = 1 if tier == "quick" else 15
    out = []
    for g in GROUPS:
        for i in range(3 * k): out.append(("dlog", dict(g=g, i=i, n=60)))
        for i in range(k): out.append(("dlogall", dict(g=g, i=i)))
    for i in range(2 * k): out.append(("dlogbig", dict(i=i, n=4)))
    for i in range(6 * k): out.append(("trial", dict(i=i, n=250)))
    out.append(("trialall", dict(i=0, hi=2500 * k)))
    for i in range(8 * k): out.append(("darray", dict(i=i, n=1500)))
    for i in range(4 * k): out.append(("symtab", dict(i=i, n=1200)))
    return out


class Group:
    """a cyclic group with a generator of known order, and its exponent structures"""
    def __init__(self, L, rng, kind, big=False):
        self.L, self.kind, self.close_ = L, kind, []
        F = None
        if kind in ("fpstar", "fpsub", "fpsub2"):
            p = M.rand_prime(rng, rng.choice((3, 4, 5, 6, 8, 10)) if not big else rng.choice((20, 24)))
            F = pbc.fp(L, max(p, 5))
            m = F.m
            self.H, self.mul, self.pw, self.one = F, m.mul, m.pow, 1
            n = m.p - 1
            while True:
                g = rng.randrange(2, m.p) if m.p > 3 else 2
                if all(pow(g, n // q, m.p) != 1 for q in families.prime_factors(n)): break
            if kind == "fpsub":
                r = max(families.prime_factors(n))
                g, n = pow(g, n // r, m.p), r
            self.g, self.n = g, n
            if kind == "fpsub2":     # any prime order, two included
                r = rng.choice(list(families.prime_factors(n)))
                self.g, self.n = pow(g, n // r, m.p), r
            self.close_ = [F]
        elif kind == "quad":
            F = pbc.fp(L, M.rand_prime(rng, rng.choice((3, 4, 5)) if not big else 11))
            if F.m.p < 5:
                F.close()
                F = pbc.fp(L, 7)
            Q = pbc.quadratic(L, F)
            m = Q.m
            N = m.card - 1
            while True:
                g = m.uniform(rng)
                if g != m.zero and all(m.pow(g, N // q) != m.one for q in families.prime_factors(N)): break
            d = rng.choice([1] + list(families.prime_factors(N)))
            self.H, self.g, self.n, self.mul, self.pw, self.one = Q, m.pow(g, d), N // d, m.mul, m.pow, m.one
            self.close_ = [Q, F]
        elif kind in ("curve", "curvesub"):
            while True:
                p = M.rand_prime(rng, rng.choice((4, 5, 6, 7)) if not big else 13)
                if p < 5: continue
                m = M.Fp(p)
                a, b = rng.randrange(p), rng.randrange(p)
                if (4 * a ** 3 + 27 * b * b) % p == 0: continue
                cv = M.Curve(m, a, b)
                N = families.count(cv, p)
                P = cv.random(rng)
                n = order(cv, P, N)
                if n > 2: break
            if kind == "curvesub":
                r = max(families.prime_factors(n))
                P, n = cv.mul(n // r, P), r
            F = pbc.fp(L, p)
            H = pbc.curve_ab(L, F, a, b, N)
            self.H, self.g, self.n, self.mul, self.pw, self.one = H, P, n, cv.add, (lambda x, k: cv.mul(k, x)), None
            self.close_ = [H, F]
        else:
            while True:
                Pr = families.small(L, rng, rng.choice(("A", "D", "F")))
                if Pr.r < 5000: break
                Pr.close()
            self.P = Pr
            H = getattr(Pr, kind)
            e = H.new()
            if kind == "GT":
                for _ in range(50):
                    x, y = Pr.G1.new(), Pr.G2.new()
                    L.random(x), L.random(y)
                    L.pairing_apply(e, x, y, Pr.h)
                    if not L.is1(e): break
            else:
                for _ in range(50):
                    L.random(e)
                    if not L.is0(e): break
            m = H.m
            self.H, self.g, self.n = H, H.get(e), Pr.r
            self.one = None if kind == "G1" else m.one
            self.mul = m.add if kind == "G1" else m.mul
            self.pw = (lambda x, k: m.mul(k, x)) if kind == "G1" else m.pow
            if self.g == self.one: self.n = 1
            self.ge = e
            self.close_ = [Pr]

    def new(self, v):
        e = self.H.new()
        self.H.set(e, v)
        return e

    def power(self, k):
        """library element equal to g^k"""
        if self.kind in ("GT", "G1"):
            e = self.H.new()
            self.L.pow_mpz(e, self.ge, self.L.Z(k))
            return e
        return self.new(self.pw(self.g, k))

    def close(self):
        for x in self.close_: x.close()


def order(cv, P, N):
    n = N
    for q in families.prime_factors(N):
        while n % q == 0 and cv.mul(n // q, P) is None: n //= q
    return n


def solve(mon, L, rng, G, k, zs):
    """all solvers on h = g^k"""
    g, h = G.power(1), G.power(k)
    hv = G.H.get(h)
    gv = G.H.get(g)
    for tag, Zf, exp in zs:
        x = Zf.new()
        for solver in ("brute", "rho"):
            if solver == "rho" and tag == "Z": continue
            mon.case(solver, G.kind, "order", G.n, "g", gv, "h", hv, "x in", tag)
            (L.dlog_brute if solver == "brute" else L.dlog_rho)(x, g, h)
            v = L.leaf(x)
            mon.check(G.pw(gv, v) == hv, "%s returns an exponent of the target" % solver, lambda: "got %d, target exponent %d of order %d" % (v, k, G.n), G.kind, tag, "prime" if M.is_prime(G.n) else "composite")
            if solver == "brute" and tag == "Z": mon.check(1 <= v <= G.n, "brute force finds the smallest positive exponent", v)
            mon.eq((G.H.get(g), G.H.get(h)), (gv, hv), "operands are unchanged")
            mon.stat(solver)


def zstructs(L, rng, G):
    out = [("Z", pbc.FieldH(L, L.field_z(), None, "z"), 0), ("Z_r", pbc.fp(L, G.n, "fp" if G.n % 2 else "naive"), G.n)]
    c = rng.choice((2, 3, 4, 6))
    out.append(("Z_multiple", pbc.fp(L, G.n * c, "naive"), G.n * c))
    return out


def u_dlog(mon, L, rng, g, i, n):
    while n > 0:
        G = Group(L, rng, g)
        zs = [z for z in zstructs(L, rng, G) if z[2] != 1]
        for _ in range(min(6, n)):
            k = rng.choice((0, 1, G.n - 1, rng.randrange(G.n), rng.randrange(G.n), rng.randrange(G.n)))
            solve(mon, L, rng, G, k % G.n, zs)
        n -= 6
        for z in zs: z[1].close()
        G.close()


def u_dlogall(mon, L, rng, g, i):
    """every target of one small group"""
    while True:
        G = Group(L, rng, g)
        if G.n <= 60: break
        G.close()
        if g in ("G1", "GT"):
            G = Group(L, rng, g)
            break
    zs = [z for z in zstructs(L, rng, G) if z[2] != 1]
    for k in range(min(G.n, 60)): solve(mon, L, rng, G, k, zs)
    for z in zs: z[1].close()
    G.close()


def u_dlogbig(mon, L, rng, i, n):
    for g in ("fpstar", "fpsub", "quad", "curve"):
        G = Group(L, rng, g, big=True)
        Zr = pbc.fp(L, G.n, "naive")
        for _ in range(n):
            k = rng.randrange(G.n)
            e, h, x = G.power(1), G.power(k), Zr.new()
            mon.case("rho", G.kind, G.n, k)
            L.dlog_rho(x, e, h)
            v = L.leaf(x)
            mon.check(G.pw(G.g, v) == G.H.get(h), "rho returns an exponent of the target", lambda: "got %d target %d of order %d" % (v, k, G.n), G.kind, "large")
        Zr.close()
        G.close()


# ---------------------------------------------------------------- factoring
def factor(n):
    out, d = [], 2
    while n > 1 and d * d <= n and d < 70000:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k: out.append((d, k))
        d += 1
    return out + ([(n, 1)] if n > 1 else [])


def expected(fac, limit):
    """factors below the limit, and at most one remaining cofactor: prime factors beyond it, or a prime"""
    if limit is None: return fac
    small = [f for f in fac if f[0] <= limit]
    rest = 1
    for p, k in fac:
        if p > limit: rest *= p ** k
    return small + ([(rest, 1)] if rest > 1 else [])


def trial(mon, L, rng, n, fac, limit, stop):
    got = []
    def cb(f, m):
        got.append((L.zget(f), m))
        return int(stop is not None and len(got) == stop)
    hn, hl = L.Z(n), None if limit is None else L.Z(limit)
    mon.case("trial division", n, fac, limit, stop)
    rc = L.trial_divide(C.cast(TD(cb), C.c_void_p), hn, hl)
    exp = expected(fac, limit)
    stopped = stop is not None and stop <= len(exp)
    if stopped: exp = exp[:stop]
    cls = "none" if limit is None else "low" if limit < fac[0][0] else "high" if fac and limit >= fac[-1][0] else "between"
    mon.eq(got, exp, "the factors and multiplicities", len(fac), cls, max([k for _, k in fac] or [0]))
    mon.eq(rc != 0, stopped, "the result tells whether the callback stopped the search", cls, stopped)
    mon.eq(L.zget(hn), n, "the number is unchanged")
    if hl: mon.eq(L.zget(hl), limit, "the limit is unchanged")


def u_trial(mon, L, rng, i, n):
    small = [p for p in range(2, 400) if M.is_prime(p)]
    for _ in range(n):
        fac = {}
        for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 6))): fac[rng.choice(small[:8] if rng.random() < .6 else small)] = rng.choice((1, 1, 1, 2, 3, 5, 20))
        limit = None
        if rng.random() < .5:
            big = [M.rand_prime(rng, b) for b in rng.choice(((), (30,), (70,), (200,), (20, 40), (30, 33), (64, 65), (100, 120)))]
            for p in big: fac[p] = rng.choice((1, 1, 2))
            limit = rng.choice((1, 2, 3, 100, 397, 401, 1000, rng.randrange(1, 500), rng.choice(list(fac) or [5]) % 1000, rng.choice(small), rng.choice(small) - 1))
            limit = max(limit, 1)
        elif rng.random() < .5: fac[M.rand_prime(rng, rng.choice((20, 60, 64, 65, 128, 300)))] = 1
        fac = sorted(fac.items())
        N = 1
        for p, k in fac: N *= p ** k
        # a prime remainder is recognised at once, whatever the limit: the same report either way
        if not fac:
            got = []
            rc = L.trial_divide(C.cast(TD(lambda f, m: got.append(m) or 0), C.c_void_p), L.Z(1), None if limit is None else L.Z(limit))
            mon.check(rc == 0 and not got, "one has no factors", got)
            continue
        trial(mon, L, rng, N, fac, limit, rng.choice((None, None, 1, 2, 3)))


def u_trialall(mon, L, rng, i, hi):
    for n in range(2, hi):
        fac = factor(n)
        trial(mon, L, rng, n, fac, None, None)
        trial(mon, L, rng, n, fac, rng.randrange(1, 60), None)


# ---------------------------------------------------------------- containers
def p2i(p): return p or 0


def u_darray(mon, L, rng, i, n):
    """several arrays against Python lists"""
    base = L.alloc_live(0)
    pool = []
    def ops(a, l, where):
        mon.eq(L.darray_count(a), len(l), "count after " + where, len(l) > 8)
        mon.eq(bool(L.darray_is_empty(a)), not l, "is_empty after " + where)
        if [p2i(L.darray_at(a, j)) for j in range(len(l))] != l: mon.fail("contents after " + where, (l[:40],))
        else: mon.ok("darray", where, min(len(l), 40))
        if l: mon.eq(p2i(L.darray_last(a)), l[-1], "last after " + where)
    for _ in range(n):
        if not pool or (len(pool) < 4 and rng.random() < .05):
            st = rng.random() < .5
            pool.append([(L.darray_static_new if st else L.darray_new)(), [], st])
            ops(*pool[-1][:2], "construction")
            continue
        P = rng.choice(pool)
        a, l = P[0], P[1]
        c = rng.randrange(18)
        v = rng.randrange(12) if rng.random() < .8 else rng.getrandbits(63)
        mon.case("darray", c, len(l))
        if c < 6:
            for _ in range(rng.choice((1, 1, 1, 2, 7, 9, 20)) if len(l) < 200 else 1):
                L.darray_append(a, v)
                l.append(v)
            w = "append"
        elif c == 6 and l:
            j = rng.choice((0, len(l) - 1, rng.randrange(len(l))))
            L.darray_remove_index(a, j)
            del l[j]
            w = "remove_index"
        elif c == 7 and l:
            L.darray_remove_last(a)
            l.pop()
            w = "remove_last"
        elif c == 8 and l:
            v = rng.choice(l)
            L.darray_remove(a, v)
            l.remove(v)
            w = "remove"
        elif c == 9:
            mon.eq(L.darray_index_of(a, v), l.index(v) if v in l else -1, "index_of", v in l)
            w = "index_of"
        elif c == 10 and rng.random() < .4:
            L.darray_remove_all(a)
            del l[:]
            w = "remove_all"
        elif c == 11:
            Q = rng.choice(pool)
            L.darray_copy(Q[0], a)
            if Q is not P: Q[1][:] = l
            ops(Q[0], Q[1], "copy (target)")
            w = "copy (source)"
        elif c == 12:
            t, seen = rng.choice((lambda x: x % 2, lambda x: x < 6, lambda x: x == 3, lambda x: 1, lambda x: 0, lambda x: x > 9)), []
            def f(p, s): seen.append(p2i(p)); return int(bool(t(p2i(p))))
            L.darray_remove_with_test(a, C.cast(DA(f), C.c_void_p))
            l[:] = [x for x in l if not t(x)]
            w = "remove_with_test"
        elif c == 13:
            k, seen, sc = rng.randrange(1, 5), [], []
            def f(p, s): seen.append(p2i(p)); sc.append(p2i(s)); return 0
            L.darray_forall(a, C.cast(DA(f), C.c_void_p), k, 77)
            mon.eq(seen, l, "forall visits every item in order", k)
            if k > 1: mon.check(all(s == 77 for s in sc), "forall passes the scope on", sc[:3], k)
            w = "forall"
        elif c == 14:
            sc = []
            def f(p, s): sc.append(p2i(s)); return int(p2i(p) == v)
            r = L.darray_at_test(a, C.cast(DA(f), C.c_void_p), 99)
            mon.eq(p2i(r), v if v in l else 0, "at_test finds the first match", v in l)
            mon.check(all(s == 99 for s in sc), "at_test passes the scope on")
            w = "at_test"
        elif c == 15 and rng.random() < .2:
            (L.darray_static_free if P[2] else L.darray_free)(a)
            pool.remove(P)
            w = None
        else: continue
        if w: ops(a, l, w)
        if rng.random() < .1:
            for Q in pool: ops(Q[0], Q[1], "operation on another array")
    for P in pool: (L.darray_static_free if P[2] else L.darray_free)(P[0])
    mon.eq(L.alloc_live(0), base, "arrays release their memory")
    mon.eq(L.alloc_bad(), 0, "no foreign or repeated release")


def u_symtab(mon, L, rng, i, n):
    base = L.alloc_live(0)
    keys = [b"", b"a", b"b", b"aa", b"ab", b"A", b"a ", b"type", b"typ", b"q", b"\xff\x01", b"x" * 300, b"x" * 301] + [b"k%d" % j for j in range(40)]
    for _ in range(4):
        t, d = L.symtab_new(), {}
        for _ in range(n // 4):
            k = rng.choice(keys)
            c = rng.randrange(8)
            mon.case("symtab", c, k, len(d))
            if c < 3:
                v = rng.choice((0, rng.getrandbits(60)))
                b = C.create_string_buffer(k)      # the table keeps its own copy of the key
                L.symtab_put(t, v, b)
                C.memset(b, 0x21, len(k))
                d[k] = v
            mon.eq(p2i(L.symtab_at(t, k)), d.get(k, 0), "at", k in d, min(len(d), 20))
            mon.eq(bool(L.symtab_has(t, k)), k in d, "has", k in d)
            k2 = rng.choice(keys)
            mon.eq((p2i(L.symtab_at(t, k2)), bool(L.symtab_has(t, k2))), (d.get(k2, 0), k2 in d), "another key", k2 in d)
            if c == 7:
                seen = []
                def f(p, s): seen.append(p2i(p)); return 0
                L.symtab_forall(t, C.cast(DA(f), C.c_void_p))
                mon.eq(sorted(seen), sorted(d.values()), "forall visits every value once", min(len(d), 20))
        L.symtab_free(t)
    mon.eq(L.alloc_live(0), base, "tables release their memory")
    mon.eq(L.alloc_bad(), 0, "no foreign or repeated release")
