"""Pairing families: parameter text -> reference models of G1, G2, GT and of the pairing itself,
and small parameter sets of every family made independently of the library's generators."""
import ctypes as C
import os
import model as M, pbc, char3

REPO = os.environ.get("VERIF_REPO", "/repo")
SHIPPED = ("a", "a1", "d159", "d201", "d224", "d105171-196-185", "d277699-175-167", "d278027-190-181", "e", "f", "g149", "i")


def shipped_text(name):
    return open(os.path.join(REPO, "param", name + ".param")).read()


def parse(text):
    d = {}
    for l in text.splitlines():
        w = l.split()
        if len(w) == 2: d[w[0]] = w[1]
    return d


class GTH(pbc.FieldH):
    """Multiplicative group of order r in the field model m."""
    def get(self, e):
        if self.m.depth == 0: return self.L.leaf(e)
        return pbc.FieldH.get(self, e)

    def set(self, e, v):
        if self.m.depth == 0:
            n = self.L.len(e)
            self.L.from_bytes(e, int(v).to_bytes(n, "big"))
        else:
            self._set(e, self.m, v)


class GT3H(char3.Gf3H):
    pass


class Pairing:
    def __init__(self, L, text, key="", kind="normal", h=None):
        self.L, self.text, self.key, self.kind = L, text, key, kind
        self.h = h or L.pairing_new(text.encode(), C.c_size_t(-1).value)
        if not self.h: raise RuntimeError("parameters rejected: " + text[:200])
        p = parse(text)
        I = lambda k: int(p[k])
        t = p["type"]
        self.fam = t
        self.p = p
        cur = lambda h, mc, nm: pbc.CurveH(L, h, mc, nm, False)
        g1, g2, gt, zr = L.pairing_G1(self.h), L.pairing_G2(self.h), L.pairing_GT(self.h), L.pairing_Zr(self.h)
        self.symmetric = t in ("a", "a1", "e", "i")
        self.emb = None
        if t in ("a", "a1"):
            q = I("q") if t == "a" else I("p")
            self.r = I("r") if t == "a" else I("n")
            self.h1 = I("h") if t == "a" else I("l")
            B = M.Fp(q)
            K = M.Quad(B, B.neg(1))
            self.q, self.k = q, 2
            self.G1 = cur(g1, M.Curve(B, 1, 0), "G1")
            self.G1.n = q + 1
            self.GT = GTH(L, gt, K, "GT", False)
            self.EK = M.Curve(K, K.fromint(1), K.zero)
            self.emb1 = lambda P: None if P is None else (K.emb(P[0]), K.emb(P[1]))
            self.emb2 = lambda Q: None if Q is None else (K.emb(B.neg(Q[0])), (0, Q[1]))
        elif t in ("d", "g"):
            q, self.r = I("q"), I("r")
            k = I("k") if t == "d" else 10
            d = k // 2
            B = M.Fp(q)
            D = M.Ext(B, [I("coeff%d" % i) for i in range(d)])
            v = D.fromint(I("nqr"))
            K = M.Quad(D, v)
            self.q, self.k = q, k
            a, b = I("a"), I("b")
            self.G1 = cur(g1, M.Curve(B, a, b), "G1")
            self.G1.n = I("n")
            v2 = D.mul(v, v)
            tw = M.Curve(D, D.mul(D.fromint(a), v2), D.mul(D.fromint(b), D.mul(v2, v)))
            self.G2 = cur(g2, tw, "G2")
            tr = q + 1 - I("n")
            self.G2.full = order_extn(q, -tr, d)
            self.GT = GTH(L, gt, K, "GT", False)
            self.EK = M.Curve(K, K.fromint(a), K.fromint(b))
            vi = D.inv(v)
            vi2 = D.mul(vi, vi)
            self.emb1 = lambda P: None if P is None else (K.emb(D.fromint(P[0])), K.emb(D.fromint(P[1])))
            self.emb2 = lambda Q: None if Q is None else (K.emb(D.mul(Q[0], vi)), (D.zero, D.mul(Q[1], vi2)))
        elif t == "e":
            q, self.r = I("q"), I("r")
            B = M.Fp(q)
            self.q, self.k = q, 1
            self.G1 = cur(g1, M.Curve(B, I("a"), I("b")), "G1")
            self.G1.n = I("h") * self.r ** 2
            self.GT = GTH(L, gt, B, "GT", False)
            self.EK = self.G1.m
            self.emb1 = self.emb2 = lambda P: P
        elif t == "f":
            q, self.r = I("q"), I("r")
            B = M.Fp(q)
            Q2 = M.Quad(B, I("beta"))
            al = (I("alpha0"), I("alpha1"))
            K = M.Ext(Q2, [al] + [Q2.zero] * 5)
            self.q, self.k = q, 12
            b = I("b")
            self.G1 = cur(g1, M.Curve(B, 0, b), "G1")
            self.G1.n = self.r
            self.G2 = cur(g2, M.Curve(Q2, Q2.zero, Q2.neg(Q2.muli(al, b))), "G2")
            self.G2.full = self.r * (2 * q - self.r)
            self.GT = GTH(L, gt, K, "GT", False)
            self.EK = M.Curve(K, K.zero, K.fromint(b))
            nai = Q2.inv(Q2.neg(al))
            z = Q2.zero
            self.emb1 = lambda P: None if P is None else (K.fromint(P[0]), K.fromint(P[1]))
            self.emb2 = lambda Q: None if Q is None else ((z, z, z, z, Q2.mul(Q[0], nai), z), (z, z, z, Q2.mul(Q[1], nai), z, z))
        elif t == "i":
            m, tt = I("m"), I("t")
            leaf = M.Gf3m(m, tt)
            self.q, self.k, self.r = 3 ** m, 6, I("n")
            q2 = M.Ext(leaf, [leaf.one, leaf.zero])
            n2 = q2.neg(q2.one)
            K = M.Ext(q2, [n2, n2, q2.zero])
            self.G1 = char3.PointH(L, g1, leaf, "G1")
            self.G1.n = I("n") * I("n2")
            self.GT = char3.Gf3H(L, gt, K, leaf, "GT", False)
            self.EK = M.Curve3(K)
            self.EK.a = K.neg(K.one)
            up = lambda x: ((x, leaf.zero), q2.zero, q2.zero)
            rho, sig = (q2.zero, q2.one, q2.zero), ((leaf.zero, leaf.one), q2.zero, q2.zero)
            self.emb1 = lambda P: None if P is None else (up(P[0]), up(P[1]))
            self.emb2 = lambda Q: None if Q is None else (K.sub(rho, up(Q[0])), K.mul(sig, up(Q[1])))
            # published relation: eta_T^(3 T^2) = Tate^Z, T = -mu 3^((m+1)/2) - 1, Z = -mu 3^((m+3)/2)
            mu = 1 if m % 12 in (1, 11) else -1
            T = -mu * 3 ** ((m + 1) // 2) - 1
            self.tate_power = -mu * 3 ** ((m + 3) // 2) * pow(3 * T * T, -1, self.r) % self.r
        else:
            raise RuntimeError("type " + t)
        for G in (self.G1, getattr(self, "G2", None)):
            if G is None: continue
            G.quotient = None
            if G is not self.G1: G.quotient = G.full // self.r
            G.cofactor = None
        if self.symmetric: self.G2 = self.G1
        self.K = self.GT.m
        self.Zr = pbc.FieldH(L, zr, M.Fp(self.r), "Zr", False)

    def tate(self, P, Q):
        """reduced Tate pairing from the definition (Q a point of the library's G2)"""
        A, B = self.emb1(P), self.emb2(Q)
        t = M.tate(self.K, self.EK, A, B, self.r)
        return self.K.pow(t, self.tate_power) if self.fam == "i" else t

    def coset0(self, Q):
        """Q represents the identity of G2"""
        if self.G2.quotient is None: return Q is None
        return self.G2.m.mul(self.G2.quotient, Q) is None

    def free_els(self):
        for g in {id(x): x for x in (self.G1, self.G2, self.GT, self.Zr)}.values():
            g.free_els()

    def close(self):
        self.free_els()
        self.L.pairing_free(self.h)


def order_extn(q, t, n):
    """#E(F_{q^n}) from the trace over F_q"""
    s0, s1 = 2, t
    for _ in range(n - 1):
        s0, s1 = s1, t * s1 - q * s0
    return q ** n + 1 - s1


def with_shipped(L, name, fn):
    P = Pairing(L, shipped_text(name), name, "heavy" if name[0] in "fgi" else "normal")
    fn(P)
    P.close()


# ------------------------------------------------------------------ small parameter sets
def a_text(rng, rbits, qbits):
    while True:
        while True:
            e2 = max(2, rbits + rng.choice((-1, 0)))
            e1 = rng.randrange(1, e2)
            s1, s0 = rng.choice((1, -1)), rng.choice((1, -1))
            r = 2 ** e2 + s1 * 2 ** e1 + s0
            if r > 10 and M.is_prime(r): break         # 8-2-1 = 5 makes the last line degenerate
        tiny = rbits > 30 and rng.random() < .5        # cofactors of a few bits, down to the least possible, 4
        for _ in range(200 if not tiny else 3):
            h = 4 * rng.choice((1, 1, 1, 1, 2, 3, 4, 5, 7, 8, rng.randrange(1, 40))) if tiny else (rng.getrandbits(max(1, qbits - rbits)) + 1) * 12
            q = h * r - 1
            if M.is_prime(q) and h % r: break
        else: continue
        break
    return "type a\nq %d\nh %d\nr %d\nexp2 %d\nexp1 %d\nsign1 %d\nsign0 %d\n" % (q, h, r, e2, e1, s1, s0)


def a1_text(rng, bits, factors=2):
    least = rng.random() < .4                          # the least cofactor, 4
    while True:
        n = 1
        for _ in range(factors):
            n *= M.rand_prime(rng, bits)
        l = 4
        while not M.is_prime(l * n - 1): l += 4
        if l == 4 or not least: break
    p = l * n - 1
    extra = ""
    return "type a1\np %d\nn %d\nn0 1\nn1 1\nl %d\n" % (p, n, l)


def e_text(rng, rbits, vbits):
    while True:
        e2 = rbits
        e1 = rng.randrange(1, e2)
        s1, s0 = rng.choice((1, -1)), rng.choice((1, -1))
        r = 2 ** e2 + s1 * 2 ** e1 + s0
        if r > 4 and M.is_prime(r): break
    while True:
        v = rng.getrandbits(vbits) | 1 << (vbits - 1)
        h = 3 * v * v
        q = h * r * r + 1
        if M.is_prime(q): break
    # y^2 = x^3 + b with exactly q - 1 points (trace 2)
    F = M.Fp(q)
    while True:
        b = rng.randrange(1, q)
        Cv = M.Curve(F, 0, b)
        if all(Cv.mul(q - 1, Cv.random(rng)) is None for _ in range(6)): break
    return "type e\nq %d\nr %d\nh %d\na 0\nb %d\nexp2 %d\nexp1 %d\nsign1 %d\nsign0 %d\n" % (q, r, h, b, e2, e1, s1, s0)


def f_text(rng, x=None, bits=None):
    """Barreto-Naehrig; x a BN parameter or a size in bits"""
    while True:
        u = x if x is not None else rng.getrandbits(bits) * rng.choice((1, -1))
        q = 36 * u**4 + 36 * u**3 + 24 * u**2 + 6 * u + 1
        r = q - 6 * u * u
        if u and M.is_prime(q) and M.is_prime(r): break
        if x is not None: raise ValueError
    F = M.Fp(q)
    while True:
        b = rng.randrange(1, q)
        Cv = M.Curve(F, 0, b)
        pts = [Cv.random(rng) for _ in range(6)]
        if all(Cv.mul(r, P) is None for P in pts) and (q > 1000 or count(Cv, q) == r): break
    while True:
        beta = rng.randrange(2, q)
        if not F.is_sqr(beta): break
    Q2 = M.Quad(F, beta)
    while True:
        al = Q2.uniform(rng)
        na = Q2.neg(al)
        if al == Q2.zero or Q2.pow(na, (q * q - 1) // 2) == Q2.one or Q2.pow(na, (q * q - 1) // 3) == Q2.one: continue
        T = M.Curve(Q2, Q2.zero, Q2.neg(Q2.muli(al, b)))
        n = r * (2 * q - r)
        if all(T.mul(n, T.random(rng)) is None for _ in range(5)): break
    return "type f\nq %d\nr %d\nb %d\nbeta %d\nalpha0 %d\nalpha1 %d\n" % (q, r, b, beta, al[0], al[1])


def count(Cv, p):
    return 1 + sum(1 + (0 if t == 0 else 1 if pow(t, (p - 1) // 2, p) == 1 else -1) for t in (Cv.rhs(x) for x in range(p)))


def phi(k, q):
    return {2: q + 1, 6: q * q - q + 1, 10: q**4 - q**3 + q * q - q + 1, 14: q**6 - q**5 + q**4 - q**3 + q * q - q + 1}[k]


def dg_text(rng, k, fam="d", lo=60, hi=700, rmin=11, only=None):
    """small curve with embedding degree k, by enumeration"""
    d = k // 2
    while True:
        q = rng.randrange(lo, hi)
        if not M.is_prime(q): continue
        F = M.Fp(q)
        ph = phi(k, q)
        s = int(4 * q ** .5) // 2
        cand = set()
        for n in range(q + 1 - s, q + 2 + s):
            for r in prime_factors(n):
                if r >= rmin and (not only or r in only) and ph % r == 0 and (k == 2 or (q - 1) % r) and n % (r * r) and r != q: cand.add(n)
        if not cand: continue
        for _ in range(60):
            a, b = rng.randrange(q), rng.randrange(q)
            if (4 * a**3 + 27 * b * b) % q == 0: continue
            n = count(M.Curve(F, a, b), q)
            if n not in cand: continue
            r = max(x for x in prime_factors(n) if ph % x == 0 and (not only or x in only))
            full = order_extn(q, -(q + 1 - n), d)
            if full % r or (full // r) % r == 0: continue
            nk = order_extn(q, q + 1 - n, k)
            return d_format(rng, fam, F, q, n, r, a, b, k, nk)


def prime_factors(n):
    out, p = [], 2
    while p * p <= n:
        if n % p == 0:
            out.append(p)
            while n % p == 0: n //= p
        p += 1
    if n > 1: out.append(n)
    return out


def d_format(rng, fam, F, q, n, r, a, b, k, nk):
    d = k // 2
    while True:
        low = [rng.randrange(q) for _ in range(d)]
        if d == 1 or M.poly_irred(F, low + [1]): break
    while True:
        v = rng.randrange(2, q)
        if not F.is_sqr(v): break
    s = "type %s\nq %d\nn %d\nh %d\nr %d\na %d\nb %d\n" % (fam, q, n, n // r, r, a, b)
    if fam == "d": s += "k %d\n" % k
    s += "nk %d\nhk %d\n" % (nk, nk // (r * r))
    for i, c in enumerate(low): s += "coeff%d %d\n" % (i, c)
    return s + "nqr %d\n" % v


def cm_text(L, rng, fam="d"):
    """parameters of middle size from the library's own search and generator"""
    out = []
    CB = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p, C.c_void_p, C.c_int, C.c_int, C.c_void_p)
    def cb(q, n, h, r, D, k, cm):
        pr = (L.param_d if fam == "d" else L.param_g)(cm)
        out.append(L.capture(lambda f: L.param_out(f, pr))[1].decode())
        L.param_free(pr)
        return 1
    keep = CB(cb)
    Ds = [9563, 12574, 7, 62003, 15235 * 4 + 3] if fam == "d" else [35707, 35707]
    for D in rng.sample(Ds, len(Ds)):
        (L.cm_search_d if fam == "d" else L.cm_search_g)(C.cast(keep, C.c_void_p), D, 500)
        if out: return out[0]


BN_X = (-2, 1, -1, -3, 5, -5)


def small_text(rng, fam):
    if fam == "A": return a_text(rng, rng.choice((4, 5, 6, 9, 17, 33, 60, 64, 65, 128)), rng.choice((8, 20, 62, 64, 66, 80)) + 61)
    if fam == "a": return a_text(rng, rng.choice((4, 5, 6, 9)), rng.choice((4, 8, 12)) + 8)
    if fam == "1": return a1_text(rng, rng.choice((34, 48, 64, 70)), rng.choice((1, 2, 3)))
    if fam == "D": return dg_text(rng, rng.choice((6, 6, 6, 2, 10)))
    if fam == "G": return dg_text(rng, 10, "g", 100, 1500)
    if fam == "E": return e_text(rng, rng.choice((20, 40, 62, 63, 64)), rng.choice((20, 30, 60)))
    if fam == "F":
        return f_text(rng, bits=rng.choice((4, 8, 12, 17, 20, 33)))
    if fam == "I":
        m = rng.choice(list(char3.SMALL))
        return char3.param(m, char3.SMALL[m])[0]
    raise KeyError(fam)


def small(L, rng, fam):
    t = small_text(rng, fam)
    return Pairing(L, t, fam)
