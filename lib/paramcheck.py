"""Independent verification of pairing parameters against the equations of their family.
Everything is recomputed from the numbers; nothing of the library is used."""
import math
import model as M, families


def embed_degree(r, q, limit=40):
    x, k = q % r, 1
    while x != 1:
        if x == 0 or k > limit: return None
        x = x * q % r
        k += 1
    return k


def annihilates(F, a, b, n, rng, tries=3):
    Cv = M.Curve(F, a, b)
    return all(Cv.mul(n, Cv.random(rng)) is None for _ in range(tries))


def order_is(F, q, a, b, n, rng):
    """the curve over F_q has exactly n points: n kills random points, lies in Hasse's interval, and no other multiple can"""
    t = q + 1 - n
    if t * t > 4 * q: return False
    if q < 400:
        Cv = M.Curve(F, a, b)
        return families.count(Cv, q) == n
    if not annihilates(F, a, b, n, rng): return False
    # exclude the twist-like alternatives by the order of some point
    Cv = M.Curve(F, a, b)
    w = 4 * math.isqrt(q) + 4
    for _ in range(40):
        P = Cv.random(rng)
        # exact order of P divides n; it determines n if it exceeds the width of the interval
        o = n
        for p in small_factors(n):
            while o % p == 0 and Cv.mul(o // p, P) is None: o //= p
        if o > w: return True
    return None


def small_factors(n):
    out, p = [], 2
    while p < 70000 and p * p <= n:
        if n % p == 0:
            out.append(p)
            while n % p == 0: n //= p
        p += 1
    if n > 1: out.append(n)
    return out


def solinas(d, I):
    r = 2 ** I("exp2") + I("sign1") * 2 ** I("exp1") + I("sign0")
    return r == I("r") and I("sign1") in (1, -1) and I("sign0") in (1, -1) and 0 < I("exp1") < I("exp2")


def irred_mod3(m, t):
    """x^m + x^t + 2 over F_3"""
    def red(f):
        for i in range(len(f) - 1, m - 1, -1):
            c = f[i]
            if c:
                f[i] = 0
                f[i - m + t] = (f[i - m + t] - c) % 3
                f[i - m] = (f[i - m] - 2 * c) % 3
        return f[:m] + [0] * (m - len(f))
    def cube(f):
        g = [0] * (3 * m)
        for i, c in enumerate(f): g[3 * i] = c
        return red(g)
    B = M.Fp(3)
    x = red([0, 1] + [0] * (m - 1))
    f, want = list(x), {m // p for p in small_factors(m)}
    mod = [2] + [0] * (m - 1) + [1]
    mod[t] = (mod[t] + 1) % 3
    for i in range(1, m + 1):
        f = cube(f)
        if i in want:
            g = M.poly_gcd(B, M.poly_sub(B, f, x), mod)
            if len(g) != 1: return False
    return f == x


def verify(text, rng):
    """list of (what, ok); ok None means not decided"""
    d = families.parse(text)
    I = lambda k: int(d[k])
    out = []
    def c(name, ok): out.append((name, ok))
    ty = d["type"]
    if ty == "a":
        q, r, h = I("q"), I("r"), I("h")
        c("q prime", M.is_prime(q)); c("r prime", M.is_prime(r)); c("q + 1 = h r", q + 1 == h * r)
        c("q = 3 mod 4", q % 4 == 3); c("h divisible by 12", h % 12 == 0); c("r form", solinas(d, I))
    elif ty == "a1":
        p, n, l = I("p"), I("n"), I("l")
        c("p prime", M.is_prime(p)); c("p + 1 = n l", p + 1 == n * l); c("p = 3 mod 4", p % 4 == 3); c("l multiple of 4", l % 4 == 0)
        c("no smaller cofactor", not any(M.is_prime(n * i - 1) for i in range(4, min(l, 4000), 4)))
    elif ty == "e":
        q, r, h, a, b = (I(k) for k in ("q", "r", "h", "a", "b"))
        c("q prime", M.is_prime(q)); c("r prime", M.is_prime(r)); c("q = h r^2 + 1", q == h * r * r + 1)
        c("r form", solinas(d, I))
        F = M.Fp(q)
        c("nonsingular", (4 * a ** 3 + 27 * b * b) % q != 0)
        c("coefficients reduced", 0 <= a < q and 0 <= b < q)
        c("curve order q - 1", order_is(F, q, a, b, q - 1, rng))
    elif ty == "f":
        q, r, b, beta = (I(k) for k in ("q", "r", "b", "beta"))
        t = q + 1 - r
        x = math.isqrt((t - 1) // 6) if t > 1 else 0
        c("trace 6x^2 + 1", t == 6 * x * x + 1)
        c("q of the form", any(q == 36 * y ** 4 + 36 * y ** 3 + 24 * y * y + 6 * y + 1 for y in (x, -x)))
        c("q prime", M.is_prime(q)); c("r prime", M.is_prime(r)); c("embedding degree 12", embed_degree(r, q) == 12)
        F = M.Fp(q)
        c("b reduced", 0 < b < q)
        c("curve order r", order_is(F, q, 0, b, r, rng))
        c("beta nonresidue", pow(beta, (q - 1) // 2, q) == q - 1)
        F2 = M.Quad(F, beta)
        al = (I("alpha0"), I("alpha1"))
        na = F2.neg(al)
        c("alpha reduced", all(0 <= v < q for v in al))
        c("x^6 + alpha irreducible", F2.pow(na, (q * q - 1) // 2) != F2.one and F2.pow(na, (q * q - 1) // 3) != F2.one)
        Cv = M.Curve(F2, F2.zero, F2.mul((b, 0), na))
        P = Cv.random(rng)
        c("twist order", Cv.mul(r * (2 * q - r), P) is None)
        c("twist has order r points", any(Cv.mul(2 * q - r, Cv.random(rng)) is not None for _ in range(3)))
    elif ty in "dg":
        q, n, h, r, a, b = (I(k) for k in ("q", "n", "h", "r", "a", "b"))
        k = 10 if ty == "g" else I("k")
        c("q prime", M.is_prime(q)); c("r prime", M.is_prime(r)); c("n = h r", n == h * r)
        c("embedding degree", embed_degree(r, q) == k)
        F = M.Fp(q)
        c("nonsingular", (4 * a ** 3 + 27 * b * b) % q != 0)
        c("coefficients reduced", 0 <= a < q and 0 <= b < q)
        c("curve order n", order_is(F, q, a, b, n, rng))
        nk = families.order_extn(q, q + 1 - n, k)
        c("nk", nk == I("nk")); c("hk", nk == I("hk") * r * r)
        low = [I("coeff%d" % i) for i in range(k // 2)]
        c("coeff reduced", all(0 <= v < q for v in low))
        c("irreducible", M.poly_irred(F, low + [1]))
        nqr = I("nqr")
        c("nonresidue", pow(nqr, (q - 1) // 2, q) == q - 1 if k // 2 % 2 else None)
    elif ty == "i":
        m, t, n, n2 = I("m"), I("t"), I("n"), I("n2")
        e = 3 ** ((m + 1) // 2)
        c("n prime", M.is_prime(n)); c("order equation", n * n2 in (3 ** m + e + 1, 3 ** m - e + 1)); c("m odd", m % 2 == 1)
        c("irreducible", 0 < t < m and irred_mod3(m, t))
        c("embedding degree 6", embed_degree(n, 3 ** m) == 6)
    else:
        c("known type", False)
    return d, out
