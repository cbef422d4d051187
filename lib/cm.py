"""Reference computations for complex multiplication: Hilbert class polynomials
evaluated with fixed-point integers, reduced forms, Pell-type solutions."""
import math
from functools import lru_cache


def forms(D):
    """primitive reduced forms (a, b, c) of discriminant -D"""
    out = []
    a = 1
    while 3 * a * a <= D:
        for b in range(-a + 1, a + 1):
            if (b * b + D) % (4 * a): continue
            c = (b * b + D) // (4 * a)
            if c < a or (c == a and b < 0): continue
            if math.gcd(math.gcd(a, b), c) == 1: out.append((a, b, c))
        a += 1
    return out


@lru_cache(None)
def pi_fixed(P):
    """floor-ish 2^P pi by Machin's formula"""
    def at(n):
        x = (1 << (P + 32)) // n
        s, k, n2, sg = x, 1, n * n, 1
        while x:
            x //= n2
            k += 2
            sg = -sg
            s += sg * (x // k)
        return s
    return 4 * (4 * at(5) - at(239)) >> 32


def exp_neg(x, P):
    """2^P exp(-x / 2^P), x >= 0"""
    n = max(0, x.bit_length() - P + 8)
    Q = P + 2 * n + 64
    y = -(x << (Q - P)) >> n
    s = t = 1 << Q
    k = 1
    while t:
        t = (t * y >> Q) // k if t * y >= 0 else -((-(t * y) >> Q) // k)
        s += t
        k += 1
    for _ in range(n): s = s * s >> Q
    return s >> (Q - P)


def cis(x, P):
    """2^P (cos, sin) of x / 2^P"""
    Q = P + 64
    y = x << 32 if False else x << (Q - P)
    n = max(0, abs(y).bit_length() - Q + 8)
    y >>= n
    c, s = 1 << Q, 0
    re, im = 1 << Q, 0
    k = 0
    tr, ti = 1 << Q, 0
    while tr or ti:
        k += 1
        tr, ti = int_div(-(ti * y >> Q), k), int_div(tr * y >> Q, k)
        re += tr
        im += ti
        if abs(tr) <= 1 and abs(ti) <= 1: break
    for _ in range(n):
        re, im = (re * re - im * im) >> Q, (2 * re * im) >> Q
    return re >> (Q - P), im >> (Q - P)


def int_div(a, b):
    return a // b if a >= 0 else -(-a // b)


def hilbert(D):
    """coefficients, lowest first, of the class polynomial of discriminant -D"""
    fs = forms(D)
    bits = math.pi * math.sqrt(D) / math.log(2) * sum(1.0 / a for a, _, _ in fs)
    P = int(bits) + 64 * 2 + 8 * len(fs) + int(3 * math.pi * math.sqrt(D) / math.log(2))
    def mul(u, v): return ((u[0] * v[0] - u[1] * v[1]) >> P, (u[0] * v[1] + u[1] * v[0]) >> P)
    def div(u, v):
        d = v[0] * v[0] + v[1] * v[1]
        return (((u[0] * v[0] + u[1] * v[1]) << P) // d, ((u[1] * v[0] - u[0] * v[1]) << P) // d)
    one = 1 << P
    pi = pi_fixed(P)
    rt = math.isqrt(D << (2 * P))
    js = []
    for a, b, c in fs:
        # tau = (-b + sqrt(-D)) / (2a); q = exp(2 pi i tau)
        m = exp_neg((pi * rt >> P) // a, P)
        cr, ci = cis(-(pi * b) // a, P)
        q = (m * cr >> P, m * ci >> P)
        # E4 = 1 + 240 sum n^3 q^n / (1 - q^n);  Delta / q = prod (1 - q^n)^24
        e4, pr, qn, n = [one, 0], (one, 0), (one, 0), 0
        while True:
            n += 1
            qn = mul(qn, q)
            if abs(qn[0]) <= 2 and abs(qn[1]) <= 2: break
            w = (one - qn[0], -qn[1])
            t = div(qn, w)
            e4[0] += 240 * n ** 3 * t[0]
            e4[1] += 240 * n ** 3 * t[1]
            pr = mul(pr, w)
        p2 = mul(pr, pr); p4 = mul(p2, p2); p8 = mul(p4, p4); p24 = mul(mul(p8, p8), p8)
        e = tuple(e4)
        js.append(div(mul(mul(e, e), e), mul(p24, q)))
    poly = [(one, 0)]
    for j in js:
        nxt = [(0, 0)] + poly
        for i, x in enumerate(poly):
            y = mul(x, j)
            nxt[i] = (nxt[i][0] - y[0], nxt[i][1] - y[1])
        poly = nxt
    out = []
    for re, im in poly:
        r = (re + (one >> 1)) >> P
        if abs(re - (r << P)) > one >> 20 or abs(im) > one >> 20: raise RuntimeError("reference class polynomial lost precision for D=%d" % D)
        out.append(r)
    return out
