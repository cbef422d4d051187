"""Independent reference algebra.  Nothing here is derived from the code under test:
plain integers, schoolbook polynomials, affine chord-and-tangent, and Miller's
algorithm with every denominator kept."""
import random


def is_prime(n, _w=(2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)):
    if n < 2:
        return False
    for p in _w:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in _w:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n


def prev_prime(n):
    n -= 1
    while not is_prime(n):
        n -= 1
    return n


def rand_prime(rng, bits, mod=1, res=0):
    while True:
        n = rng.getrandbits(bits) | (1 << (bits - 1))
        if mod > 1:
            n += (res - n) % mod
        else:
            n |= 1
        if n.bit_length() == bits and is_prime(n):
            return n


class Field:
    """Interface: zero one add sub neg mul inv order(card) fromint sample flat unflat."""
    def sub(self, a, b): return self.add(a, self.neg(b))
    def div(self, a, b): return self.mul(a, self.inv(b))
    def sqr(self, a): return self.mul(a, a)
    def cube(self, a): return self.mul(self.mul(a, a), a)
    def dbl(self, a): return self.add(a, a)
    def is0(self, a): return a == self.zero
    def is1(self, a): return a == self.one
    def halve(self, a): return self.mul(a, self.inv(self.fromint(2)))

    def pow(self, a, n):
        if n < 0:
            a, n = self.inv(a), -n
        r = self.one
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.sqr(a)
        return r

    def muli(self, a, n): return self.mul(a, self.fromint(n))

    def is_sqr(self, a):
        if a == self.zero:
            return True
        if self.card % 2 == 0:
            return True
        return self.pow(a, (self.card - 1) // 2) == self.one

    def sqrt(self, a, rng=random):
        """Some square root of the square a (Tonelli-Shanks)."""
        if a == self.zero:
            return a
        q = self.card
        s, t = 0, q - 1
        while t % 2 == 0:
            s, t = s + 1, t // 2
        while True:
            n = self.sample(rng)
            if not self.is_sqr(n):
                break
        c = self.pow(n, t)
        x = self.pow(a, (t + 1) // 2)
        b = self.pow(a, t)
        while b != self.one:
            m, y = 0, b
            while y != self.one:
                y = self.sqr(y)
                m += 1
            g = c
            for _ in range(s - m - 1):
                g = self.sqr(g)
            x, c = self.mul(x, g), self.sqr(g)
            b, s = self.mul(b, c), m
        return x


class Fp(Field):
    depth = 0
    zero, one = 0, 1

    def __init__(self, p):
        self.p = self.card = self.char = p
        self.one = 1 % p
        self.width = 1

    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def neg(self, a): return -a % self.p
    def mul(self, a, b): return a * b % self.p
    def inv(self, a): return pow(a, -1, self.p)
    def pow(self, a, n): return pow(a, n, self.p)
    def fromint(self, n): return n % self.p
    def muli(self, a, n): return a * n % self.p

    def sample(self, rng):
        p = self.p
        c = rng.randrange(12)
        if c == 0: return 0
        if c == 1: return 1 % p
        if c == 2: return p - 1
        if c == 3: return (p - 1) // 2
        if c == 4: return (p + 1) // 2 % p
        if c == 5: return (1 << rng.randrange(p.bit_length())) % p
        if c == 6: return -(1 << rng.randrange(p.bit_length())) % p
        if c == 7: return rng.randrange(min(p, 1 << rng.randrange(1, p.bit_length() + 1)))
        return rng.randrange(p)

    def uniform(self, rng): return rng.randrange(self.p)
    def flat(self, a): return [a]
    def unflat(self, it):
        for x in it: return x
        raise ValueError("too few coordinates")


class Ext(Field):
    """base[x]/(modulus), modulus given by its low coefficients (monic of degree n)."""
    def __init__(self, base, low):
        self.base, self.low, self.n = base, list(low), len(low)
        self.char = base.char
        self.card = base.card ** self.n
        self.zero = tuple([base.zero] * self.n)
        self.one = tuple([base.one] + [base.zero] * (self.n - 1))
        self.depth = base.depth + 1
        self.width = base.width * self.n

    def add(self, a, b):
        f = self.base.add
        return tuple(f(x, y) for x, y in zip(a, b))

    def sub(self, a, b):
        f = self.base.sub
        return tuple(f(x, y) for x, y in zip(a, b))

    def neg(self, a): return tuple(self.base.neg(x) for x in a)

    def mul(self, a, b):
        B, n = self.base, self.n
        r = [B.zero] * (2 * n - 1)
        for i, x in enumerate(a):
            if x == B.zero:
                continue
            for j, y in enumerate(b):
                r[i + j] = B.add(r[i + j], B.mul(x, y))
        for k in range(2 * n - 2, n - 1, -1):
            c = r[k]
            if c == B.zero:
                continue
            for j, l in enumerate(self.low):
                if l != B.zero:
                    r[k - n + j] = B.sub(r[k - n + j], B.mul(c, l))
        return tuple(r[:n])

    def inv(self, a):
        B = self.base
        f = list(self.low) + [B.one]
        g = poly_trim(B, list(a))
        if not g:
            raise ZeroDivisionError
        r0, r1, s0, s1 = f, g, [], [B.one]
        while len(r1) > 1:
            q, r = poly_divmod(B, r0, r1)
            r0, r1 = r1, r
            s0, s1 = s1, poly_sub(B, s0, poly_mul(B, q, s1))
            if not r1:
                raise ZeroDivisionError
        c = B.inv(r1[0])
        s = [B.mul(c, x) for x in s1]
        return tuple(s + [B.zero] * (self.n - len(s)))

    def fromint(self, n): return tuple([self.base.fromint(n)] + [self.base.zero] * (self.n - 1))
    def emb(self, a): return tuple([a] + [self.base.zero] * (self.n - 1))
    def muli(self, a, n): return tuple(self.base.muli(x, n) for x in a)
    def scal(self, c, a): return tuple(self.base.mul(c, x) for x in a)

    def sample(self, rng):
        B = self.base
        c = rng.randrange(10)
        if c == 0: return self.zero
        if c == 1: return self.one
        if c == 2: return self.emb(B.sample(rng))
        if c == 3:
            i = rng.randrange(self.n)
            return tuple(B.sample(rng) if j == i else B.zero for j in range(self.n))
        if c == 4: return tuple(B.uniform(rng) if rng.random() < .5 else B.zero for _ in range(self.n))
        if c == 5: return tuple(B.sample(rng) for _ in range(self.n))
        return self.uniform(rng)

    def uniform(self, rng): return tuple(self.base.uniform(rng) for _ in range(self.n))

    def flat(self, a):
        r = []
        for x in a:
            r += self.base.flat(x)
        return r

    def unflat(self, it): return tuple(self.base.unflat(it) for _ in range(self.n))


def Quad(base, nqr):
    """base[s]/(s^2 - nqr)"""
    e = Ext(base, [base.neg(nqr), base.zero])
    e.quad = True
    return e


# ------------------------------------------------------------------ polynomials
def poly_trim(B, f):
    f = list(f)
    while f and f[-1] == B.zero:
        f.pop()
    return f


def poly_add(B, f, g):
    n = max(len(f), len(g))
    z = B.zero
    return poly_trim(B, [B.add(f[i] if i < len(f) else z, g[i] if i < len(g) else z) for i in range(n)])


def poly_sub(B, f, g):
    return poly_add(B, f, [B.neg(x) for x in g])


def poly_mul(B, f, g):
    if not f or not g:
        return []
    r = [B.zero] * (len(f) + len(g) - 1)
    for i, x in enumerate(f):
        for j, y in enumerate(g):
            r[i + j] = B.add(r[i + j], B.mul(x, y))
    return poly_trim(B, r)


def poly_divmod(B, f, g):
    f, g = list(f), list(g)
    c = B.inv(g[-1])
    q = [B.zero] * max(0, len(f) - len(g) + 1)
    while len(f) >= len(g) and f:
        k = len(f) - len(g)
        t = B.mul(f[-1], c)
        q[k] = t
        for i, y in enumerate(g):
            f[k + i] = B.sub(f[k + i], B.mul(t, y))
        f = poly_trim(B, f)
    return poly_trim(B, q), f


def poly_gcd(B, f, g):
    while g:
        f, g = g, poly_divmod(B, f, g)[1]
    return f


def poly_eval(B, f, x):
    r = B.zero
    for c in reversed(f):
        r = B.add(B.mul(r, x), c)
    return r


def poly_powmod(B, f, n, m):
    r = [B.one]
    f = poly_divmod(B, f, m)[1]
    while n:
        if n & 1:
            r = poly_divmod(B, poly_mul(B, r, f), m)[1]
        n >>= 1
        if n:
            f = poly_divmod(B, poly_mul(B, f, f), m)[1]
    return r


def poly_irred(B, f):
    """Rabin's test over the finite field B (deg >= 1)."""
    n = len(f) - 1
    if n < 1:
        return False
    if n == 1:
        return True
    x = [B.zero, B.one]
    ps, k, d = set(), n, 2
    while k > 1:
        if k % d == 0:
            ps.add(d)
            k //= d
        else:
            d += 1
    xs = {0: x}
    h = x
    for i in range(1, n + 1):
        h = poly_powmod(B, h, B.card, f)
        xs[i] = h
    if poly_sub(B, xs[n], x):
        return False
    for p in ps:
        g = poly_gcd(B, f, poly_sub(B, xs[n // p], x))
        if len(g) != 1:
            return False
    return True


class PolyRing(Field):
    """base[x]; values are trimmed coefficient tuples."""
    zero = ()

    def __init__(self, base):
        self.base, self.char, self.depth = base, base.char, base.depth + 1
        self.one = (base.one,) if base.one != base.zero else ()
        self.card = 1 << 12  # only bounds exponents in workloads

    def t(self, f): return tuple(poly_trim(self.base, f))
    def add(self, a, b): return tuple(poly_add(self.base, a, b))
    def sub(self, a, b): return tuple(poly_sub(self.base, a, b))
    def neg(self, a): return tuple(self.base.neg(x) for x in a)
    def mul(self, a, b): return tuple(poly_mul(self.base, a, b))
    def inv(self, a):
        if len(a) != 1: raise ZeroDivisionError
        return (self.base.inv(a[0]),)
    def fromint(self, n): return self.t([self.base.fromint(n)])
    def muli(self, a, n): return self.t([self.base.muli(x, n) for x in a])

    def sample(self, rng):
        B, c = self.base, rng.randrange(8)
        if c == 0: return ()
        if c == 1: return self.one
        if c == 2: return self.t([B.sample(rng)])
        if c == 3: return tuple([B.zero] * rng.randrange(8) + [B.one])
        if c == 4: return self.t([B.sample(rng) for _ in range(rng.randrange(1, 4))])
        return self.t([B.sample(rng) for _ in range(rng.randrange(1, 12))])

    def flat(self, a):
        r = []
        for x in a:
            r += self.base.flat(x)
        return r


# ------------------------------------------------------------------ curves
class Curve:
    """y^2 = x^3 + a x + b over F (char > 3); a point is None (infinity) or (x, y)."""
    def __init__(self, F, a, b):
        self.F, self.a, self.b = F, a, b

    def rhs(self, x):
        F = self.F
        return F.add(F.mul(F.add(F.sqr(x), self.a), x), self.b)

    def on(self, P):
        return P is None or self.F.sqr(P[1]) == self.rhs(P[0])

    def neg(self, P):
        return None if P is None else (P[0], self.F.neg(P[1]))

    def add(self, P, Q):
        F = self.F
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == F.zero:
                return None
            l = F.div(F.add(F.muli(F.sqr(P[0]), 3), self.a), F.add(P[1], P[1]))
        else:
            l = F.div(F.sub(Q[1], P[1]), F.sub(Q[0], P[0]))
        x = F.sub(F.sub(F.sqr(l), P[0]), Q[0])
        return (x, F.sub(F.mul(l, F.sub(P[0], x)), P[1]))

    def mul(self, n, P):
        if n < 0:
            n, P = -n, self.neg(P)
        R = None
        while n:
            if n & 1:
                R = self.add(R, P)
            n >>= 1
            if n:
                P = self.add(P, P)
        return R

    def random(self, rng):
        while True:
            x = self.F.uniform(rng)
            t = self.rhs(x)
            if self.F.is_sqr(t):
                y = self.F.sqrt(t, rng)
                return (x, y if rng.random() < .5 else self.F.neg(y))


def line(F, C, A, B, Q):
    """The line through A and B (tangent if equal) at Q, all affine over F; A, B not infinity."""
    if A[0] == B[0] and A[1] != B[1] or (A == B and A[1] == F.zero):
        return F.sub(Q[0], A[0])
    if A == B:
        l = F.div(F.add(F.muli(F.sqr(A[0]), 3), C.a), F.add(A[1], A[1]))
    else:
        l = F.div(F.sub(B[1], A[1]), F.sub(B[0], A[0]))
    return F.sub(F.sub(Q[1], A[1]), F.mul(l, F.sub(Q[0], A[0])))


def miller(F, C, P, Q, n):
    """f_{n,P}(Q) with denominators; raises ZeroDivisionError on a degenerate choice of Q."""
    num, den = F.one, F.one
    T = P
    for b in bin(n)[3:]:
        num, den = F.sqr(num), F.sqr(den)
        if T is not None:
            num = F.mul(num, line(F, C, T, T, Q))
            T2 = C.add(T, T)
            if T2 is not None:
                den = F.mul(den, F.sub(Q[0], T2[0]))
            T = T2
        if b == "1" and T is not None:
            num = F.mul(num, line(F, C, T, P, Q))
            T2 = C.add(T, P)
            if T2 is not None:
                den = F.mul(den, F.sub(Q[0], T2[0]))
            T = T2
        elif b == "1":
            T = P
    if num == F.zero:
        raise ZeroDivisionError
    return F.div(num, den)


def tate(F, C, P, Q, r, rng=random, card=None):
    """Reduced Tate pairing <P, Q>_r^((|F|-1)/r), P in E[r], by f_P(Q+R)/f_P(R) when needed."""
    if P is None or Q is None:
        return F.one
    e = ((card or F.card) - 1) // r
    try:
        return F.pow(miller(F, C, P, Q, r), e)
    except ZeroDivisionError:
        pass
    while True:
        R = C.random(rng)
        try:
            S = C.add(Q, R)
            if S is None or R is None:
                continue
            return F.pow(F.div(miller(F, C, P, S, r), miller(F, C, P, R, r)), e)
        except ZeroDivisionError:
            continue


# ------------------------------------------------------------------ characteristic three
import array


class Gf3m(Field):
    """GF(3)[x]/(x^m + x^t + 2); values are tuples of m digits."""
    char, depth, width = 3, 1, 1

    def __init__(self, m, t):
        self.n = self.mdeg = m
        self.t, self.card = t, 3 ** m
        self.zero = (0,) * m
        self.one = (1,) + (0,) * (m - 1)
        self.base = Fp(3)

    def add(self, a, b): return tuple([(x + y) % 3 for x, y in zip(a, b)])
    def sub(self, a, b): return tuple([(x - y) % 3 for x, y in zip(a, b)])
    def neg(self, a): return tuple([-x % 3 for x in a])

    def mul(self, a, b):
        m, t = self.mdeg, self.t
        pk = lambda v: int.from_bytes(array.array("H", v).tobytes(), "little")
        r = array.array("H")
        r.frombytes((pk(a) * pk(b)).to_bytes(4 * m, "little"))
        r = list(r)
        for k in range(2 * m - 2, m - 1, -1):   # x^m = -x^t - 2 = 2x^t + 1
            c = r[k] % 3
            if c:
                r[k - m + t] += 2 * c
                r[k - m] += c
        return tuple([x % 3 for x in r[:m]])

    def cube(self, a): return self.mul(self.mul(a, a), a)

    def inv(self, a):
        if a == self.zero:
            raise ZeroDivisionError
        # a^(3^m - 2) by an addition chain on Frobenius would need care; use Euclid
        B = self.base
        f = [0] * (self.mdeg + 1)
        f[0] = 2
        f[self.t] = (f[self.t] + 1) % 3
        f[self.mdeg] = 1
        r0, r1, s0, s1 = f, poly_trim(B, list(a)), [], [1]
        while len(r1) > 1:
            q, r = poly_divmod(B, r0, r1)
            r0, r1 = r1, r
            s0, s1 = s1, poly_sub(B, s0, poly_mul(B, q, s1))
        c = r1[0]
        s = [c * x % 3 for x in s1]
        return tuple(s + [0] * (self.mdeg - len(s)))

    def fromint(self, n): return (n % 3,) + (0,) * (self.mdeg - 1)

    def sample(self, rng):
        c, m = rng.randrange(9), self.mdeg
        if c == 0: return self.zero
        if c == 1: return self.one
        if c == 2: return self.neg(self.one)
        if c == 3:
            i = rng.choice((0, 1, m - 1, m - 2, self.t, rng.randrange(m), 63 % m, 64 % m))
            return tuple(rng.randrange(1, 3) if j == i else 0 for j in range(m))
        if c == 4: return (rng.randrange(1, 3),) * m
        if c == 5:
            k = rng.randrange(1, m + 1)
            return tuple(rng.randrange(3) if j < k else 0 for j in range(m))
        return self.uniform(rng)

    def uniform(self, rng): return tuple(rng.randrange(3) for _ in range(self.mdeg))
    def flat(self, a): return list(a)


class Curve3:
    """y^2 = x^3 - x + 1 in characteristic three."""
    def __init__(self, F): self.F = F

    def rhs(self, x):
        F = self.F
        return F.add(F.sub(F.mul(F.mul(x, x), x), x), F.one)

    def on(self, P): return P is None or self.F.mul(P[1], P[1]) == self.rhs(P[0])
    def neg(self, P): return None if P is None else (P[0], self.F.neg(P[1]))

    def add(self, P, Q):
        F = self.F
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == F.zero: return None
            l = F.neg(F.inv(F.add(P[1], P[1])))       # (3x^2 - 1) / 2y
        else:
            l = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
        x = F.sub(F.sub(F.mul(l, l), P[0]), Q[0])
        return (x, F.sub(F.mul(l, F.sub(P[0], x)), P[1]))

    def mul(self, n, P):
        if n < 0: n, P = -n, self.neg(P)
        R = None
        while n:
            if n & 1: R = self.add(R, P)
            n >>= 1
            if n: P = self.add(P, P)
        return R
