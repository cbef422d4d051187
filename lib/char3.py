"""Bindings for the characteristic-three structures."""
import ctypes as C
import model as M, pbc


def gf3_bytes(m, v):
    ln = (m + 64) // 64
    out = bytearray()
    for w in range(ln):
        a = b = 0
        for i in range(64):
            d = v[w * 64 + i] if w * 64 + i < m else 0
            if d == 1: a |= 1 << i
            elif d == 2: b |= 1 << i
        for j in range(0, 64, 8):
            out += bytes(((a >> j) & 255, (b >> j) & 255))
    return bytes(out)


def words_value(m, a, b):
    """digit masks -> value; rejects anything that is not a reduced element"""
    if a & b or (a | b) >> m:
        raise ValueError("not a reduced ternary element: %x %x" % (a, b))
    return tuple([(a >> i & 1) + 2 * (b >> i & 1) for i in range(m)])


class Gf3H(pbc.FieldH):
    """gf3m, or an extension of it (depth of items above the leaf given by the model)."""
    def __init__(self, L, h, model, leafm, name, own=True):
        pbc.FieldH.__init__(self, L, h, model, name, own)
        self.leafm = leafm

    def _get(self, e, m):
        L = self.L
        if m is self.leafm:
            b, n, k, g = L.bytes_of(e)
            if not g or n != k: raise ValueError("encoding length")
            a = int.from_bytes(b[0::2], "little")
            return words_value(m.mdeg, a, int.from_bytes(b[1::2], "little"))
        return tuple(self._get(L.item(e, i), m.base) for i in range(m.n))

    def get(self, e): return self._get(e, self.m)

    def _set(self, e, m, v):
        if m is self.leafm:
            self.L.from_bytes(e, gf3_bytes(m.mdeg, v))
        else:
            for i, x in enumerate(v):
                self._set(self.L.item(e, i), m.base, x)


def tower(L, m, t):
    leaf = M.Gf3m(m, t)
    q = M.Ext(leaf, [leaf.one, leaf.zero])
    f = Gf3H(L, L.field_gf3m(m, t), leaf, leaf, "gf3m")
    f2 = Gf3H(L, L.field_gf32m(f.h), q, leaf, "gf32m")
    n1 = leaf.neg(leaf.one)
    f3 = Gf3H(L, L.field_gf33m(f.h), M.Ext(leaf, [n1, n1, leaf.zero]), leaf, "gf33m")
    n2 = q.neg(q.one)
    f6 = Gf3H(L, L.field_gf33m(f2.h), M.Ext(q, [n2, n2, q.zero]), leaf, "gf36m")
    return f, f2, f3, f6


def irreducible_t(m):
    """exponents t with x^m + x^t + 2 irreducible over GF(3)"""
    B = M.Fp(3)
    out = []
    for t in range(1, m):
        f = [2] + [0] * (m - 1) + [1]
        f[t] = 1
        if M.poly_irred(B, f):
            out.append(t)
    return out


def curve_order(m):
    s = 3 ** ((m + 1) // 2)
    return 3 ** m + 1 + (s if m % 12 in (1, 11) else -s)


def split(n):
    """(largest prime factor, cofactor) of a small integer"""
    f, d, k = [], 2, n
    while d * d <= k:
        while k % d == 0:
            f.append(d)
            k //= d
        d += 1
    if k > 1: f.append(k)
    return max(f), n // max(f)


# (m, t) of the published parameter table, by requested group size
TABLE = ((150, 97, 12), (206, 199, 164), (259, 235, 26), (316, 385, 22), (376, 337, 30), (430, 373, 198),
         (484, 395, 338), (552, 433, 120), (644, 467, 48), (696, 503, 104), (803, 509, 358), (892, 617, 88))
SMALL = {5: 4, 7: 2, 11: 2, 13: 4, 17: 16, 19: 2, 23: 8}


class PointH(pbc.FieldH):
    """Points of y^2 = x^3 - x + 1, read through their text form."""
    def __init__(self, L, h, leaf, name="eta"):
        pbc.FieldH.__init__(self, L, h, M.Curve3(leaf), name, False)
        self.leaf = leaf

    def get(self, e):
        L = self.L
        r, s = L.capture(lambda f: L.out_str(f, 10, e))
        if s == b"O": return None
        w = [int(x) for x in s.decode().split(",")[:-1]]
        ln = (self.leaf.mdeg + 64) // 64
        if len(w) != 4 * ln: raise ValueError("point text %r" % s)
        j = lambda a: sum(x << (64 * i) for i, x in enumerate(a))
        return tuple(words_value(self.leaf.mdeg, j(w[k * 2 * ln:k * 2 * ln + ln]), j(w[k * 2 * ln + ln:(k + 1) * 2 * ln])) for k in (0, 1))


def param(m, t):
    n, n2 = split(curve_order(m))
    return "type i\nm %d\nt %d\nn %d\nn2 %d\n" % (m, t, n, n2), n, n2
