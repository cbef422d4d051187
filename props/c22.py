"""The integers and nested integer lists against Python integers and explicit polynomials."""
import ctypes as C
import model as M, pbc, zoo, mz

RULE = ("an evaluation is one observed result (value, comparison, count, text or byte length) compared with Python integers or with the polynomial (exponent vector -> coefficient) the list denotes; "
        "distinct counts (operation, aliasing, sign and size or shape class of the operands)")
ASSUMPTIONS = ["a list appended to another takes ownership of its data (as multiz.c says); lists are built through the two public constructors",
               "quotients in Z round toward zero; a non-unit has inverse 0; roots round down and are taken of nonnegative integers only",
               "powers of integers other than 0, 1, -1 use exponents below 2^12 so that results fit in memory",
               "lists offer sum, difference, product, negation, integer multiples, powers, comparison, division by an integer (coefficientwise, toward zero) and copying",
               "a list is converted only into structures with at least as many coefficients; a list given to a curve is the coordinates of one of its points"]


def units(tier, rng):
    k = 1 if tier == "quick" else 15
    out = []
    for i in range(6 * k): out.append(("z", dict(i=i, n=900)))
    for i in range(6 * k): out.append(("lists", dict(i=i, n=350)))
    for i in range(3 * k): out.append(("edges", dict(i=i)))
    for i in range(6 * k): out.append(("convert", dict(i=i, n=25)))
    for i in range(3 * k): out.append(("build", dict(i=i, n=200)))
    return out


def big(rng):
    c = rng.randrange(9)
    s = rng.choice((1, -1))
    if c == 0: return rng.choice((0, 0, 1, -1, 2, -2))
    if c == 1: return s * rng.randrange(300)
    if c == 2: return s * (2 ** rng.choice((7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 192)) + rng.randrange(-1, 2))
    if c == 3: return s * rng.getrandbits(64)
    if c == 4: return s * rng.getrandbits(rng.choice((65, 128, 200, 500)))
    if c == 5: return rng.choice((2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64))
    if c == 6: return rng.getrandbits(rng.choice((10, 40, 100))) ** 2
    if c == 7: return s * rng.getrandbits(3000)
    return s * rng.getrandbits(rng.randrange(1, 70))


def cls(v): return (v > 0) - (v < 0), min(abs(v).bit_length() // 32, 5), abs(v) <= 1


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def z_pow(a, n):
    if n < 0: a, n = (a if abs(a) == 1 else 0), -n
    return a ** n


def isqrt(a):
    import math
    return math.isqrt(a)


def u_z(mon, L, rng, i, n):
    f = L.field_z()
    K = 6
    e = [L.el_new(f) for _ in range(K)]
    v = [0] * K
    zn = pbc.fp(L, 2 ** 89 - 1)
    hist = []
    for _ in range(n):
        op = rng.choice(("set", "set_si", "set_mpz", "set_str", "set0", "set1", "add", "add", "sub", "sub", "mul", "mul", "square", "double", "halve", "neg", "mul_mpz", "mul_si", "mul_zn", "invert",
                         "div", "pow", "pow_zn", "pow2", "pp", "cmp", "preds", "sqr", "bytes", "to", "text", "renew", "hash", "random"))
        x, y, z = (rng.randrange(K) for _ in range(3))
        hist.append((op, x, y, z))
        mon.case("Z", hist[-4:], "operands", [v[x], v[y], v[z]])
        al = (x == y, y == z, x == z)
        val, sig = None, (op, al, cls(v[y]), cls(v[z]))
        if op == "set": L.set(e[x], e[y]); val = v[y]
        elif op == "set_si": val = rng.choice((rng.randrange(-2 ** 63, 2 ** 63), rng.randrange(-100, 100), -2 ** 63, 2 ** 63 - 1)); L.set_si(e[x], val)
        elif op == "set_mpz": val = big(rng); L.set_mpz(e[x], L.Z(val))
        elif op == "set_str": val = big(rng); r = L.set_str(e[x], str(val).encode(), 10); mon.eq(r, len(str(val)), "Z: characters read", cls(val))
        elif op == "set0": L.set0(e[x]); val = 0
        elif op == "set1": L.set1(e[x]); val = 1
        elif op == "add": L.add(e[x], e[y], e[z]); val = v[y] + v[z]
        elif op == "sub": L.sub(e[x], e[y], e[z]); val = v[y] - v[z]
        elif op == "mul": L.mul(e[x], e[y], e[z]); val = v[y] * v[z]
        elif op == "square": L.square(e[x], e[y]); val = v[y] ** 2
        elif op == "double": L.double(e[x], e[y]); val = v[y] * 2
        elif op == "halve":
            if v[y] % 2: continue
            L.halve(e[x], e[y]); val = v[y] // 2
        elif op == "neg": L.neg(e[x], e[y]); val = -v[y]
        elif op == "mul_mpz": t = big(rng); L.mul_mpz(e[x], e[y], L.Z(t)); val = v[y] * t
        elif op == "mul_si": t = rng.choice((0, 1, -1, rng.randrange(-2 ** 63, 2 ** 63), 2 ** 63 - 1, -2 ** 63)); L.mul_si(e[x], e[y], t); val = v[y] * t
        elif op == "mul_zn": t = rng.getrandbits(80); L.mul_zn(e[x], e[y], zn.new(t)); val = v[y] * t
        elif op == "invert": L.invert(e[x], e[y]); val = v[y] if abs(v[y]) == 1 else 0
        elif op == "div":
            if not v[z]: continue
            if rng.random() < .4:
                L.mul(e[y], e[y], e[z]) if y != z else None
                if y != z: v[y] *= v[z]
            L.div(e[x], e[y], e[z]); val = tdiv(v[y], v[z])
        elif op in ("pow", "pow_zn"):
            if abs(v[y]) <= 1: t = rng.choice((0, 1, 2, rng.getrandbits(60), 2 ** 64, 2 ** 64 + 1, 2 ** 65 + 2 ** 64, 3))
            else: t = rng.randrange(0, max(2, min(4096, 20000 // v[y].bit_length())))
            if op == "pow":
                if rng.random() < .25: t = -t
                if v[y] == 0 and t < 0: continue
                L.pow_mpz(e[x], e[y], L.Z(t))
            else:
                t %= zn.m.p
                L.pow_zn(e[x], e[y], zn.new(t))
            val = z_pow(v[y], t)
            sig += ((t > 0) - (t < 0), t % 2, t >= 2 ** 64)
        elif op == "pow2":
            if max(abs(v[y]), abs(v[z])).bit_length() > 300: continue
            s, t = rng.randrange(0, 30), rng.randrange(0, 30)
            L.pow2_mpz(e[x], e[y], L.Z(s), e[z], L.Z(t)); val = v[y] ** s * v[z] ** t
        elif op == "pp":
            if abs(v[y]).bit_length() > 200: continue
            t = rng.randrange(0, 40)
            p = L.pp_new(e[y])
            L.pp_pow(e[x], L.Z(t), p)
            L.pp_free(p)
            val = v[y] ** t
        elif op == "cmp":
            c = L.cmp(e[y], e[z])
            mon.eq((c > 0) - (c < 0), (v[y] > v[z]) - (v[y] < v[z]), "Z: cmp", *sig)
            continue
        elif op == "preds":
            mon.eq((bool(L.is0(e[y])), bool(L.is1(e[y])), L.sgn(e[y])), (v[y] == 0, v[y] == 1, (v[y] > 0) - (v[y] < 0)), "Z: predicates", *sig)
            continue
        elif op == "sqr":
            mon.eq(bool(L.is_sqr(e[y])), v[y] >= 0 and isqrt(v[y]) ** 2 == v[y], "Z: is_sqr", *sig)
            if v[y] < 0: continue
            L.sqrt(e[x], e[y]); val = isqrt(v[y])
        elif op == "bytes":
            b, m, k, g = L.bytes_of(e[y])
            m2 = L.from_bytes(e[x], b)
            mon.eq((m, m2), (len(b), len(b)), "Z: byte counts", *sig)
            val = v[y]
        elif op == "to":
            mon.eq(L.leaf(e[y]), v[y], "Z: to_mpz", *sig)
            continue
        elif op == "text":
            base = rng.choice((2, 10, 16, 36))
            s = L.capture(lambda h: L.out_str(h, base, e[y]))[1]
            mon.eq(int(s, base), v[y], "Z: text", base, *sig)
            continue
        elif op == "renew":
            if x == y: continue
            L.el_free(e[x])
            e[x] = L.el_new_same(e[y])
            val = 0
        elif op == "hash":
            d = bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 40)))
            L.from_hash(e[x], d, len(d)); val = int.from_bytes(d, "little")
        elif op == "random": L.random(e[x]); val = 0
        mon.eq(L.leaf(e[x]), val, "Z: " + op, *sig)
        if abs(val).bit_length() > 4000:
            val = big(rng)
            L.set_mpz(e[x], L.Z(val))
        v[x] = val
        for w in (y, z):
            if w != x: mon.eq(L.leaf(e[w]), v[w], "Z: operand changed by " + op)
    for x in e: L.el_free(x)
    L.field_free(f)
    zn.close()


# ---------------------------------------------------------------- lists
def full(v, pre=()):
    if isinstance(v, int):
        k = list(pre)
        while k and k[-1] == 0: k.pop()
        return {tuple(k): v} if v else {}
    out = {}
    for i, x in enumerate(v): out.update(full(x, pre + (i,)))
    return out


def padd(a, b, s=1):
    o = dict(a)
    for k, c in b.items():
        o[k] = o.get(k, 0) + s * c
        if not o[k]: del o[k]
    return o


def pmul(a, b):
    o = {}
    for k, c in a.items():
        for l, d in b.items():
            n = max(len(k), len(l))
            key = tuple((k[i] if i < len(k) else 0) + (l[i] if i < len(l) else 0) for i in range(n))
            o[key] = o.get(key, 0) + c * d
    return {k: c for k, c in o.items() if c}


def pcmp(a, b):
    """sign of the highest differing coefficient, first variable first"""
    d = padd(a, b, -1)
    if not d: return 0
    n = max(len(k) for k in d)
    top = max(d, key=lambda k: k + (0,) * (n - len(k)))
    return 1 if d[top] > 0 else -1


def shape(v, d=2): return 0 if isinstance(v, int) else (min(len(v), 3),) + ((shape(v[0], d - 1),) if d else ())


def depth(v): return 0 if isinstance(v, int) else 1 + max(depth(x) for x in v)


def weight(v): return 1 if isinstance(v, int) else 1 + sum(map(weight, v))


def u_lists(mon, L, rng, i, n):
    f = L.field_multiz()
    K = 5
    e, v = [], []
    def load(j):
        s = mz.sample(rng, rng.choice((0, 1, 1, 2, 2, 3)), rng.choice((1, 2, 3, 4)))
        if j < len(e):
            L.el_free(e[j])
            e[j], v[j] = mz.build(L, f, s), s
        else: e.append(mz.build(L, f, s)), v.append(s)
    for j in range(K): load(j)
    for _ in range(n):
        op = rng.choice(("load", "load", "set", "add", "add", "add", "sub", "sub", "mul", "mul", "mul", "neg", "mul_mpz", "mul_si", "double", "square", "pow", "div", "cmp", "cmp", "preds", "to", "text", "items",
                         "set_si", "set_mpz", "set0", "set1", "vary"))
        x, y, z = (rng.randrange(K) for _ in range(3))
        if op == "load": load(x)
        mon.case("lists", op, (x, y, z), v[y], v[z])
        a, b = full(v[y]), full(v[z])
        sig = (op, (x == y, y == z, x == z), shape(v[y]), shape(v[z]))
        if op == "load": want = full(v[x])
        elif op == "set": L.set(e[x], e[y]); want = a
        elif op == "add": L.add(e[x], e[y], e[z]); want = padd(a, b)
        elif op == "sub": L.sub(e[x], e[y], e[z]); want = padd(a, b, -1)
        elif op == "mul":
            if weight(v[y]) * weight(v[z]) > 900: continue
            L.mul(e[x], e[y], e[z]); want = pmul(a, b)
        elif op == "neg": L.neg(e[x], e[y]); want = padd({}, a, -1)
        elif op == "mul_mpz": t = big(rng); L.mul_mpz(e[x], e[y], L.Z(t)); want = pmul(a, {(): t})
        elif op == "mul_si": t = rng.choice((0, 1, -1, rng.randrange(-2 ** 63, 2 ** 63), -2 ** 63)); L.mul_si(e[x], e[y], t); want = pmul(a, {(): t})
        elif op == "double": L.double(e[x], e[y]); want = padd(a, a)
        elif op == "square":
            if weight(v[y]) > 30: continue
            L.square(e[x], e[y]); want = pmul(a, a)
        elif op == "pow":
            if weight(v[y]) > 8: continue
            t = rng.randrange(0, 5)
            L.pow_mpz(e[x], e[y], L.Z(t))
            want = {(): 1}
            for _ in range(t): want = pmul(want, a)
            sig += (t,)
        elif op == "div":
            if not isinstance(v[z], int) or not v[z]: continue
            L.div(e[x], e[y], e[z])
            want = {k: tdiv(c, v[z]) for k, c in a.items() if tdiv(c, v[z])}
        elif op == "cmp":
            c = L.cmp(e[y], e[z])
            mon.eq((c > 0) - (c < 0), pcmp(a, b), "lists: cmp", *sig)
            continue
        elif op == "preds":
            mon.eq((bool(L.is0(e[y])), bool(L.is1(e[y]))), (a == {}, a == {(): 1}), "lists: predicates", *sig)
            if isinstance(v[y], int): mon.eq(L.sgn(e[y]), (v[y] > 0) - (v[y] < 0), "lists: sign of an integer")
            continue
        elif op == "to":
            mon.eq(L.leaf(e[y]), a.get((), 0), "lists: constant term", *sig)
            continue
        elif op == "text":
            s = L.capture(lambda h: L.out_str(h, 10, e[y]))[1]
            mon.eq(s.decode(), mz.text(mz.get(L, e[y])), "lists: text", *sig)
            mon.eq(full(eval(s.decode())), a, "lists: text value", *sig)
            continue
        elif op == "items":
            if isinstance(mz.get(L, e[y]), int): mon.eq(L.item_count(e[y]), 0, "lists: integers have no items", *sig)
            else:
                g = [full(mz.get(L, L.item(e[y], j))) for j in range(L.item_count(e[y]))]
                mon.eq(full_items(g), a, "lists: items", *sig)
            continue
        elif op == "set_si": t = rng.randrange(-2 ** 63, 2 ** 63); L.set_si(e[x], t); want = full(t)
        elif op == "set_mpz": t = big(rng); L.set_mpz(e[x], L.Z(t)); want = full(t)
        elif op == "set0": L.set0(e[x]); want = {}
        elif op == "set1": L.set1(e[x]); want = {(): 1}
        elif op == "vary":                      # another list for the same polynomial, or nearly
            w = v[y]
            for _ in range(rng.randrange(1, 3)):
                w = [w] if isinstance(w, int) or rng.random() < 0 else w + [rng.choice((0, 0, 0, 1, -1, [0, 0], [0, 1]))]
            if x == y: continue
            L.el_free(e[x])
            e[x], v[x] = mz.build(L, f, w), w
            want = full(w)
        got = mz.get(L, e[x])
        mon.eq(full(got), want, "lists: " + op, *sig)
        v[x] = got
        for w in (y, z):
            if w != x: mon.eq(full(mz.get(L, e[w])), full(v[w]), "lists: operand changed by " + op)
        if weight(got) > 150 or any(abs(c).bit_length() > 3000 for c in want.values()): load(x)
    for x in e: L.el_free(x)
    L.field_free(f)


def full_items(g):
    o = {}
    for j, p in enumerate(g):
        for k, c in p.items():
            key = (j,) + k
            while key and key[-1] == 0: key = key[:-1]
            o[key] = c
    return o


def u_edges(mon, L, rng, i):
    """every pair of a table of corner shapes, every operation"""
    T = [0, 1, -1, 7, 2 ** 64, [0], [1], [-1], [[1]], [0, 0], [0, 1], [1, 0], [1, -1], [[0, 1]], [[0], [1]], [[1, 2], 3], [3, [1, 2]], [0, 0, 5], [[[2]], 0], [1, [0, [3]]], [[0, 0], 0, [0]], [-2 ** 70, [2 ** 70]]]
    rng.shuffle(T)
    f = L.field_multiz()
    r = L.el_new(f)
    for u in T:
        for w in T:
            a, b = mz.build(L, f, u), mz.build(L, f, w)
            A, B = full(u), full(w)
            mon.case("edges", u, w)
            c = L.cmp(a, b)
            mon.eq((c > 0) - (c < 0), pcmp(A, B), "edges: cmp", str(u), str(w))
            for nm, want in (("add", padd(A, B)), ("sub", padd(A, B, -1)), ("mul", pmul(A, B))):
                getattr(L, nm)(r, a, b)
                mon.eq(full(mz.get(L, r)), want, "edges: " + nm, str(u), str(w))
            k = rng.randrange(3)
            nm, want = (("add", padd(A, B)), ("sub", padd(A, B, -1)), ("mul", pmul(A, B)))[k]
            getattr(L, nm)(*rng.choice(((a, a, b), (b, a, b))))
            mon.eq(full(mz.get(L, a)) == want or full(mz.get(L, b)) == want, True, "edges: aliased " + nm)
            L.el_free(a), L.el_free(b)
    L.el_free(r)
    L.field_free(f)


def u_build(mon, L, rng, i, n):
    """the constructors, deep and wide"""
    f = L.field_multiz()
    for _ in range(n):
        s = mz.sample(rng, rng.randrange(0, 6), rng.choice((1, 2, 3, 8))) if rng.random() < .95 else [rng.randrange(100) for _ in range(rng.choice((31, 32, 33, 100, 300)))]
        if weight(s) > 1500: continue
        e = mz.build(L, f, s)
        mon.case("build", s)
        mon.eq(mz.get(L, e), s, "constructed list", shape(s), depth(s))
        mon.eq(bool(L.multiz_is_z(e)), isinstance(s, int), "integer or list")
        d = L.el_new(f)
        L.set_multiz(d, e)
        mon.eq(mz.get(L, d), s, "copied list", shape(s))
        L.set0(e)
        mon.eq(mz.get(L, d), s, "copy independent of its source", shape(s))
        L.el_free(e), L.el_free(d)
    L.field_free(f)


def u_convert(mon, L, rng, i, n):
    """into fields, polynomials and curves"""
    f = L.field_multiz()
    names = ("naive", "fast", "faster", "mont", "fp", "quad", "fi", "polymod", "tower", "poly", "polytower", "curve", "curveext", "curvebig", "composite", "z")
    for kind in rng.sample(names, 8):
        S = zoo.build(L, rng, kind)
        e = L.el_new(S.H.h)
        for _ in range(n):
            if S.pts:
                P = S.sample()
                v = nest(P) if P is not None else 0
                want = P
                if P is None and rng.random() < .5: continue
            else:
                v, want = S_list(S, rng)
            m = mz.build(L, f, v)
            mon.case("convert", kind, v)
            if rng.random() < .5: S.load(e)
            L.set_multiz(e, m)
            mon.eq(S.H.get(e), want, "list into " + kind, kind, shape(v))
            L.el_free(m)
        if S.pts:                                # not a point: the identity
            for _ in range(5):
                P = S.sample()
                if P is None: continue
                v = nest(P)
                v[1] = bump(v[1])
                if S.m.on(unnest(S, v)): continue
                m = mz.build(L, f, v)
                mon.case("not a point", kind, v)
                L.set_multiz(e, m)
                mon.check(S.m.on(S.H.get(e)), "list that is no point gave a point off the curve", lambda: repr(S.H.get(e)), kind)
                L.el_free(m)
        L.el_free(e)
        S.close()
    L.field_free(f)


def nest(x):
    if isinstance(x, (tuple, list)): return [nest(y) for y in x]
    return x


def bump(x): return x + 1 if isinstance(x, int) else [bump(x[0])] + x[1:]


def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x


def unnest(S, v): return tup(v)


def S_list(S, rng):
    """a list (unreduced, maybe short, maybe an integer) and the value it has in S"""
    m = S.m
    if S.name == "z":
        t = big(rng)
        return rng.choice((t, [t], [[t]])), t
    def go(m):
        """-> (list, value)"""
        if isinstance(m, M.Fp) or not hasattr(m, "flat") or not isinstance(m.one, tuple):
            t = big(rng)
            return t, t % m.char
        k = len(m.one)
        sub = m.base
        if rng.random() < .15:
            t, w = go(sub)
            if not isinstance(t, int): t = [t]
            return t, (w,) + (sub.zero,) * (k - 1)
        cnt = rng.choice((k, k, k, rng.randrange(1, k + 1)))
        ps = [go(sub) for _ in range(cnt)]
        return [p[0] for p in ps], tuple(p[1] for p in ps) + (sub.zero,) * (k - cnt)
    if S.name in ("poly", "polytower"):
        base = S.extra[0].m
        ps = [go(base) for _ in range(rng.randrange(1, 7))]
        c = [p[1] for p in ps]
        while c and c[-1] == base.zero: c.pop()
        if len(ps) == 1 and isinstance(ps[0][0], int) and rng.random() < .5: return ps[0][0], m_poly(c)
        return [p[0] for p in ps], m_poly(c)
    return go(m)


def m_poly(c): return tuple(c)
