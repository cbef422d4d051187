"""Byte encodings round-trip with exact lengths."""
import ctypes as C
import model as M, pbc, families, zoo

RULE = ("an evaluation is one check of a length, byte count, encoding or decoded value; buffers are exactly as long as advertised so that "
        "any access beyond them trips the sanitizer; distinct counts (structure, encoding, value class, history) signatures")
ASSUMPTIONS = ["groups that offer no byte encoding (type I G1 and GT, the ternary extension fields, the singular curve, integer lists) are outside",
               "x-only encoding is used on points other than O"]
NOBYTES = ("gf32m", "gf33m", "gf36m", "I.G1", "I.G2", "I.GT", "=i.G1", "=i.G2", "=i.GT")


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for kind in zoo.RINGS + zoo.CURVES:
        if kind in NOBYTES: continue
        for i in range(6 * k): out.append(("struct", dict(kind=kind, i=i, n=60)))
    for kind in zoo.PAIRED:
        if kind in NOBYTES: continue
        for i in range((1 if kind[0] in "FG" else 2) * k): out.append(("struct", dict(kind=kind, i=i, n=24)))
    for kind in zoo.SHIPPED:
        if kind in NOBYTES: continue
        if kind.endswith("G2") and kind[1] in "aei": continue
        out.append(("struct", dict(kind=kind, i=0, n=(10 if kind[1] in "fg" else 16) * k)))
    for i in range(12 * k): out.append(("backends", dict(i=i, n=40)))
    for i in range(2 * k): out.append(("longpoly", dict(i=i)))
    for i in range(18 * k): out.append(("corners", dict(i=i, n=30)))
    for f in zoo.FAMS: out.append(("lengths", dict(fam=f, i=0)))
    for nm in families.SHIPPED: out.append(("lengths", dict(fam="=" + nm, i=0)))
    return out


ENC = {"plain": ("len", "to_bytes", "from_bytes"), "compressed": ("len_c", "to_bytes_c", "from_bytes_c"), "x-only": ("len_x", "to_bytes_x", "from_bytes_x")}


def encode(mon, L, e, enc, tag, sig):
    ln, to, _ = (getattr(L, x) for x in ENC[enc])
    n = ln(e)
    out = []
    for fill in (0x00, 0xFF):
        b = L.raw(n, fill)
        k = to(b, e)
        mon.eq(k, n, "%s: %s writes a different count than advertised" % (tag, enc), *sig)
        out.append(C.string_at(b, n))
        L.raw_free(b)
    mon.eq(out[0], out[1], "%s: %s leaves bytes of its buffer unwritten" % (tag, enc), *sig)
    return out[0]


def decode(mon, L, f, data, enc, tag, sig):
    b = L.raw(len(data), 0)
    L.raw_put(b, data, len(data))
    k = getattr(L, ENC[enc][2])(f, b)
    mon.eq(k, len(data), "%s: %s reads a different count than written" % (tag, enc), *sig)
    mon.eq(C.string_at(b, len(data)), data, "%s: reading %s changed the input" % (tag, enc), *sig)
    L.raw_free(b)


def judge(mon, L, rng, S, e, f, v, g=None):
    H, tag = S.H, S.name
    cl = S.cl(v)
    mon.case(tag, "plain", v, getattr(S, "text", ""))
    data = encode(mon, L, e, "plain", tag, (cl,))
    mon.eq(H.get(e), v, tag + ": encoding changed the element", cl)
    S.load(f)
    decode(mon, L, f, data, "plain", tag, (cl,))
    got = H.get(f)
    mon.eq(got, v, tag + ": value not restored from bytes", cl)
    mon.check(not L.cmp(e, f) and not L.cmp(f, e), tag + ": restored element compares unequal", "", cl)
    mon.eq(encode(mon, L, f, "plain", tag, (cl,)), data, tag + ": restored element encodes differently", cl)
    if g is not None:
        k = rng.randrange(S.ROUTES)
        S.load(g)
        S.route(g, e, v, k)
        if mon.eq(H.get(g), v, tag + ": history does not lead to the value", k, cl):
            mon.eq(encode(mon, L, g, "plain", tag, (cl,)), data, tag + ": equal elements with different histories encode differently", k, cl)
    if S.pts:
        for enc in ("compressed", "x-only"):
            if enc == "x-only" and v is None: continue
            mon.case(tag, enc, v, getattr(S, "text", ""))
            data = encode(mon, L, e, enc, tag, (cl,))
            S.load(f)
            decode(mon, L, f, data, enc, tag, (cl,))
            got = H.get(f)
            if enc == "compressed":
                mon.eq(got, v, tag + ": point not restored from compressed bytes", cl)
                mon.eq(encode(mon, L, f, enc, tag, (cl,)), data, tag + ": compressed encoding not canonical", cl)
                if g is not None and H.get(g) == v: mon.eq(encode(mon, L, g, enc, tag, (cl,)), data, tag + ": compressed encoding depends on history", cl)
            else:
                mon.check(got == v or got == S.neg(v), tag + ": point not restored from x-only bytes up to sign", lambda: "got %r expected +-%r" % (got, v), cl)


def u_struct(mon, L, rng, kind, i, n):
    S = zoo.build(L, rng, kind)
    H = S.H
    e, f, g = H.new(), H.new(), H.new()
    for j in range(n):
        judge(mon, L, rng, S, e, f, S.load(e), g)
        if S.group and j % 5 == 0:       # O, with coordinates left over from a real point
            S.load(e)
            L.sub(e, e, e)
            judge(mon, L, rng, S, e, f, S.zero, g)
    if kind == "curve":                  # every point of a small curve
        F = S.m.F
        pts = [None]
        for x in range(min(F.p, 40)):
            t = S.m.rhs(x)
            if F.is_sqr(t):
                y = F.sqrt(t, rng)
                pts += [(x, y), (x, F.neg(y))]
        for v in pts:
            S.load(e)
            S.load(e, v) if v is not None else L.set0(e)
            judge(mon, L, rng, S, e, f, v)
    mon.stat("structures", 1)
    S.close()


def u_backends(mon, L, rng, i, n):
    """the encoding is that of the value: the same in every representation of one field, big-endian and minimal fixed width"""
    p = M.rand_prime(rng, zoo.BITS[i % len(zoo.BITS)])
    Fs = [pbc.fp(L, p, b) for b in pbc.BACKENDS]
    w = (p.bit_length() + 7) // 8
    es = [F.new() for F in Fs]
    for _ in range(n):
        v = Fs[0].m.sample(rng)
        mon.case("backends", p, v)
        data = []
        for F, e in zip(Fs, es):
            F.set(e, v)
            data.append(encode(mon, L, e, "plain", F.name, (p.bit_length(),)))
            mon.eq(len(data[-1]), w, "width of a prime field encoding", F.name, p.bit_length())
        mon.eq(len(set(data)), 1, "representations of one field encode a value differently", p.bit_length(), v == 0)
        mon.eq(int.from_bytes(data[0], "big"), v, "prime field encoding is big-endian", p.bit_length())
        F, e = rng.choice(list(zip(Fs, es)))
        decode(mon, L, e, data[0], "plain", F.name, ())
        mon.eq(F.get(e), v, "one representation reads another's bytes", F.name)
    for F in Fs: F.close()


def u_corners(mon, L, rng, i, n):
    """curves over extension fields, made to pass through points whose coordinates have zero parts: the sign and the
    coordinate widths must still be recoverable from every part of y"""
    B = zoo.fieldof(L, rng, rng.choice((4, 5, 8, 9, 33, 64, 80, 160)))
    if B.m.char < 5: B.close(); B = pbc.fp(L, 23)
    ex = [B]
    k = i % 6
    if k == 0: K = pbc.quadratic(L, B)
    elif k == 1:
        if B.m.p % 4 != 3: B.close(); ex = [pbc.fp(L, M.rand_prime(rng, rng.choice((5, 64, 90)), 4, 3))]
        K = pbc.fi(L, ex[0])
    elif k in (2, 3): K = pbc.polymod(L, B, zoo.c05.irred(rng, B.m, rng.choice((2, 3, 4, 5, 6))))
    else:
        Q = pbc.quadratic(L, B)
        ex = [Q, B]
        K = pbc.quadratic(L, Q) if k == 4 else pbc.polymod(L, Q, zoo.c05.irred(rng, Q.m, rng.choice((2, 3))))
    m = K.m
    d = len(m.flat(m.zero))
    ch = m.char
    if k in (2, 3, 5): n = max(4, min(n, 3000 // m.card.bit_length() - 4))
    def sparse(keep):
        return m.unflat(iter([rng.choice((1, ch - 1, ch // 2, ch // 2 + 1, rng.randrange(1, ch))) if keep(j) else 0 for j in range(d)]))
    done = 0
    while done < n:
        j0 = rng.randrange(d)
        y = sparse((lambda j: j == j0, lambda j: j >= j0, lambda j: j <= j0, lambda j: rng.random() < .5)[rng.randrange(4)])
        x = sparse((lambda j: j == rng.randrange(d), lambda j: True, lambda j: rng.random() < .5)[rng.randrange(3)])
        a = m.sample(rng)
        b = m.sub(m.sqr(y), m.mul(x, m.add(m.sqr(x), a)))
        if m.add(m.muli(m.cube(a), 4), m.muli(m.sqr(b), 27)) == m.zero: continue
        done += 1
        H = pbc.curve_ab(L, K, a, b, m.card + 1)
        S = zoo.Struct(L, rng, "corner/%d" % k, H, group=True, sample=lambda: (x, y), pts=True)
        e, f = H.new(), H.new()
        got = []
        for v in ((x, y), (x, m.neg(y))):
            S.load(e, v)
            judge(mon, L, rng, S, e, f, v)
            got.append(encode(mon, L, e, "compressed", S.name, (k,)))
        if y != m.zero: mon.check(got[0] != got[1], "a point and its negative have the same compressed encoding", lambda: "%r" % ((x, y),), k)
        H.close()
    mon.stat("curves through sparse points", n)
    K.close()
    for z in ex: z.close()


def u_longpoly(mon, L, rng, i):
    """coefficient counts that need both bytes of the count"""
    B = pbc.fp(L, rng.choice((5, 251, 65537)))
    H = pbc.PolyH(L, B)
    S = zoo.Struct(L, rng, "poly", H, extra=[B], fixed=False)
    e, f, t = H.new(), H.new(), B.new()
    for cnt in (0, 1, 127, 128, 255, 256, 257, 300, 511, 512, 1000):
        v = H.m.t([B.m.uniform(rng) for _ in range(cnt - 1)] + [1]) if cnt else ()
        H.set(e, v)
        mon.case("long polynomial", cnt)
        data = encode(mon, L, e, "plain", "poly", (cnt,))
        decode(mon, L, f, data, "plain", "poly", (cnt,))
        mon.eq(H.get(f), v, "poly: long polynomial not restored from bytes", cnt)
    S.close()


def u_lengths(mon, L, rng, fam, i):
    text = families.shipped_text(fam[1:]) if fam[0] == "=" else families.small_text(rng, fam)
    P = families.Pairing(L, text, fam)
    mon.case("lengths", text)
    if P.fam != "i":
        for base, H in ((0, P.G1), (3, P.G2)):
            e = H.new()
            for off, enc in ((0, "plain"), (1, "x-only"), (2, "compressed")):
                got = L.plen(P.h, base + off)
                for _ in range(3):
                    L.random(e)
                    if L.is0(e): continue
                    mon.eq(got, getattr(L, ENC[enc][0])(e), "pairing length query disagrees with the element", base, enc, fam)
                    mon.eq(got, len(encode(mon, L, e, enc, P.fam, ())), "pairing length query disagrees with the bytes written", base, enc, fam)
        e = P.GT.new()
        L.random(e)
        mon.eq(L.plen(P.h, 6), len(encode(mon, L, e, "plain", P.fam, ())), "pairing length query for GT", fam)
    e = P.Zr.new()
    L.random(e)
    mon.eq(L.plen(P.h, 7), len(encode(mon, L, e, "plain", P.fam, ())), "pairing length query for Zr", fam)
    mon.eq(L.plen(P.h, 7), (P.r.bit_length() + 7) // 8, "Zr encoding width", fam)
    P.close()
