"""Parameter text: strict parsing and round trip."""
import re
import ctypes as C
import model as M, families, char3

RULE = ("an evaluation is one decision on a parameter text: accepted or rejected as the reference grammar says, printed form equal in every key, allocator balance, or equal "
        "pairing values; texts lie in exact-size unterminated buffers; distinct counts (family, variation, delivery) signatures")
ASSUMPTIONS = ["grammar: words separated by blanks, tabs, CR and LF; # starts a comment where a word could start; keys alternate with values, the last value of a key counts; "
               "numbers are decimal, 0-octal, 0x or 0b, optionally negative; the text ends at a zero byte or at the given length; length 0 means a zero-terminated string (documented)",
               "texts with the characters < / > inside words are only run for memory safety",
               "numbers that parse but do not describe a pairing (composite q, ...) are outside the property"]
KEYS = {"a": ["q", "r", "h", "exp2", "exp1", "sign1", "sign0"], "a1": ["p", "n", "l"],
        "d": ["q", "n", "h", "r", "a", "b", "k", "nk", "hk", "nqr"], "e": ["q", "r", "h", "a", "b", "exp2", "exp1", "sign1", "sign0"],
        "f": ["q", "r", "b", "beta", "alpha0", "alpha1"], "g": ["q", "n", "h", "r", "a", "b", "nk", "hk", "nqr"] + ["coeff%d" % i for i in range(5)],
        "i": ["m", "t", "n", "n2"]}
INTS = {"exp2", "exp1", "sign1", "sign0", "l", "k", "m", "t"}
NUM = re.compile(rb"-?(0[xX][0-9a-fA-F]*|0[bB][01]*|0[0-7]*|[1-9][0-9]*)\Z")
FAMS = ("A", "1", "D", "G", "E", "F", "I")
STR = C.c_size_t(-1).value


def units(tier, rng):
    k = 1 if tier == "quick" else 15
    out = []
    for nm in families.SHIPPED:
        out.append(("good", dict(src="=" + nm, i=0, n=40 * k)))
        out.append(("bad", dict(src="=" + nm, i=0, n=120 * k)))
    for f in FAMS:
        for i in range(2 * k):
            out.append(("good", dict(src=f, i=i, n=60)))
            out.append(("bad", dict(src=f, i=i, n=120)))
        out.append(("truncate", dict(src=f, i=0)))
        out.append(("pair", dict(src=f, i=0, n=3 * k)))
    for i in range(6 * k): out.append(("garbage", dict(i=i, n=250)))
    return out


def text_of(rng, src):
    return families.shipped_text(src[1:]) if src[0] == "=" else families.small_text(rng, src)


def words(t):
    t = t.split(b"\0")[0]
    out, i = [], 0
    while True:
        while i < len(t) and t[i:i + 1] in (b" ", b"\t", b"\r", b"\n"): i += 1
        if i >= len(t): return out
        if t[i:i + 1] == b"#":
            j = t.find(b"\n", i)
            if j < 0: return out
            i = j + 1
            continue
        j = i
        while j < len(t) and t[j:j + 1] not in (b" ", b"\t", b"\r", b"\n"): j += 1
        out.append(t[i:j])
        i = j


def num(s):
    if not NUM.match(s): return None
    neg, s = s[:1] == b"-", s.lstrip(b"-").lower()
    if s in (b"0x", b"0b"): return 0          # as the big-integer library reads them
    v = int(s, 16) if s[:2] == b"0x" else int(s, 2) if s[:2] == b"0b" else int(s, 8) if s[:1] == b"0" and len(s) > 1 else int(s)
    return -v if neg else v


def reference(t):
    """the parameters the text denotes, or None"""
    w = words(t)
    d = {}
    for i in range(0, len(w) - 1, 2): d[w[i].decode("latin1")] = w[i + 1]
    ty = d.get("type", b"").decode("latin1")
    if ty not in KEYS: return None
    out = {"type": ty}
    keys = list(KEYS[ty])
    if ty == "d":
        k = num(d.get("k", b""))
        if k is None or k < 2 or k % 2 or k >= 2 ** 31: return None
        if k // 2 > len(d): return None
        keys += ["coeff%d" % i for i in range(k // 2)]
    for x in keys:
        v = num(d.get(x, b""))
        if v is None: return None
        if x in INTS and not -2 ** 31 <= v < 2 ** 31: return None
        out[x] = v
    return out


def printed(L, par):
    s = L.capture(lambda f: L.param_out(f, par))[1]
    w = words(s)
    if len(w) % 2: return s
    d = {w[i].decode(): (num(w[i + 1]) if w[i] != b"type" else w[i + 1].decode()) for i in range(0, len(w), 2)}
    return d if len(d) * 2 == len(w) else s


def deliver(L, rng, t, how):
    """returns (buffer, length argument) ; the caller frees the buffer"""
    if how == "str":
        body = t.split(b"\0")[0] + b"\0"
        n = STR
    elif how == "buf":
        body, n = t, len(t)
        if not n: body, n = b"\n", 1
    elif how == "zero":                   # length 0: documented as a string
        body, n = t.split(b"\0")[0] + b"\0", 0
    else:                                 # more text follows the given length
        body, n = (t or b"\n") + rng.choice((b"1", b"x 1\n", b"\ntype q\n", b"0" * 9)), len(t or b"\n")
    b = L.raw(len(body), 0)
    L.raw_put(b, body, len(body))
    return b, n


HOWS = ("str", "buf", "buf", "more", "zero")


def judge(mon, L, rng, t, tag, how=None, sig=(), pairing=False):
    how = how or rng.choice(HOWS)
    ref = reference(t)
    mon.case(tag, how, repr(t)[:5000])
    b, n = deliver(L, rng, t, how)
    live = L.alloc_live(0), L.alloc_live(1)
    par = L.param_new(b, n)
    L.raw_put(b, b"Z" * 0, 0)
    if mon.check((par is None) == (ref is None), tag + (": text accepted that must be rejected" if ref is None else ": valid text rejected"), repr(t)[:1500], how, *sig) and par:
        L.raw_free(b)                    # nothing of the text may be referenced any more
        b = None
        d = printed(L, par)
        mon.eq(d, ref, tag + ": printed parameters differ from the text", how, *sig)
        s = L.capture(lambda f: L.param_out(f, par))[1]
        p2 = L.param_new(s, len(s))
        if mon.check(p2, tag + ": printed parameters rejected", repr(s)[:1000], how):
            mon.eq(L.capture(lambda f: L.param_out(f, p2))[1], s, tag + ": printing is not stable", how)
            L.param_free(p2)
    if par: L.param_free(par)
    now = L.alloc_live(0), L.alloc_live(1)
    mon.eq(now, live, tag + (": memory left after rejecting" if ref is None else ": memory left after parsing and clearing"), how, *sig)
    if pairing and ref is None:
        bb, n = deliver(L, rng, t, how)
        h = L.pairing_new(bb, n)
        mon.check(not h, tag + ": pairing initialized from text that must be rejected", repr(t)[:1500], how)
        L.raw_free(bb)
        mon.eq((L.alloc_live(0), L.alloc_live(1)), live, tag + ": memory left after a failed pairing initialization", how)
    if b: L.raw_free(b)
    mon.stat("texts " + ("accepted" if ref else "rejected"))
    return ref


SEPS = (b" ", b"\t", b"  ", b" \t ", b"\n", b"\r\n", b"\n\n", b" \r", b"\n# c\n", b"\n#\n", b" # x 1 type q\n", b"\t#q 5\r\n", b" ## q 5\n", b"\n# a # type z #\n", b"\n#c\r q 5\n", b" # <q> 7 </q>\n")


def rep(rng, v):
    c = rng.randrange(6)
    if c == 0: return (b"-" if v < 0 else b"") + b"0x%x" % abs(v)
    if c == 1: return (b"-" if v < 0 else b"") + b"0%o" % abs(v)
    if c == 2: return (b"-" if v < 0 else b"") + b"0X" + b"%X" % abs(v)
    if c == 3 and abs(v) < 1 << 200: return (b"-" if v < 0 else b"") + b"0b" + bin(abs(v))[2:].encode()
    return b"%d" % v


def shuffle(rng, pairs, noise=True):
    """a text with the same meaning"""
    pairs = list(pairs)
    mode = rng.randrange(4)
    if mode: rng.shuffle(pairs)
    out = []
    for k, v in pairs:
        if noise and rng.random() < .1:           # an earlier, overridden value
            out.append((k, rng.choice((b"7", b"zz", b"-1", b"0x"))))
    if out:
        pairs = out + pairs
    if noise:
        for _ in range(rng.randrange(3)):
            pairs.insert(rng.randrange(len(pairs) + 1), (rng.choice((b"x", b"comment", b"Q", b"qq", b"coeff99", b"typ", b"type2", b"a" * rng.choice((30, 31, 32, 33, 64, 200)))), rng.choice((b"1", b"hello", b"y" * rng.choice((31, 32, 33, 95, 96, 97))))))
    plain = rng.random() < .2
    t = b"" if rng.random() < .6 else rng.choice((b" ", b"\n", b"# header\n", b"#\n\n", b"\r\n\t"))
    for k, v in pairs:
        t += k + (b" " if plain else rng.choice(SEPS)) + v + (b"\n" if plain else rng.choice(SEPS))
    c = rng.randrange(5)
    if c == 0: t = t.rstrip(b" \t\r\n") if t[-1:] != b"\n" or b"#" not in t.splitlines()[-1] else t
    if c == 1: t += rng.choice((b"dangling", b"# end", b"#", b"  \t"))
    if c == 2: t += b"\0" + rng.choice((b"q 1\n", b"type z\n", b"\0\0", b"a"))
    return t


def base_pairs(t):
    w = words(t.encode())
    return [(w[i], w[i + 1]) for i in range(0, len(w), 2)]


def u_good(mon, L, rng, src, i, n):
    t0 = text_of(rng, src)
    tag = "type " + families.parse(t0)["type"]
    judge(mon, L, rng, t0.encode(), tag, "buf", ("plain",))
    judge(mon, L, rng, t0.encode(), tag, "str", ("plain",))
    for j in range(n):
        pairs = base_pairs(t0)
        if rng.random() < .3: pairs = [(k, rep(rng, num(v)) if k != b"type" else v) for k, v in pairs]
        if rng.random() < .3:                     # other numbers: the text is kept as given
            pairs = [(k, (b"%d" % rng.choice((0, 1, -1, rng.getrandbits(20), -rng.getrandbits(20))) if k.decode() in INTS else b"%d" % rng.choice((0, -5, rng.getrandbits(70), rng.getrandbits(rng.choice((8, 1000))))))
                      if k not in (b"type", b"k") and rng.random() < .5 else v) for k, v in pairs]
        judge(mon, L, rng, shuffle(rng, pairs), tag, None, ("varied", j % 7))


BADNUM = (b"zz", b"12x", b"-", b"--5", b"+5", b"0xg", b"08", b"1.5", b"1e5", b"0b2", b"1,000", b"''", b"q", b"type", b"\xff\xfe", b"1-")


def u_bad(mon, L, rng, src, i, n):
    t0 = text_of(rng, src)
    ty = families.parse(t0)["type"]
    tag = "type " + ty
    for j in range(n):
        pairs = base_pairs(t0)
        c = rng.randrange(8)
        k = rng.randrange(len(pairs))
        if c == 0: del pairs[k]
        elif c == 1: pairs[k] = (pairs[k][0], rng.choice(BADNUM))
        elif c == 2: pairs = [(a, v if a != b"type" else rng.choice((b"z", b"A", b"b", b"a2", b"", b"aa", b"D", b"1", b"ii", b"a1x"))) for a, v in pairs]
        elif c == 3: pairs[k] = (rng.choice((pairs[k][0].upper(), pairs[k][0] + b"0", pairs[k][0][:-1] or b"x", b"_" + pairs[k][0])), pairs[k][1])
        elif c == 4:
            pairs = [(a, rng.choice((b"2147483648", b"99999999999999999999", b"-2147483649", b"0x80000000")) if a.decode() in INTS and rng.random() < .6 else v) for a, v in pairs]
        elif c == 5:
            pairs = [(a, rng.choice((b"0", b"-2", b"1", b"3", b"2147483646", b"100000", b"-2147483648", b"8", b"4")) if a == b"k" else v) for a, v in pairs]
        elif c == 6: pairs.insert(rng.randrange(len(pairs) + 1), (pairs[k][0], rng.choice(BADNUM)))   # may or may not be overridden
        else: pairs = [(a, v if a != b"type" else rng.choice((b"a", b"a1", b"d", b"e", b"f", b"g", b"i"))) for a, v in pairs]   # another family's keys
        if rng.random() < .5: t = b"".join(a + b" " + v + b"\n" for a, v in pairs)
        else: t = shuffle(rng, pairs, False)
        judge(mon, L, rng, t, tag, None, ("bad", c), rng.random() < .3)


def u_truncate(mon, L, rng, src, i):
    """every prefix"""
    t = text_of(rng, src).encode()
    tag = "type " + families.parse(t.decode())["type"] + " cut short"
    cuts = range(len(t) + 1) if len(t) < 900 else sorted(rng.sample(range(len(t)), 900))
    for c in cuts: judge(mon, L, rng, t[:c], tag, "str" if c % 3 == 0 else "buf", (c % 16,))


def u_garbage(mon, L, rng, i, n):
    al = [b"type", b"a", b"d", b"q", b"r", b"k", b"6", b"#", b"\n", b" ", b"\t", b"12345", b"coeff0", b"-1", b"x" * 40, b"\xc3", b"i", b"m", b"n", b"n2", b"t", b"f", b"l", b"p", b"a1", b"\r"]
    for j in range(n):
        c = rng.randrange(4)
        if c == 0: t = b"".join(rng.choice(al) for _ in range(rng.randrange(30)))
        elif c == 1: t = b" ".join(rng.choice(al) for _ in range(rng.randrange(30)))
        elif c == 2: t = bytes(rng.getrandbits(8) for _ in range(rng.randrange(60)))
        else:
            t = bytearray(text_of(rng, rng.choice(("A", "1", "I", "=a", "=d159", "=f"))).encode())
            for _ in range(rng.randrange(1, 5)): t[rng.randrange(len(t))] = rng.choice(b"# \n\t\0x0129-</>\xff")
            t = bytes(t)
        if any(x in t for x in b"</>"):
            b, ln = deliver(L, rng, t, "buf")
            live = L.alloc_live(0), L.alloc_live(1)
            mon.case("garbage", repr(t))
            p = L.param_new(b, ln)
            if p: L.param_free(p)
            mon.eq((L.alloc_live(0), L.alloc_live(1)), live, "garbage: memory left")
            L.raw_free(b)
            continue
        judge(mon, L, rng, t, "garbage", None, (c,), rng.random() < .2)


def u_pair(mon, L, rng, src, i, n):
    """pairings from the original text, a rearranged one and the printed one are equivalent"""
    t0 = text_of(rng, src)
    tag = "type " + families.parse(t0)["type"]
    P = families.Pairing(L, t0, src)
    a, b, o = P.G1.new(), P.G2.new(), P.GT.new()
    for j in range(n):
        L.random(a)
        L.random(b)
        L.pairing_apply(o, a, b, P.h)
        exp = P.GT.get(o)
        t = shuffle(rng, base_pairs(t0), False)
        how = rng.choice(HOWS)
        mon.case("pairing", how, repr(t)[:4000])
        bb, ln = deliver(L, rng, t, how)
        c = j % 3
        if c == 0: h = L.pairing_new(bb, ln)
        else:
            par = L.param_new(bb, ln)
            if c == 2:
                s = L.capture(lambda f: L.param_out(f, par))[1]
                L.param_free(par)
                par = L.param_new(s, len(s))
            h = L.param_pairing(par)
            L.param_free(par)
        L.raw_free(bb)
        if not mon.check(h, tag + ": valid text rejected", repr(t)[:1000]): break
        Q = families.Pairing(L, t0, src, h=h)
        z = L.z_new()
        L.pairing_r(h, z)
        mon.eq(L.zget(z), P.r, tag + ": group order", c)
        L.z_free(z)
        if P.fam != "i":
            a2, b2, o2 = Q.G1.new(), Q.G2.new(), Q.GT.new()
            Q.G1.set(a2, P.G1.get(a))
            Q.G2.set(b2, P.G2.get(b))
            L.pairing_apply(o2, a2, b2, h)
            mon.eq(Q.GT.get(o2), exp, tag + ": equal parameters give different pairing values", c, how)
        Q.close()
    P.close()
