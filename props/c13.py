"""printf-style output."""
import ctypes as C
import os
import zoo, c12, mz

RULE = ("an evaluation compares the bytes, the returned length or the untouched rest of an exact-size buffer with the pieces formatted one by one; "
        "distinct counts (function, conversion sequence, buffer size relation) signatures")
ASSUMPTIONS = ["conversions take integer or pointer arguments, as the implementation states; no '*' widths, %n or %m",
               "big-integer and ordinary conversions are compared with the same conversion handed to gmp alone, elements with the reference printer",
               "a failing stream is judged where something other than a big-integer conversion is printed: gmp_fprintf itself does not report it"]
FNS = ("esnprintfv", "evsnprintfv", "efprintfv", "evfprintfv", "eprintfv")


def units(tier, rng):
    k = 1 if tier == "quick" else 12
    out = [("mixed", dict(i=i, n=40)) for i in range(24 * k)]
    out += [("kinds", dict(kind=kind, n=6 * k)) for kind in zoo.RINGS + zoo.CURVES + zoo.PAIRED + zoo.SHIPPED
            if not (kind.endswith("G2") and kind.lstrip("=")[0] in "Aa1EIei")]
    out += [("failing", dict(i=i, n=60)) for i in range(2 * k)]
    out += [("malformed", dict(i=i, n=200)) for i in range(2 * k)]
    return out


def flags(rng):
    return "".join(f for f in "-+ #0" if rng.random() < .15) + (str(rng.randrange(1, 40) if rng.random() < .9 else rng.randrange(100, 1500)) if rng.random() < .4 else "")


def alone(L, f, a):
    """one conversion formatted by gmp on its own"""
    b = C.create_string_buffer(4000)
    n = L.gmp1(b, 4000, f.encode("latin-1"), a)
    return b.raw[:n].decode("latin-1")


def piece(L, rng, els, keep):
    """(format text, argument or None, expected text, kind)"""
    c = rng.randrange(10)
    if c <= 1:
        e, t = rng.choice(els)
        return "%B", e, t, "B"
    if c == 2: return "%%", None, "%", "%%"
    if c == 3:
        t = "".join(rng.choice("abZBdx ,\n\t[]:$\xe9") for _ in range(rng.randrange(1, 12) if rng.random() < .95 else rng.randrange(200, 4000)))
        return t, None, t, "text"
    prec = "." + str(rng.randrange(0, 25)) if rng.random() < .2 else ""
    if c == 4 or c == 5:
        v = rng.choice((0, 1, -1, rng.getrandbits(rng.choice((1, 31, 32, 63, 64, 65, 200, 600))) * rng.choice((1, -1))))
        cv = rng.choice("dixXo")
        f, a, k = "%" + flags(rng) + "Z" + cv, L.zset(keep(L.z_new()), v), "Z" + cv
    elif c == 6:
        s = "".join(rng.choice("abc %B\xe9xyz") for _ in range(rng.randrange(0, 20) if rng.random() < .9 else rng.randrange(100, 1500))).encode("latin-1")
        b = keep(C.create_string_buffer(s))
        f, a, k = "%" + ("-" if rng.random() < .3 else "") + (str(rng.randrange(1, 30)) if rng.random() < .4 else "") + prec + "s", C.addressof(b), "s"
    elif c == 7:
        f, a, k = "%c", ord(rng.choice("azB%0")), "c"
    elif c == 8:
        mod, bits = rng.choice((("", 32), ("l", 64), ("ll", 64), ("h", 16), ("hh", 8), ("z", 64), ("j", 64), ("t", 64)))
        v = rng.choice((0, 1, -1, (1 << bits - 1) - 1, -(1 << bits - 1), rng.randrange(-(1 << bits - 1), 1 << bits - 1)))
        cv = rng.choice("diuxXo")
        f, a, k = "%" + flags(rng) + prec + mod + cv, v % (1 << 64), mod + cv
    else:
        f, a, k = "%p", rng.randrange(1, 1 << 47), "p"
    return f, a, alone(L, f, a), k


def sizes(rng, n, cuts):
    s = {0, 1, 2, n - 1, n, n + 1, n + 2, n + 30, rng.randrange(n + 2)}
    for c in cuts: s |= {c, c + 1, c + 2}
    return sorted(x for x in s if x >= 0)


def judge(mon, L, rng, fmt, args, exp, cuts, sig, path):
    arr = (C.c_void_p * 12)(*([a & (1 << 64) - 1 for a in args] + [0] * (12 - len(args))))
    d = fmt.encode("latin-1") + b"\0"
    fb = L.raw(len(d), 0)
    L.raw_put(fb, d, len(d))
    exp = exp.encode("latin-1")
    n = len(exp)
    for fn in FNS:
        mon.case(fn, repr(fmt), "expected", repr(exp)[:800])
        if fn == "eprintfv":
            r = L.eprintfv(path.encode(), fb, arr)
            got = open(path, "rb").read()
        elif "sn" not in fn:
            r, got = L.capture(lambda f: getattr(L, fn)(f, fb, arr))
        else:
            for size in sizes(rng, n, rng.sample(cuts, min(3, len(cuts)))):
                rel = (size - n if abs(size - n) < 3 else size if size < 3 else 9)
                mon.case(fn, repr(fmt), "size", size, "expected", repr(exp)[:800])
                b = L.raw(size, 0xEE) if size else None
                r = getattr(L, fn)(b, size, fb, arr)
                mon.eq(r, n, fn + ": wrong length returned", rel, sig)
                if size:
                    w = exp[:size - 1] + b"\0"
                    g = C.string_at(b, size)
                    mon.eq(g[:len(w)], w, fn + ": wrong text", rel, sig)
                    mon.check(g[len(w):] == b"\xEE" * (size - len(w)), fn + ": wrote after the terminator", "", rel)
                    L.raw_free(b)
            continue
        mon.eq(got, exp, fn + ": wrong text", sig)
        mon.eq(r, n, fn + ": wrong length returned", sig)
    mon.check(C.string_at(fb, len(d)) == d, "the format was changed")
    L.raw_free(fb)


def formatted(mon, L, rng, els, k, path):
    kept = []
    def keep(x):
        kept.append(x)
        return x
    ps = [piece(L, rng, els, keep) for _ in range(k)]
    fmt = "".join(p[0] for p in ps)
    exp = "".join(p[2] for p in ps)
    cuts, n = [], 0
    for p in ps:
        n += len(p[2])
        cuts.append(n)
    judge(mon, L, rng, fmt, [p[1] for p in ps if p[1] is not None], exp, cuts, tuple(p[3] for p in ps[:6]), path)
    for x in kept:
        if isinstance(x, int): L.z_free(x)
    mon.stat("formats")


def u_mixed(mon, L, rng, i, n):
    path = os.path.join(mon.ctx["scratch"], "out.%d" % os.getpid())
    ss = [zoo.build(L, rng, rng.choice(("naive", "mont", "quad", "polymod", "tower", "poly", "z", "curve", "curveext", "gf32m"))) for _ in range(3)]
    fm = L.field_multiz()
    for j in range(n):
        els, fresh = [], []
        for S in ss:
            e = S.H.new()
            v = S.load(e)
            els.append((e, c12.fmt(S, v, 10)))
        v = mz.sample(rng)
        e = mz.build(L, fm, v)
        els.append((e, mz.text(v)))
        formatted(mon, L, rng, els, rng.choice((0, 1, 1, 2, 3, 5, 8, 12)), path)
        L.el_free(e)
        for S in ss: S.H.free_els() if j % 5 == 4 and S.name not in ("poly",) else None
    L.field_free(fm)


def u_kinds(mon, L, rng, kind, n):
    path = os.path.join(mon.ctx["scratch"], "out.%d" % os.getpid())
    S = zoo.build(L, rng, kind)
    e, f = S.H.new(), S.H.new()
    for j in range(n):
        els = [(x, c12.fmt(S, S.load(x), 10)) for x in (e, f)]
        formatted(mon, L, rng, els, rng.choice((1, 2, 3, 6)), path)
    S.close()


def u_malformed(mon, L, rng, i, n):
    """incomplete conversions: nothing outside the format or the buffer is touched"""
    F = zoo.build(L, rng, "naive")
    e = F.H.new()
    F.load(e)
    z = L.zset(L.z_new(), rng.getrandbits(100))
    for j in range(n):
        head = "".join(rng.choice("ab%") for _ in range(rng.randrange(4))).replace("%", "%%")
        fmt = head + rng.choice(("%", "%Z", "%l", "%5", "%-", "%ll", "%#", "%h", "%5.3", "%5.", "%0Z"))
        d = fmt.encode() + b"\0"
        fb = L.raw(len(d), 0)
        L.raw_put(fb, d, len(d))
        arr = (C.c_void_p * 12)(*([z] * 12))
        size = rng.randrange(1, 12)
        b = L.raw(size, 0)
        mon.case("malformed", repr(fmt), size)
        L.esnprintfv(b, size, fb, arr)
        r, got = L.capture(lambda f: L.efprintfv(f, fb, arr))
        mon.check(len(got) <= len(fmt) + 400, "malformed format printed nonsense", repr(got), fmt[len(head):])
        L.raw_free(b)
        L.raw_free(fb)
    L.z_free(z)
    F.close()


def u_failing(mon, L, rng, i, n):
    """a stream that cannot be written: the failure is reported by the return value"""
    libc = C.CDLL(None)
    libc.fopen.restype = C.c_void_p
    f = libc.fopen(b"/dev/full", b"w")
    if not f: raise OSError("cannot open /dev/full")
    libc.setvbuf(C.c_void_p(f), None, 2, 0)
    F = zoo.build(L, rng, "naive")
    e = F.H.new()
    F.load(e)
    z = L.zset(L.z_new(), rng.getrandbits(100))
    for j in range(n):
        kinds = [rng.choice(("text", "%B", "%Zd", "%d", "%%")) for _ in range(rng.randrange(1, 5))]
        if set(kinds) == {"%Zd"}: continue              # gmp_fprintf itself reports 0
        fmt = "".join("ab" if k == "text" else k for k in kinds)
        args = [{"%B": e, "%Zd": z, "%d": 5}[k] for k in kinds if k in ("%B", "%Zd", "%d")]
        arr = (C.c_void_p * 12)(*(args + [0] * (12 - len(args))))
        fn = rng.choice(("efprintfv", "evfprintfv"))
        mon.case(fn, fmt, "on a full device")
        r = getattr(L, fn)(f, fmt.encode(), arr)
        mon.check(C.c_int(r).value < 0, fn + ": a failed write is not reported", r, fn, tuple(kinds))
        libc.clearerr(C.c_void_p(f))
    libc.fclose(C.c_void_p(f))
    L.z_free(z)
    F.close()
