"""Parameter generators, curve searches, class polynomials, generator programs."""
import ctypes as C
import math, os, subprocess
import build, cm, families, model as M, paramcheck

RULE = ("an evaluation is one decision on generated numbers: one equation of the family recomputed independently (primality, order of the curve, embedding degree, irreducibility, sizes), one reported "
        "or expected curve of a search, one class polynomial, or one pairing identity on the generated parameters; distinct counts (generator, requested size, equation) signatures")
ASSUMPTIONS = ["requested sizes are met exactly for types A and E when q has room (19 bits above r for A, 36 bits above r^2 for E); types F and I as documented (roughly / at least)",
               "the searches are complete for 3D > 64 (MNT) and 15D > 400 (Freeman), where every solution is a convergent; below only soundness is checked",
               "orders with a composite part free of 16-bit primes are not reported by the searches (documented in the code)",
               "discriminants whose class polynomial has the roots 0 or 1728 (D = 3, 4) are not used to build curves"]
CB = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p, C.c_void_p, C.c_int, C.c_int, C.c_void_p)
RCB = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p, C.c_void_p)
GENS = ("genaparam", "gena1param", "gendparam", "geneparam", "genfparam", "gengparam", "hilbertpoly", "listmnt", "listfreeman")


def prepare(d):
    o = build.static_objs(d, "g")
    jobs = []
    for g in GENS:
        jobs.append(["gcc", "-w", "-O1", "-g", "-I" + build.REPO + "/include", "-I" + build.REPO, "-o", os.path.join(d, g), os.path.join(build.REPO, "gen", g + ".c")] + build.SAN + o + ["-lgmp", "-lm"])
    build.compile_many(jobs)
    return {}


def units(tier, rng):
    k = 1 if tier == "quick" else 12
    out = []
    for i in range(10 * k): out.append(("gen_a", dict(i=i, n=10)))
    for i in range(6 * k): out.append(("gen_a1", dict(i=i, n=6)))
    for i in range(6 * k): out.append(("gen_e", dict(i=i, n=10)))
    for i in range(8 * k): out.append(("gen_f", dict(i=i, n=2)))
    for e in EDGES: out.append(("gen_i", dict(e=e)))
    for i in range(6 * k): out.append(("gen_cm", dict(i=i, fam="d", n=2)))
    for i in range(3 * k): out.append(("gen_cm", dict(i=i, fam="g", n=1)))
    for i in range(8 * k):
        out.append(("search", dict(i=i, fam="d", n=14, hi=21)))
        out.append(("search", dict(i=i, fam="g", n=20, hi=21)))
    for i in range(3 * k): out.append(("search", dict(i=i, fam="d", n=1, hi=31)))
    out.append(("search_all", dict(i=0, fam="d", lo=3, hi=600 * k)))
    out.append(("search_all", dict(i=0, fam="g", lo=3, hi=600 * k)))
    for i in range(8 * k): out.append(("hilbert", dict(i=i, n=8)))
    out.append(("hilbert_known", dict(i=0)))
    for nm in families.SHIPPED: out.append(("shipped", dict(name=nm)))
    for g in GENS: out.insert(0, ("tool", dict(g=g, n=3 * k if g != "hilbertpoly" else 6 * k)))
    out.sort(key=lambda u: (u[0] not in ("tool", "gen_cm", "gen_i"), -u[1].get("e", 0)))
    return out


def out_text(L, p):
    t = L.capture(lambda f: L.param_out(f, p))[1].decode("latin1")
    L.param_free(p)
    return t


def judge(mon, rng, text, gen, size):
    d, res = paramcheck.verify(text, rng)
    for what, ok in res:
        if ok is None:
            mon.stat("undecided " + what)
            continue
        mon.check(ok, "%s: %s" % (gen, what), lambda: text, size)
    return d


def bilinear(mon, L, rng, text, gen):
    """the generated parameters really give a bilinear, non-degenerate pairing"""
    P = families.Pairing(L, text, gen)
    r = P.r
    a, b = rng.randrange(1, r), rng.randrange(1, r)
    for _ in range(8):
        x, y = P.G1.new(), P.G2.new()
        L.random(x), L.random(y)
        u, v = P.GT.new(), P.GT.new()
        L.pairing_apply(u, x, y, P.h)
        if not L.is1(u): break
    else:
        mon.check(False, gen + ": degenerate pairing", text)
    L.pow_mpz(v, u, L.Z(a * b % r))
    x2, y2 = P.G1.new(), P.G2.new()
    L.mul_mpz(x2, x, L.Z(a))
    L.mul_mpz(y2, y, L.Z(b))
    w = P.GT.new()
    L.pairing_apply(w, x2, y2, P.h)
    mon.check(L.cmp(w, v) == 0, gen + ": pairing not bilinear", lambda: text)
    L.pow_mpz(v, u, L.Z(r))
    mon.check(bool(L.is1(v)), gen + ": pairing value not of order r", lambda: text)
    P.close()


def u_gen_a(mon, L, rng, i, n):
    for j in range(n):
        rb = rng.choice((3, 4, 5, 6, 7, 8, 10, 13, 16, 20, 31, 32, 33, 48, 63, 64, 65, 80, 100, 127, 128, 160, 200))
        qb = rb + rng.choice((6, 10, 18, 19, 20, 32, 64, 128, 200, 350))
        mon.case("type A generator", rb, qb)
        t = out_text(L, L.param_a(rb, qb))
        d = judge(mon, rng, t, "A", (rb, qb))
        mon.eq(int(d["r"]).bit_length(), rb, "A: length of r", rb, qb)
        if qb - rb >= 19: mon.eq(int(d["q"]).bit_length(), qb, "A: length of q", rb, qb)
        if rb > 12 and j == 0: bilinear(mon, L, rng, t, "A")


def u_gen_a1(mon, L, rng, i, n):
    for j in range(n):
        k = rng.choice((1, 2, 2, 3))
        b = rng.choice((17, 20, 32, 33, 64, 100, 160))
        N = 1
        for _ in range(k): N *= M.rand_prime(rng, b)
        c = rng.randrange(6)                    # orders with small, repeated and even factors; small orders
        if c == 0: N *= rng.choice((3, 5, 7, 9, 15, 21, 105, 11 * 13))
        elif c == 1: N *= rng.choice((2, 4, 6, 30))
        elif c == 2: N = rng.choice((3, 5, 7, 9, 13, 15, 21, 45, 105, 2 ** 16 + 1, 2 ** 32 - 1, 2 ** 64 - 59, rng.randrange(3, 1 << rng.randrange(3, 70)) | 1))
        mon.case("type A1 generator", N)
        t = out_text(L, L.param_a1(L.Z(N)))
        d = judge(mon, rng, t, "A1", (k, b))
        mon.eq(int(d["n"]), N, "A1: order as requested", k, b)


def extremes(L, rng, p):
    """a source whose answers are often the least or greatest possible"""
    def fun(z, lim, d):
        n = L.zget(lim)
        L.zset(z, rng.choice((0, n - 1)) if rng.random() < p else rng.randrange(n))
    cb = RCB(fun)
    L.random_function(cb, None)
    return cb


def u_gen_e(mon, L, rng, i, n):
    for j in range(n):
        keep = extremes(L, rng, rng.choice((0, .2, .5)))
        # 2^(bits - 1) - 1 is prime: a solution one bit short, which must not be taken
        rb = rng.choice((3, 5, 8, 12, 16, 20, 32, 33, 64, 80, 100, 128, 160) if j % 2 else (8, 14, 18, 20, 32, 62))
        qb = 2 * rb + rng.choice((34, 35, 36, 37, 40, 64, 65, 100, 128, 301))
        mon.case("type E generator", rb, qb)
        t = out_text(L, L.param_e(rb, qb))
        L.random_monitored(rng.getrandbits(31), 0)
        d = judge(mon, rng, t, "E", (rb, qb))
        h = int(d["h"])
        mon.check(h % 3 == 0 and math.isqrt(h // 3) ** 2 == h // 3, "E: h = 3 x^2", t)
        mon.eq(int(d["r"]).bit_length(), rb, "E: length of r", rb, qb)
        if (qb - 2) // 2 - rb >= 16: mon.eq(int(d["q"]).bit_length(), qb, "E: length of q", rb, qb)
        if rb >= 20 and j == 0: bilinear(mon, L, rng, t, "E")
        del keep


def u_gen_f(mon, L, rng, i, n):
    for j in range(n):
        bits = rng.choice((40, 41, 50, 64, 66, 80, 96, 128, 129, 160, 190, 222, 256))
        mon.case("type F generator", bits)
        t = out_text(L, L.param_f(bits))
        d = judge(mon, rng, t, "F", bits)
        qb = int(d["q"]).bit_length()
        mon.check(bits - 4 <= qb <= bits + 2, "F: size far from the request", "%d for %d" % (qb, bits), bits)
        if j == 0 and bits <= 128: bilinear(mon, L, rng, t, "F")


EDGES = (150, 206, 259, 316, 376, 430, 484, 552, 644, 696, 803, 892)


def u_gen_i(mon, L, rng, e):
    seen = set()
    for e in (e,):
        for s in [rng.randrange(e - 40, e), e - 1, e] + ([e + 1] if e < 892 else []):
            mon.case("type I generator", s)
            t = out_text(L, L.param_i(s))
            n = int(families.parse(t)["n"])
            mon.check(n >= 2 ** s, "I: group smaller than requested", t, s)
            if t in seen: continue
            seen.add(t)
            if s > e: continue
            d = judge(mon, rng, t, "I", s)
            P = L.param_new(t.encode(), C.c_size_t(-1).value)
            pr = L.param_pairing(P)
            x = L.init_G1(pr)
            for _ in range(3):
                L.random(x)
                ok = not L.is0(x)
                L.mul_mpz(x, x, L.Z(n))
                mon.check(L.is0(x) and ok, "I: random point not of the stated order", t, s)
            L.el_free(x)
            L.pairing_free(pr)
            L.param_free(P)


def reported(L, fam, D, bits, stop=None):
    got, keepcm = [], []
    def cb(q, n, h, r, D_, k, c):
        got.append(tuple(L.zget(v) for v in (q, n, h, r)) + (D_, k))
        if stop: return stop(c)
        return 0
    f = CB(cb)
    rc = (L.cm_search_d if fam == "d" else L.cm_search_g)(C.cast(f, C.c_void_p), D, bits)
    return got, rc


def family_ok(fam, q, n):
    """q, n are a member of the polynomial family"""
    if fam == "d":
        l = math.isqrt(q - 1)
        return l * l == q - 1 and l % 2 == 0 and n in (q - l, q + l)
    t = q + 1 - n
    # t = 10x^2 + 5x + 3
    s = 25 - 40 * (3 - t)
    if s < 0 or math.isqrt(s) ** 2 != s: return False
    for x in ((-5 + math.isqrt(s)), (-5 - math.isqrt(s))):
        if x % 20 == 0:
            x //= 20
            if 25 * x ** 4 + 25 * x ** 3 + 25 * x * x + 10 * x + 3 == q: return True
    return False


def sound(mon, fam, D, bits, got):
    k = 6 if fam == "d" else 10
    for q, n, h, r, D_, kk in got:
        t = q + 1 - n
        v = 4 * q - t * t
        mon.check(M.is_prime(q) and M.is_prime(r) and h * r == n, "search %s: q, r prime and n = h r" % fam, lambda: "%s" % ((D, q, n, h, r),), D)
        mon.check(v > 0 and v % D == 0 and math.isqrt(v // D) ** 2 == v // D, "search %s: CM equation" % fam, lambda: "%s" % ((D, q, n),), D)
        mon.check(family_ok(fam, q, n), "search %s: family equation" % fam, lambda: "%s" % ((D, q, n),), D)
        mon.check((q ** k - 1) % r == 0, "search %s: embedding degree" % fam, lambda: "%s" % ((D, q, n),), D)
        mon.check(r.bit_length() <= bits, "search %s: beyond the bit limit" % fam, lambda: "%s" % ((D, bits, r),), D)
        mon.check((D_, kk) == (D, k), "search %s: D and k" % fam, lambda: "%s" % ((D, D_, kk),), D)
        mon.stat("curves reported " + fam)
    if len(set(got)) != len(got): mon.stat("duplicates")


def reportable(n):
    """what the searches promise to report: a prime times primes of at most 16 bits, the prime larger"""
    m = n
    p = 2
    while p < 65536 and not M.is_prime(m):
        while m % p == 0: m //= p
        p += 1 if p == 2 else 2
        if m == 1: return False
    return M.is_prime(m) and m > 65536


SQUARES = [p * p for p in (2, 3, 5, 7, 11, 13, 19, 31, 37, 41, 43, 61, 71, 101)]


def family_member(fam, rng, bits, rep=False):
    """q, n of the family; rep: with a repeated prime in n, if there is one"""
    tries = 0
    while True:
        if fam == "d":
            l = 2 * rng.randrange(1, 2 ** (bits // 2 - 1))
            q = l * l + 1
            n = q + rng.choice((l, -l))
        else:
            x = rng.randrange(-2 ** (bits // 4 - 1), 2 ** (bits // 4 - 1))
            q = 25 * x ** 4 + 25 * x ** 3 + 25 * x * x + 10 * x + 3
            n = q - (10 * x * x + 5 * x + 3) + 1
        if rep and all(n % s for s in SQUARES):
            tries += 1
            rep = tries < 3000
            continue
        if M.is_prime(q) and reportable(n): return q, n
        tries += 1
        rep = rep and tries < 3000


def stopping(mon, L, rng, fam, D, bl, got):
    """a callback that asks to stop ends the search there, and its answer is the result"""
    if not got: return
    k = rng.randrange(len(got))
    seen = [0]
    ret = rng.choice((1, 7 + k, -1, -2, -2 ** 31, 2 ** 31 - 1, 256, 65536))
    def stop(c):
        seen[0] += 1
        return ret if seen[0] == k + 1 else 0
    g2, rc = reported(L, fam, D, bl, stop)
    mon.check(rc == ret and g2 == got[:k + 1], "search %s: stopping on request" % fam, lambda: "%r, %d: %r %r" % (got, ret, rc, g2), min(k, 3), ret < 0)


def u_search(mon, L, rng, i, fam, n, hi):
    """curves constructed first; the search over their discriminant must report them"""
    done = 0
    while done < n:
        bits = rng.choice((26, 28, 30, 31) if hi > 21 else (20, 24, 28, 32, 36)) if fam == "d" else rng.choice((24, 28, 32, 36, 40, 44, 48))
        q, N = family_member(fam, rng, bits, rep=rng.random() < .3)
        t = q + 1 - N
        v = 4 * q - t * t
        # every discriminant D V^2 = v
        Ds = [v // (w * w) for w in range(1, 4000) if v % (w * w) == 0]
        Ds = [D for D in Ds if 27 <= D < 2 ** (hi if fam == "d" else 26) and D % 4 in (0, 3)]
        if hi > 21: Ds = [D for D in Ds if D > 2 ** 32 // 3] 
        if not Ds: continue
        D = rng.choice(Ds)
        bl = max(N.bit_length(), 20) + rng.choice((0, 0, 1, 10, 40))
        mon.case("search", fam, "D", D, "limit", bl, "constructed q", q, "n", N)
        got, rc = reported(L, fam, D, bl)
        mon.eq(rc, 0, "search %s: result without stop" % fam)
        sound(mon, fam, D, bl, got)
        mon.check(any(g[0] == q and g[1] == N for g in got), "search %s: a curve within the bounds is not reported" % fam, lambda: "D=%d q=%d n=%d limit=%d got %r" % (D, q, N, bl, got), D)
        low = next(g[3] for g in got if g[0] == q and g[1] == N).bit_length() - 1 if (q, N) in [g[:2] for g in got] else 0
        if low:                          # a limit one bit too low for this curve
            mon.case("search", fam, "D", D, "limit", low, "constructed q", q, "n", N)
            g3, rc = reported(L, fam, D, low)
            sound(mon, fam, D, low, g3)
            mon.check((q, N) not in [g[:2] for g in g3], "search %s: a curve beyond the limit is reported" % fam, lambda: "%r" % (g3,), D)
        stopping(mon, L, rng, fam, D, bl, got)
        done += 1


def u_search_all(mon, L, rng, i, fam, lo, hi):
    """all small discriminants against an exhaustive enumeration"""
    B = 26 if fam == "d" else 44
    exp = {}
    def add(q, n):
        if not M.is_prime(q) or n.bit_length() > B or not reportable(n): return
        t = q + 1 - n
        v = 4 * q - t * t
        # v = D V^2 for every D below hi
        for D in range(lo, hi):
            if v % D == 0 and math.isqrt(v // D) ** 2 == v // D: exp.setdefault(D, set()).add((q, n))
    if fam == "d":
        for l in range(2, 2 ** (B // 2 + 1), 2):
            for s in (1, -1): add(l * l + 1, l * l + 1 + s * l)
    else:
        for x in range(-2 ** 10, 2 ** 10):
            q = 25 * x ** 4 + 25 * x ** 3 + 25 * x * x + 10 * x + 3
            add(q, q - (10 * x * x + 5 * x + 3) + 1)
    for D in range(lo, hi):
        if D % 4 not in (0, 3): continue
        mon.case("search", fam, D, B)
        got, rc = reported(L, fam, D, B)
        sound(mon, fam, D, B, got)
        if D > 26:
            g = {(a[0], a[1]) for a in got}
            mon.check(exp.get(D, set()) <= g, "search %s: a curve within the bounds is not reported" % fam, lambda: "D=%d expected %r got %r" % (D, exp.get(D), g), D)
            mon.stat("expected curves " + fam, len(exp.get(D, ())))
        stopping(mon, L, rng, fam, D, B, got)
        if D < 200: stopping(mon, L, rng, fam, D, 300, reported(L, fam, D, 300)[0])
        mon.ok("all", fam, D)


def u_gen_cm(mon, L, rng, i, fam, n):
    done = 0
    pool = D_POOL if fam == "d" else G_POOL
    for D in rng.sample(pool, len(pool)):
        texts = []
        mon.case("generate", fam, D)
        def stop(c):
            texts.append(out_text(L, (L.param_d if fam == "d" else L.param_g)(c)))
            return 1
        got, rc = reported(L, fam, D, 330, lambda c: stop(c) if len(texts) < 1 and rng.random() < 0.7 else 0)
        if not texts: continue
        q, N, h, r, _, _ = got[-1] if rc else next(g for g in got if "q %d\n" % g[0] in texts[0])
        d = judge(mon, rng, texts[0], fam.upper(), D)
        mon.check((int(d["q"]), int(d["n"]), int(d["h"]), int(d["r"])) == (q, N, h, r), fam + ": parameters of another curve", texts[0], D)
        if r > 2 ** 30 and q > 2 ** 64: bilinear(mon, L, rng, texts[0], fam.upper())
        done += 1
        if done >= n: return
    if not done: raise RuntimeError("no curve generated")


# discriminants with a curve of order above 2^30 below the limit of 330 bits
D_POOL = [283, 443, 947, 3139, 3867, 3987, 5763, 8499, 8523]
G_POOL = [18883, 28267, 29707, 35707, 58243]


def lib_hilbert(L, D):
    n = L.hilbert(D, None, 0)
    buf = C.create_string_buffer(n + 16)
    L.hilbert(D, buf, n + 16)
    return [int(x, 16) for x in buf.value.decode().split(",")[:-1]]


def u_hilbert(mon, L, rng, i, n):
    for j in range(n):
        D = rng.choice((rng.randrange(3, 400), rng.randrange(3, 2500), rng.randrange(400, 4000), 4 * rng.randrange(1, 500) ** 1, 3 * rng.randrange(2, 20) ** 2, 9 * rng.randrange(1, 300)))
        if D % 4 not in (0, 3): D += 4 - D % 4
        mon.case("class polynomial", D)
        mon.eq(lib_hilbert(L, D), cm.hilbert(D), "class polynomial", D)


KNOWN = {3: [0, 1], 4: [-1728, 1], 7: [3375, 1], 8: [-8000, 1], 11: [32768, 1], 12: [-54000, 1], 15: [-121287375, 191025, 1], 16: [-287496, 1], 19: [884736, 1],
         20: [-681472000, -1264000, 1], 23: [12771880859375, -5151296875, 3491750, 1], 27: [12288000, 1], 28: [-16581375, 1], 43: [884736000, 1], 67: [147197952000, 1], 163: [262537412640768000, 1]}


def u_hilbert_known(mon, L, rng, i):
    for D, h in KNOWN.items():
        mon.case("class polynomial", D)
        mon.eq(lib_hilbert(L, D), h, "class polynomial", D)


def u_shipped(mon, L, rng, name):
    mon.case("shipped", name)
    judge(mon, rng, families.shipped_text(name), "shipped " + name, name)


def run(mon, g, args, rng, limit=None):
    exe = os.path.join(mon.ctx["scratch"], g)
    env = {"ASAN_OPTIONS": "detect_leaks=1:exitcode=99", "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1", "PATH": "/usr/bin:/bin"}
    mon.case("program", g, args)
    if limit:
        p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        lines = []
        for ln in p.stdout:
            lines.append(ln.decode())
            if len(lines) >= limit: break
        p.kill()
        err = p.stderr.read().decode("latin1")
        p.wait()
        if "Sanitizer" in err or "runtime error" in err: raise ValueError(g + ": " + err[-1500:])
        return "".join(lines)
    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    err = p.stderr.decode("latin1")
    if p.returncode and ("Sanitizer" in err or "runtime error" in err or p.returncode < 0): raise ValueError("%s: status %d: %s" % (g, p.returncode, err[:3000]))
    return p.returncode, p.stdout.decode("latin1"), err


def u_tool(mon, L, rng, g, n):
    for j in range(n):
        if g in ("genaparam", "geneparam", "genfparam", "gena1param"):
            if g == "genaparam": a = rng.choice(([], ["80"], ["64", "200"], ["40", "90"]))
            elif g == "geneparam": a = rng.choice((["60", "200"], ["40", "140"]))
            elif g == "genfparam": a = rng.choice(([], ["80"], ["120"]))
            else: a = []
            rc, o, e = run(mon, g, a, rng)
            mon.check(rc == 0, g + ": exit status", e, str(a))
            d = judge(mon, rng, o, g, str(a))
            if g == "genaparam":
                mon.eq((int(d["r"]).bit_length(), int(d["q"]).bit_length()), (int(a[0]) if a else 160, int(a[1]) if len(a) > 1 else 512), g + ": sizes", str(a))
            if g == "geneparam": mon.eq((int(d["r"]).bit_length(), int(d["q"]).bit_length()), (int(a[0]), int(a[1])), g + ": sizes", str(a))
            if g == "genfparam": mon.check(abs(int(d["r"]).bit_length() - (int(a[0]) if a else 160)) <= 4, g + ": sizes", o, str(a))
        elif g in ("gendparam", "gengparam"):
            if g == "gendparam": D = rng.choice(D_POOL + [1, 2, 5, 10, -3, 0])
            else: D = rng.choice([x for x in G_POOL if x % 120 in (43, 67)] + [1, 44, 0, -77])
            bad = D <= 0 or (D % 4 in (1, 2) if g == "gendparam" else D % 120 not in (43, 67))
            rc, o, e = run(mon, g, [str(D)], rng)
            mon.check((rc != 0) == bad, g + ": exit status", "%d %s %s" % (rc, o, e), bad)
            if not bad: judge(mon, rng, o, g, D)
        elif g == "hilbertpoly":
            lo = rng.randrange(3, 500)
            hi = lo + rng.randrange(0, 9)
            rc, o, e = run(mon, g, [str(lo), str(hi)] if hi > lo else [str(lo)], rng)
            mon.eq(rc, 0, g + ": exit status")
            exp = ""
            for D in range(lo, hi + 1):
                if D % 4 in (1, 2): continue
                h = cm.hilbert(D)
                pw = lambda k: "" if k == 0 else "X" if k == 1 else "X^%d" % k
                exp += "D = %d\n %s\n" % (D, pw(len(h) - 1))
                for k in range(len(h) - 2, -1, -1): exp += ("+" if h[k] >= 0 else "") + "%d%s\n" % (h[k], pw(k))
            mon.eq(o, exp, g + ": output", lo, hi)
        elif g == "listmnt":
            D0 = 4 * rng.randrange(2, 3000) + 3
            o = run(mon, g, [str(D0)], rng, limit=12)
            exp, D = "D < 1000000000, bits in q, bits in r\n", D0
            while exp.count("\n") < 12:
                for q, _, _, r, _, _ in reported(L, "d", D, 500)[0]: exp += "%d, %d, %d\n" % (D, q.bit_length(), r.bit_length())
                D += 1 if D % 4 == 3 else 3
            mon.eq(o, "".join(exp.splitlines(True)[:12]), g + ": output", D0)
        elif g == "listfreeman":
            D0 = 120 * rng.randrange(0, 200)
            o = run(mon, g, [str(D0)], rng, limit=4)
            exp, D = "D < 1000000000, bits in q, bits in r\n", D0
            while exp.count("\n") < 4:
                for x in (43, 67):
                    for q, _, _, r, _, _ in reported(L, "g", D + x, 500)[0]: exp += "%d, %d, %d\n" % (D + x, q.bit_length(), r.bit_length())
                D += 120
            mon.eq(o, "".join(exp.splitlines(True)[:4]), g + ": output", D0)
