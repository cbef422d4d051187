"""Lifecycle histories: memory safety, leaks, the installed allocator."""
import ctypes as C
import os, re, subprocess
import build, model as M, pbc, families, zoo, char3, mz

RULE = ("an evaluation is one balance observation of the installed allocators after a history whose objects were all released, one check that no C-library allocation bypassed them, or one "
        "program run that ended without a sanitizer, leak or valgrind report; the sanitizers observe every call; distinct counts (object kind, operation or release order) signatures")
ASSUMPTIONS = ["legal histories only: objects are initialized before use, released once, elements before their field, derived fields before their base, tables and elements before their pairing",
               "operations are the ones the structure offers (see the other properties)",
               "a list appended to a multiz takes ownership of the appended element's data, as the code states",
               "uninitialised reads are observed by valgrind in whole programs and, everywhere else, only through junk-filled allocations changing results"]
LIB_DEFS = ("-DWRAP_ALLOC",)
LIB_LINK = ("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup",)
EXAMPLES = ("bls", "hess", "joux", "paterson", "yuanli", "zhangkim", "zss")
GURU = ("fp_test", "quadratic_test", "poly_test", "prodpairing_test", "ternary_extension_field_test", "eta_T_3_test", "exp_test")
LEAKY = ("zhangkim", "yuanli", "hess", "paterson")      # these programs never release their own objects
PARAMS = ("a", "a1", "d159", "e", "f", "g149")


def prepare(d):
    san = build.static_objs(d, "x")
    raw = build.static_objs(d, "v", san=False)
    jobs = []
    for sub, names in (("example", EXAMPLES), ("guru", GURU)):
        for n in names:
            src = os.path.join(build.REPO, sub, n + ".c")
            if not os.path.exists(src): continue
            inc = ["-w", "-O1", "-g", "-I" + build.REPO + "/include", "-I" + build.REPO]
            jobs.append(["gcc"] + inc + ["-o", os.path.join(d, "san_" + n), src] + build.SAN + san + ["-lgmp", "-lm"])
            jobs.append(["gcc"] + inc + ["-o", os.path.join(d, "raw_" + n), src] + raw + ["-lgmp", "-lm"])
    src = os.path.join(build.HERE, "lifecycle.c")
    jobs.append(["gcc", "-w", "-O1", "-g", "-I" + build.REPO + "/include", "-I" + build.REPO, "-o", os.path.join(d, "raw_lifecycle"), src] + raw + ["-lgmp", "-lm"])
    jobs.append(["gcc", "-w", "-O1", "-g", "-I" + build.REPO + "/include", "-I" + build.REPO, "-o", os.path.join(d, "san_lifecycle"), src] + build.SAN + san + ["-lgmp", "-lm"])
    build.compile_many(jobs)
    return {}


def units(tier, rng):
    k = 1 if tier == "quick" else 12
    out = []
    for n in EXAMPLES: out.append(("program", dict(prog=n, params=list(PARAMS[:1] if n not in ("bls",) else ("a", "d159", "e")) if tier == "quick" else list(PARAMS), vg=n in ("bls", "zss"))))
    for n in GURU: out.append(("program", dict(prog=n, params=["a"] if n in ("prodpairing_test", "exp_test") else [""], vg=n in ("fp_test", "quadratic_test"))))
    for f in "A1DEFGI": out.append(("lifecycle", dict(fam=f, i=0)))
    kinds = zoo.RINGS + zoo.CURVES + tuple(x for x in zoo.PAIRED if x[0] != "a")
    for kd in kinds: out.append(("each", dict(kind=kd, i=0)))
    for kd in kinds:
        for i in range(2 * k): out.append(("mixed", dict(kind=kd, i=i, n=120)))
    for f in "A1DEFGI":
        for i in range(2 * k): out.append(("pairing", dict(fam=f, i=i, n=25 if f in "FG" else 50)))
        for i in range(k): out.append(("params", dict(fam=f, i=i, n=30)))
        for i in range(k): out.append(("methods", dict(fam=f, i=i)))
    for i in range(8 * k): out.append(("tree", dict(i=i, n=60)))
    for i in range(4 * k): out.append(("misc", dict(i=i)))
    for i in range(2 * k): out.append(("helpers", dict(i=i, n=300)))
    return out


def balance(L): return L.alloc_live(0), L.alloc_live(1)


def warm(L):
    """monitor-side allocations that persist are made before a balance is taken"""
    f = pbc.fp(L, 10007)
    e = f.new(5)
    f.get(e)
    L.pow_mpz(e, e, L.Z(12345))
    L.random(e)
    f.close()


def settle(mon, L, base, what, *sig):
    now = balance(L)
    ok = mon.check(now == base, "memory left after everything was released: " + what, lambda: "blocks now %r, before %r" % (now, base), *sig)
    b = C.create_string_buffer(256)
    n = L.direct(b)
    mon.check(n == 0, "allocation behind the installed allocator's back", lambda: "%d direct calls, first %s, during %s" % (n, b.value, what))
    return ok


# -------------------------------------------------------------- operations
class Pool:
    def __init__(self, L, rng, S, n=4):
        self.L, self.rng, self.S = L, rng, S
        self.zn = pbc.fp(L, 2 ** 61 - 1)
        self.els = [L.el_new(S.H.h) for _ in range(n)]
        for e in self.els: S.load(e)

    def pick(self): return self.rng.choice(self.els)

    def close(self):
        for e in self.els: self.L.el_free(e)
        self.zn.close()
        self.S.close()


def isfield(S): return S.name not in ("z", "multiz", "poly", "polytower", "composite") and not S.pts


def ops(S):
    """name -> action on a pool; only operations the structure offers"""
    L, rng = S.L, S.rng
    char3k = S.name[:2] in ("gf", "I.")
    o = {}
    def op(name, f): o[name] = f
    def three(name): op(name, lambda P: getattr(L, name)(P.pick(), P.pick(), P.pick()))
    def two(name): op(name, lambda P: getattr(L, name)(P.pick(), P.pick()))
    for n in ("add", "sub"): three(n)
    for n in ("set", "neg", "double"):
        if n == "double" and S.name == "multiz": continue
        two(n)
    op("load", lambda P: S.load(P.pick()))
    op("set0", lambda P: L.set0(P.pick()))
    op("cmp", lambda P: (L.cmp(P.pick(), P.pick()), L.is0(P.pick()), L.is1(P.pick())))
    if not S.group or S.mult:
        op("mul", lambda P: L.mul(P.pick(), P.pick(), P.pick()) if S.name not in ("z", "poly", "polytower", "multiz") else small(P, lambda: L.mul(P.pick(), P.pick(), P.pick())))
        if S.name not in ("z", "poly", "polytower", "multiz"): two("square")
    if S.pts: three("mul")
    def iszero(e):
        """also the zero of the surrounding field, which a hostile decode can put into GT"""
        return L.is0(e) if not S.mult or not S.bytes else not any(L.bytes_of(e)[0])
    def nz(P):
        e = P.pick()
        for _ in range(5):
            if not iszero(e): break
            S.load(e)
        if iszero(e): L.set1(e)
        return e
    def small(P, f):
        """keep sizes from exploding"""
        f()
        for e in P.els:
            if L.len(e) > 4000 if S.name not in ("multiz",) else rng.random() < .3: S.load(e)
    if isfield(S) and S.name != "tiny":
        op("invert", lambda P: L.invert(P.pick(), nz(P)))
        op("div", lambda P: L.div(P.pick(), P.pick(), nz(P)))
    if S.pts: two("invert")
    if not char3k and S.name not in ("z", "multiz"):
        op("mul_mpz", lambda P: L.mul_mpz(P.pick(), P.pick(), L.Z(rng.getrandbits(rng.choice((1, 8, 70))))))
        op("mul_si", lambda P: L.mul_si(P.pick(), P.pick(), rng.randrange(-9, 9)))
        op("mul_zn", lambda P: L.mul_zn(P.pick(), P.pick(), P.zn.new(rng.getrandbits(20))))
    if isfield(S) or S.pts:
        op("pow_mpz", lambda P: L.pow_mpz(P.pick(), P.pick(), L.Z(rng.getrandbits(rng.choice((0, 1, 8, 70, 150))))))
        op("pow_zn", lambda P: L.pow_zn(P.pick(), P.pick(), P.zn.new(rng.getrandbits(60))))
        op("pow2", lambda P: L.pow2_mpz(P.pick(), P.pick(), L.Z(rng.getrandbits(50)), P.pick(), L.Z(rng.getrandbits(40))))
        op("pow3", lambda P: L.pow3_mpz(P.pick(), P.pick(), L.Z(rng.getrandbits(50)), P.pick(), L.Z(rng.getrandbits(30)), P.pick(), L.Z(rng.getrandbits(40))))
        if S.name != "tiny":
            def signed(P):
                """exponents of either sign, and zero, by every route"""
                x, y, w = (nz(P) if not S.pts else P.pick() for _ in range(3))
                z = [L.Z(rng.choice((-1, -1, -1, 0, 1)) * rng.getrandbits(rng.choice((1, 9, 50)))) for _ in range(3)]
                d = L.el_new(S.H.h)
                L.pow_mpz(d, x, z[0])
                L.pow2_mpz(d, x, z[0], y, z[1])
                L.pow3_mpz(d, x, z[0], y, z[1], w, z[2])
                if not (S.pts and S.P is None) or S.order:
                    p = L.pp_new(x)
                    L.pp_pow(d, z[2], p)
                    L.pp_free(p)
                L.el_free(d)
            op("signed", signed)
        def pp(P):
            p = L.pp_new(P.pick())
            for _ in range(rng.randrange(0, 3)):
                L.pp_pow(P.pick(), L.Z(rng.getrandbits(rng.choice((0, 1, 30, 60)))), p)
            L.pp_pow_zn(P.pick(), P.zn.new(rng.getrandbits(30)), p)
            L.pp_free(p)
        if not (S.pts and S.P is None) or S.order: op("pp", pp)
    if S.name not in ("poly", "polytower", "z", "multiz"): op("random", lambda P: L.random(P.pick()))
    if isfield(S) and not S.mult and not char3k and S.name not in ("composite",):
        op("from_hash", lambda P: L.from_hash(P.pick(), b"x" * 20, rng.randrange(1, 20)))
        op("set_si", lambda P: L.set_si(P.pick(), rng.randrange(-1000, 1000)))
        if S.m.char % 2 and S.m.char > 3:
            def sq(P):
                e = nz(P)
                L.square(e, e)
                L.is_sqr(e)
                L.sqrt(P.pick(), e)
            op("sqrt", sq)
            op("is_sqr", lambda P: L.is_sqr(P.pick()))
    if S.pts and not char3k and (S.name == "curvebig" or (S.P and S.P.q > 2 ** 60)):
        op("from_hash", lambda P: L.from_hash(P.pick(), bytes(rng.getrandbits(8) for _ in range(20)), rng.randrange(1, 20)))
    def text(P):
        for base in (10, 16, 0):
            L.capture(lambda f: L.out_str(f, base, P.pick()))
        b = C.create_string_buffer(50)
        for n in (0, 1, 7, 50): L.snprint(b if n else None, n, P.pick())
    op("print", text)
    def settext(P):
        e = P.pick()
        s = L.capture(lambda f: L.out_str(f, 10, e))[1]
        d = P.pick()
        L.set_str(d, s, 10)
        L.set_str(P.pick(), bytes(rng.choice(b"[],0123456789 Oxa-") for _ in range(rng.randrange(0, 12))), 10)
        L.set_str(P.pick(), s[:rng.randrange(0, len(s) + 1)], 10)
    if not char3k and S.name not in ("multiz",): op("set_str", settext)
    if S.bytes:
        def raw(P):
            e = P.pick()
            b, n, k, g = L.bytes_of(e)
            L.from_bytes(P.pick(), b)
            if S.fixed:
                L.from_bytes(P.pick(), bytes(rng.getrandbits(8) for _ in range(len(b))))
                L.from_bytes(P.pick(), b"\xff" * len(b))
        op("bytes", raw)
        if S.pts:
            def comp(P):
                e = P.pick()
                if L.is0(e): return
                n = L.len_c(e)
                b = C.create_string_buffer(n)
                L.to_bytes_c(b, e)
                L.from_bytes_c(P.pick(), b)
                L.from_bytes_c(P.pick(), bytes(rng.getrandbits(8) for _ in range(n)))
                n = L.len_x(e)
                b = C.create_string_buffer(n)
                L.to_bytes_x(b, e)
                L.from_bytes_x(P.pick(), b)
                L.from_bytes_x(P.pick(), bytes(rng.getrandbits(8) for _ in range(n)))
            op("compressed", comp)
            def multi(P):
                n = rng.randrange(1, 4)
                a = (C.c_void_p * n)(*P.els[:n])
                L.multi_double(a, a, n)
                if rng.random() < .5: L.multi_add(a, a, a, n)
            op("multi", multi)
    if S.mult and S.bytes:                   # a decoded zero is outside the group: it is replaced at once
        for nm in ("bytes", "set_str"):
            def again(P, f=o[nm]):
                f(P)
                for e in P.els:
                    if iszero(e): S.load(e)
            o[nm] = again
    def renew(P):
        i = rng.randrange(len(P.els))
        L.el_free(P.els[i])
        P.els[i] = L.el_new_same(P.els[i - 1]) if rng.random() < .5 else L.el_new(S.H.h)
        S.load(P.els[i])
    op("renew", renew)
    op("info", lambda P: L.capture(lambda f: L.field_out_info(f, S.H.h)))
    if isfield(S) and not S.mult and S.m.char % 2 and not char3k and S.name not in ("composite",):
        op("nqr", lambda P: L.field_nqr(S.H.h))
        def setnqr(P):
            for _ in range(30):
                S.load(P.els[0])
                if not L.is0(P.els[0]) and not L.is_sqr(P.els[0]): break
            else: return
            L.field_set_nqr(S.H.h, P.els[0])
        if S.name != "tiny" and S.P is None: op("set_nqr", setnqr)
    if S.name in ("poly", "polytower"):
        def poly(P):
            e, x = P.pick(), L.el_new(S.extra[0].h)
            n = rng.randrange(0, 9)
            L.poly_set_coeff1(e, n)
            L.poly_set_coeff0(e, rng.randrange(0, 9))
            L.random(x)
            L.poly_set_coeff(e, x, rng.randrange(0, 9))
            L.poly_const_mul(P.pick(), x, P.pick())
            L.poly_setx(P.pick())
            L.poly_random_monic(e, rng.randrange(1, 5))
            L.poly_is_irred(e)
            if S.H.base.m.char > 2: L.poly_findroot(x, e)
            L.el_free(x)
        op("poly", poly)
    return o


def u_each(mon, L, rng, kind, i):
    warm(L)
    S = zoo.build(L, rng, kind)
    names = sorted(ops(S))
    S.close()
    for nm in ["(nothing)"] + names:
        base = balance(L)
        mon.case("kind", kind, "operation", nm)
        S = zoo.build(L, rng, kind)
        P = Pool(L, rng, S)
        o = ops(S)
        if nm in o:
            for _ in range(3): o[nm](P)
        P.close()
        settle(mon, L, base, "%s, %s" % (kind, nm), kind, nm)


def u_mixed(mon, L, rng, kind, i, n):
    warm(L)
    base = balance(L)
    S = zoo.build(L, rng, kind)
    if S.name.startswith(("F.", "G.")): n //= 3
    P = Pool(L, rng, S, 5)
    o = ops(S)
    names = sorted(o)
    hist = []
    for _ in range(n):
        nm = rng.choice(names)
        hist.append(nm)
        mon.case("kind", kind, "history", hist[-40:])
        o[nm](P)
        mon.stat("operations")
    rng.shuffle(P.els)
    P.close()
    settle(mon, L, base, kind + " history", kind)


def u_pairing(mon, L, rng, fam, i, n):
    """several pairings alive, tables, options, failed initializations, any legal release order"""
    warm(L)
    base = balance(L)
    alive, hist = [], []
    def new():
        t = families.small_text(rng, fam)
        if rng.random() < .4:
            par = L.param_new(t.encode(), C.c_size_t(-1).value)
            h = L.param_pairing(par)
            if rng.random() < .5: L.capture(lambda f: L.param_out(f, par))
            L.param_free(par)            # the pairing must not depend on it
        else:
            h = L.pairing_new(t.encode(), C.c_size_t(-1).value)
        if not h: raise ValueError("valid parameters rejected: " + t)
        els = {g: [getattr(L, "init_" + g)(h) for _ in range(3)] for g in ("G1", "G2", "GT", "Zr")}
        for g in els:
            for e in els[g]: L.random(e)
        alive.append(dict(h=h, els=els, pp=[], epp=[], t=t))
    def drop(p):
        rel = [(L.ppp_free, x) for x in p["pp"]] + [(L.pp_free, x) for x in p["epp"]] + [(L.el_free, e) for g in p["els"].values() for e in g]
        rng.shuffle(rel)
        for f, x in rel: f(x)
        L.pairing_free(p["h"])
        alive.remove(p)
    new()
    for _ in range(n):
        c = rng.choice(("new", "drop", "apply", "apply", "pp", "pp", "ppapply", "ppfree", "prod", "bad", "option", "coddh", "epp", "reinit"))
        hist.append(c)
        mon.case(fam, "history", hist[-60:])
        if c == "new" and len(alive) < 4 or not alive: new()
        p = rng.choice(alive)
        E, h = p["els"], p["h"]
        x, y, z = (rng.choice(E[g]) for g in ("G1", "G2", "GT"))
        if c == "drop": drop(p)
        elif c == "apply": L.pairing_apply(z, x, y, h)
        elif c == "pp":
            if rng.random() < .2: L.set0(x)
            p["pp"].append(L.ppp_new(x, h))
            if rng.random() < .3: L.random(x)     # the table must not depend on its argument
        elif c == "ppapply" and p["pp"]: L.ppp_apply(z, y, rng.choice(p["pp"]))
        elif c == "ppfree" and p["pp"]: L.ppp_free(p["pp"].pop(rng.randrange(len(p["pp"]))))
        elif c == "prod" and fam != "I":
            k = rng.randrange(1, 4)
            L.prod_pairing(z, (C.c_void_p * k)(*E["G1"][:k]), (C.c_void_p * k)(*E["G2"][:k]), k)
        elif c == "coddh": L.coddh(E["G1"][0], E["G1"][1], E["G2"][0], E["G2"][1], h)
        elif c == "epp":
            if p["epp"] and rng.random() < .5: L.pp_free(p["epp"].pop())
            else:
                e = rng.choice(E[rng.choice(("G1", "G2", "GT", "Zr"))])
                p["epp"].append(L.pp_new(e))
        elif c == "bad":
            t = p["t"].encode()
            lines = t.split(b"\n")
            lines.pop(rng.randrange(len(lines) - 1))
            b = b"\n".join(lines)
            h2 = L.pairing_new(b, len(b))
            if h2: L.pairing_free(h2)
            L.param_new(b"type " + rng.choice((b"q", b"aa", b"")), C.c_size_t(-1).value)
        elif c == "option" and not p["pp"] and fam in "A1D":
            L.option(h, b"method", rng.choice((b"miller", b"miller-affine", b"shipsey-stange")))
        elif c == "reinit":
            g = rng.choice(("G1", "G2", "GT", "Zr"))
            j = rng.randrange(3)
            L.el_free(E[g][j])
            E[g][j] = getattr(L, "init_" + g)(h) if rng.random() < .5 else L.el_new_same(E[g][j - 1])
            if rng.random() < .7: L.random(E[g][j])
        mon.stat("operations")
    for p in rng.sample(alive, len(alive)): drop(p)
    settle(mon, L, base, "pairings of type " + fam, fam)


def u_methods(mon, L, rng, fam, i):
    """every evaluation method of a pairing, each operation done again with the same operands: the second time nothing may stay behind"""
    warm(L)
    base = balance(L)
    t = families.small_text(rng, fam)
    methods = {"F": (None,), "I": (None,)}.get(fam, (b"miller", b"miller-affine", b"shipsey-stange"))
    for m in methods:
        h = L.pairing_new(t.encode(), C.c_size_t(-1).value)
        if not h: raise ValueError("valid parameters rejected: " + t)
        if m: L.option(h, b"method", m)
        els = {g: [getattr(L, "init_" + g)(h) for _ in range(3)] for g in ("G1", "G2", "GT")}
        for g in els:
            for e in els[g]: L.random(e)
        zero = {g: getattr(L, "init_" + g)(h) for g in ("G1", "G2")}
        for e in zero.values(): L.set0(e)
        x, y, z = els["G1"], els["G2"], els["GT"]
        def prod(a, b):
            L.prod_pairing(z[2], (C.c_void_p * len(a))(*a), (C.c_void_p * len(b))(*b), len(a))
        def table(a, *bs):
            p = L.ppp_new(a, h)
            for b in bs: L.ppp_apply(z[1], b, p)
            L.ppp_free(p)
        acts = dict(apply=lambda: L.pairing_apply(z[0], x[0], y[0], h), apply_zero1=lambda: L.pairing_apply(z[0], zero["G1"], y[0], h),
                    apply_zero2=lambda: L.pairing_apply(z[0], x[0], zero["G2"], h), coddh=lambda: L.coddh(x[0], x[1], y[0], y[1], h),
                    coddh_same=lambda: L.coddh(x[0], x[0], y[0], y[0], h), table=lambda: table(x[0], y[0], y[1], zero["G2"]), table_zero=lambda: table(zero["G1"], y[0]),
                    table_unused=lambda: table(x[1]))
        if fam != "I":
            for n in range(1, 4): acts["prod%d" % n] = lambda n=n: prod(x[:n], y[:n])
            acts["prod_zero"] = lambda: prod([x[0], zero["G1"]], [y[0], y[1]])
        for nm in rng.sample(sorted(acts), len(acts)):
            mon.case(fam, m and m.decode(), nm, t)
            acts[nm]()
            b1 = balance(L)
            acts[nm]()
            b2 = balance(L)
            mon.check(b1 == b2, "memory left by repeating an operation with the same operands: " + nm, lambda: "blocks %r then %r" % (b1, b2), fam, m, nm)
            mon.stat("repeated operations")
        for es in list(els.values()) + [list(zero.values())]:
            for e in es: L.el_free(e)
        L.pairing_free(h)
        settle(mon, L, base, "pairing of type %s, method %s" % (fam, m and m.decode()), fam, m)


def u_params(mon, L, rng, fam, i, n):
    warm(L)
    for _ in range(n):
        base = balance(L)
        t = families.small_text(rng, fam).encode()
        mon.case("parameters", repr(t))
        live = []
        for _ in range(rng.randrange(1, 4)):
            b = t if rng.random() < .5 else t[:rng.randrange(len(t))]
            p = L.param_new(b, len(b)) if b else None
            if p:
                live.append(p)
                L.capture(lambda f: L.param_out(f, p))
        rng.shuffle(live)
        for p in live: L.param_free(p)
        settle(mon, L, base, "parameters of type " + fam, fam)


def u_tree(mon, L, rng, i, n):
    """trees of fields, elements at every level, released leaf by leaf in random order"""
    warm(L)
    base = balance(L)
    nodes = {}        # id -> dict(h, parent, els, depth, model-less)
    nid = [0]
    hist = []
    def add(h, parent, kind, p, rings=()):
        nid[0] += 1
        nodes[nid[0]] = dict(h=h, parent=parent, kind=kind, p=p, els=[], rings=list(rings))
    def kids(k): return [j for j in nodes if nodes[j]["parent"] == k]
    def base_field():
        p = M.rand_prime(rng, rng.choice((5, 16, 33, 64, 80, 128, 160)), 4, 3)
        add(getattr(L, "field_" + rng.choice(("fp", "naive") if p < 2 ** 64 else ("fp", "naive", "fast", "faster", "mont")))(L.Z(p)), 0, "fp", p)
    base_field()
    for _ in range(n):
        c = rng.choice(("base", "quad", "polymod", "poly", "curve", "twist", "el", "el", "el", "use", "use", "use", "freeel", "free", "free", "fi"))
        hist.append(c)
        mon.case("tree", hist)
        if not nodes: base_field()
        k = rng.choice(list(nodes))
        N = nodes[k]
        if c == "base" and len(nodes) < 12: base_field()
        elif c == "quad" and N["kind"] == "fp": add(L.field_quadratic(N["h"]), k, "quad", N["p"])
        elif c == "fi" and N["kind"] == "fp": add(L.field_fi(N["h"]), k, "quad", N["p"])
        elif c == "poly" and N["kind"] in ("fp", "quad"): add(L.field_poly(N["h"]), k, "poly", N["p"])
        elif c == "polymod" and N["kind"] == "poly" and nodes[N["parent"]]["kind"] == "fp":
            f = L.el_new(N["h"])
            while True:
                L.poly_random_monic(f, rng.randrange(2, 5))
                if L.poly_is_irred(f): break
            add(L.field_polymod(f), k, "polymod", N["p"])
            L.el_free(f)
        elif c in ("curve", "twist") and N["kind"] in ("fp", "quad", "polymod"):
            a, b = L.el_new(N["h"]), L.el_new(N["h"])
            L.random(a), L.random(b)
            add(L.field_curve_ab(a, b, L.Z(rng.getrandbits(40) | 1), L.Z(rng.getrandbits(5)) if rng.random() < .5 else None), k, "curve", N["p"])
            L.el_free(a), L.el_free(b)
            if c == "twist": L.field_twist(nodes[nid[0]]["h"])
            if rng.random() < .2: L.curve_quotient(nodes[nid[0]]["h"], L.Z(7))
        elif c == "el": 
            e = L.el_new(N["h"])
            N["els"].append(e)
            if N["kind"] == "poly": L.poly_random_monic(e, rng.randrange(0, 5))
            else: L.random(e)
        elif c == "use" and len(N["els"]) >= 2:
            a, b = rng.sample(N["els"], 2)
            getattr(L, rng.choice(("add", "sub")))(a, a, b)
            if N["kind"] != "curve":
                if N["kind"] != "poly" or L.poly_degree(a) + L.poly_degree(b) < 30: L.mul(b, a, b)
            else: L.double(a, b)
            if N["kind"] not in ("poly", "curve") and not L.is0(a): L.invert(a, a)
        elif c == "freeel" and N["els"]: L.el_free(N["els"].pop(rng.randrange(len(N["els"]))))
        elif c == "free" and not kids(k):
            for e in N["els"]: L.el_free(e)
            L.field_free(N["h"])
            del nodes[k]
    while nodes:
        k = rng.choice([j for j in nodes if not kids(j)])
        for e in rng.sample(nodes[k]["els"], len(nodes[k]["els"])): L.el_free(e)
        L.field_free(nodes[k]["h"])
        del nodes[k]
    settle(mon, L, base, "tree of fields", len(hist))


def u_misc(mon, L, rng, i):
    warm(L)
    CB = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p, C.c_void_p, C.c_int, C.c_int, C.c_void_p)
    def hilbert():
        b = C.create_string_buffer(1 << 16)
        L.hilbert(rng.choice((3, 4, 7, 15, 23, 71, 95, 119, 200, 255)), b, 1 << 16)
    def search(fam):
        for _ in range(12):
            stop = rng.random() < .3
            f = CB(lambda *a: 1 if stop else 0)
            D = rng.choice((283, 443, 947, 12, 27, 3, 11, 43, 67, 1603, 43 + 120 * rng.randrange(20), 67 + 120 * rng.randrange(20), rng.randrange(3, 3000)))
            (L.cm_search_d if fam == "d" else L.cm_search_g)(C.cast(f, C.c_void_p), D, rng.choice((20, 100, 300, 500)))
    def gen(p):
        L.capture(lambda f: L.param_out(f, p))
        L.param_free(p)
    def cmgen():
        def cb(q, n, h, r, D, k, cm):
            gen(L.param_d(cm))
            return 1
        f = CB(cb)
        L.cm_search_d(C.cast(f, C.c_void_p), rng.choice((283, 443)), 300)
    def gengen():
        def cb(q, n, h, r, D, k, cm):
            gen(L.param_g(cm))
            return 1
        f = CB(cb)
        L.cm_search_g(C.cast(f, C.c_void_p), 1603, 300)
    def singular():
        h = L.pairing_singular(L.Z(M.rand_prime(rng, rng.choice((20, 70)), 4, 3)))
        x, y, z = L.init_G1(h), L.init_G2(h), L.init_GT(h)
        L.random(x), L.random(y)
        L.pairing_apply(z, x, y, h)
        for e in (x, y, z): L.el_free(e)
        L.pairing_free(h)
    def singularfield():
        B = pbc.fp(L, M.rand_prime(rng, rng.choice((20, 70))))
        f = L.field_curve_singular(B.h)
        x, y = L.el_new(f), L.el_new(f)
        L.random(x), L.random(y)
        L.add(x, x, y)
        L.el_free(x), L.el_free(y)
        L.field_free(f)
        B.close()
    def dlog(fn):
        f = pbc.fp(L, rng.choice((1009, 10007)))
        zn = pbc.fp(L, f.m.p - 1, "naive")
        g, h, x = f.new(11), f.new(), zn.new()
        L.pow_mpz(h, g, L.Z(rng.randrange(1, f.m.p - 1)))
        (L.dlog_rho if fn else L.dlog_brute)(x, g, h)
        zn.close()
        f.close()
    def trial():
        TD = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_uint)
        f = TD(lambda p, m: 0)
        L.trial_divide(C.cast(f, C.c_void_p), L.Z(rng.getrandbits(40) + 2), L.Z(2000) if rng.random() < .5 else None)
    def files():
        L.random_file(b"/dev/urandom")
        f = pbc.fp(L, 2 ** 61 - 1)
        e = f.new()
        L.random(e)
        L.random_file(b"/nonexistent/file")
        L.random(e)
        L.random_det(5)
        L.random(e)
        f.close()
        L.random_monitored(rng.getrandbits(30), 0)
    def multiz():
        f = L.field_multiz()
        vs = [[1, [2, 3], -4], [[5, 0, 1], 2 ** 80]] + [mz.sample(rng) for _ in range(3)]
        es = [mz.build(L, f, v) for v in vs]
        d = L.el_new(f)
        for a in es:
            for b in es:
                for g in (L.mul, L.add, L.sub): g(d, a, b)
                L.cmp(a, b)
            L.neg(d, a), L.set(d, a), L.mul_si(d, a, -7), L.mul_mpz(d, d, L.Z(2 ** 70)), L.is0(d), L.is1(d), L.sgn(d)
            L.capture(lambda s: L.out_str(s, 10, d))
            L.add(d, d, d), L.mul(d, d, d), L.sub(d, d, d)
        L.from_hash(d, b"some bytes", 10)
        L.set_str(d, b"[1,[2", 10), L.set_str(d, b"77", 10), L.set_si(d, 5), L.set0(d), L.set1(d)
        for e in es + [d]: L.el_free(e)
        L.field_free(f)
    def tweak():
        L.tweak(rng.choice((b"naive", b"fast", b"faster", b"mont")))
        f = pbc.fp(L, M.rand_prime(rng, 100))
        e = f.new(5)
        L.invert(e, e)
        f.close()
        L.tweak(b"mont")
    cases = dict(hilbert=hilbert, search_d=lambda: search("d"), search_g=lambda: search("g"), gen_a=lambda: gen(L.param_a(20, 60)), gen_a1=lambda: gen(L.param_a1(L.Z(1000003 * 10007))),
                 gen_e=lambda: gen(L.param_e(12, 64)), gen_f=lambda: gen(L.param_f(40)), gen_i=lambda: gen(L.param_i(150)), gen_d=cmgen, gen_g=gengen, singular=singular, singularfield=singularfield, dlog=lambda: dlog(0), rho=lambda: dlog(1),
                 trial=trial, files=files, multiz=multiz, tweak=tweak)
    files()          # the deterministic generator is created once
    for nm in rng.sample(sorted(cases), len(cases)):
        base = balance(L)
        mon.case("misc", nm)
        cases[nm]()
        settle(mon, L, base, nm, nm)


def u_helpers(mon, L, rng, i, n):
    """the allocation helpers themselves"""
    base = balance(L)
    live = []
    for _ in range(n):
        c = rng.randrange(5)
        mon.case("helpers", c)
        if c == 0:
            k = rng.randrange(1, 200)
            p = L.pbc_malloc(k)
            C.memset(p, 0x31, k)
            live.append([p, b"\x31" * k])
        elif c == 1:
            a, b = rng.randrange(1, 20), rng.randrange(1, 20)
            p = L.pbc_calloc(a, b)
            mon.eq(C.string_at(p, a * b), bytes(a * b), "zeroed allocation", a * b)
            live.append([p, bytes(a * b)])
        elif c == 2:
            s = bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 40)))
            p = L.pbc_strdup(s)
            mon.eq(C.string_at(p, len(s) + 1), s + b"\0", "copied string", len(s))
            live.append([p, s + b"\0"])
        elif c == 3 and live:
            x = rng.choice(live)
            k = rng.randrange(1, 300)
            x[0] = L.pbc_realloc(x[0], k)
            keep = min(k, len(x[1]))
            mon.eq(C.string_at(x[0], keep), x[1][:keep], "contents after resizing", keep)
            x[1] = x[1][:keep]
        elif live:
            x = live.pop(rng.randrange(len(live)))
            L.pbc_free(x[0])
    for x in live: L.pbc_free(x[0])
    settle(mon, L, base, "allocation helpers")


# -------------------------------------------------------------- whole programs
def run(mon, exe, args, vg, what):
    leaks = os.path.basename(exe)[4:] not in LEAKY
    env = {"ASAN_OPTIONS": "detect_leaks=%d:exitcode=99:detect_stack_use_after_return=1" % leaks, "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1", "PATH": "/usr/bin:/bin", "LC_ALL": "C"}
    cmd = [exe] + args
    if vg: cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect,possible", "--child-silent-after-fork=yes"] + cmd
    p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=600)
    err = p.stderr.decode("latin1")
    bad = p.returncode in (99, -11, -6, -8) or "Sanitizer: " in err.replace("Sanitizer: WARNING", "") or "runtime error" in err
    m = re.search(r"(?:ERROR: (?:Address|Leak)Sanitizer: ([\w-]+)|runtime error: ([^\n]*)|==\d+== ([A-Z][^\n]*))", err)
    fr = [f for f in re.findall(r"(?:in|by|at) 0?x?[0-9A-F]*:? ?(\w+) \(?([^\s)]*)", err) if f[0] not in ("malloc", "realloc")]
    mon.check(not bad, "%s: %s" % (what, (m and (m.group(1) or m.group(2) or m.group(3))) or "abnormal end"), lambda: " ".join(cmd) + "\n" + err[:4000], vg)
    return p


def u_program(mon, L, rng, prog, params, vg):
    exe = os.path.join(mon.ctx["scratch"], "san_" + prog)
    if not os.path.exists(exe):
        mon.ok("absent")
        return
    for pm in params:
        if prog in ("joux", "hess", "yuanli", "zhangkim", "paterson") and pm not in ("a", "a1", "e"): pass
        a = [os.path.join(build.REPO, "param", pm + ".param")] if pm else []
        mon.case("program", prog, pm, "sanitizers")
        run(mon, exe, a, False, "program " + prog)
    if vg:
        mon.case("program", prog, params[0], "valgrind")
        run(mon, os.path.join(mon.ctx["scratch"], "raw_" + prog), [os.path.join(build.REPO, "param", params[0] + ".param")] if params[0] else [], True, "program " + prog)


def u_lifecycle(mon, L, rng, fam, i):
    """a compiled history over every operation of one pairing, default allocators, under both observers"""
    t = families.small_text(rng, fam)
    f = os.path.join(mon.ctx["scratch"], "life.%s.%d.%d" % (fam, i, os.getpid()))
    open(f, "w").write(t)
    for vg in (False, True):
        mon.case("lifecycle", fam, t, "valgrind" if vg else "sanitizers")
        p = run(mon, os.path.join(mon.ctx["scratch"], ("raw_" if vg else "san_") + "lifecycle"), [f, fam, str(rng.getrandbits(30)), "60" if vg else "300"], vg, "lifecycle " + fam)
        mon.check(p.returncode in (0, 99) and (p.returncode == 99 or b"done" in p.stdout), "lifecycle program did not finish", p.stderr.decode("latin1")[-800:])
    os.unlink(f)
