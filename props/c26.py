"""The checking configuration (PBC_DEBUG): misuse stops, legal use is unchanged; the message functions."""
import importlib, os, random, re, subprocess
import build, families

LIB_DEFS = ("-DPBC_DEBUG",)
TECHNIQUE = ("runtime monitoring: the library and its headers built with the run-time checks on and with sanitizers; each misuse runs in a process of its own whose end is observed, "
             "legal calls are compared with the ordinary build, and the histories of the other properties run again with their reference models")
RULE = ("an evaluation is one observed end of a process that made one call (stopped with a message, or finished with the ordinary build's output), or one oracle decision of a history of another property "
        "run in this configuration; distinct counts (operation, argument position, structures) and the histories' own signatures")
ASSUMPTIONS = ["checked calls: set, add, sub, mul, div, cubic, double, halve, square, neg, invert, sqrt, cmp, mul_mpz, mul_si, mul_zn, pow_mpz, pow_zn, the batch calls and the pairing calls",
               "a program built with PBC_DEBUG against an ordinary library has the checks of the calls in the headers, not of the batch calls",
               "the wording of messages is free; messages are judged up to 1000 bytes"]
WARN = re.compile(r"^\*\*\*[^~]*~")


def prepare(d):
    base = ["-O1", "-g"] + build.SAN
    for tag, fl in (("dbg", base + ["-DPBC_DEBUG"]), ("plain", base), ("user", base + ["-DPBC_DEBUG"])):
        o = build.objs(d, "z" + ("plain" if tag == "user" else tag), "gcc", base if tag == "user" else fl)
        build.sh(["gcc", "-w", "-I" + build.REPO + "/include", "-I" + build.REPO] + fl + ["-o", os.path.join(d, "misuse_" + tag), os.path.join(build.HERE, "misuse.c")] + o + ["-lgmp", "-lm"])
    return {}


REUSE = (("c04", 14), ("c05", 10), ("c06", 10), ("c07", 8), ("c08", 10), ("c09", 14), ("c10", 12), ("c11", 10), ("c12", 12), ("c14", 14), ("c15", 10),
         ("c16", 10), ("c17", 10), ("c22", 8), ("c25", 8), ("c01", 8), ("c02", 10))


def units(tier, rng):
    k = 1 if tier == "quick" else 8
    out = []
    for f in "A1DEFGI":
        for i in range(k):
            out.append(("mixed", dict(fam=f, i=i, tag="dbg")))
            out.append(("legal", dict(fam=f, i=i, tag="dbg")))
            if f == "A" or tier != "quick":
                out.append(("mixed", dict(fam=f, i=i + 1, tag="user")))
                out.append(("legal", dict(fam=f, i=i + 1, tag="user")))
    out.append(("messages", {}))
    for m, n in REUSE:
        us = [u for u in importlib.import_module(m).units("quick", random.Random(rng.random())) if '"e"' not in repr(u) and "shipped" not in u[0] and "=" not in repr(u[1]) and not (m == "c14" and ("G2" in repr(u[1]) or "decoded" in u[0]))]
        rng.shuffle(us)
        for u in us[:n * k]: out.append(("reuse", dict(mod=m, name=u[0], args=u[1])))
    return out


def u_reuse(mon, L, rng, mod, name, args):
    getattr(importlib.import_module(mod), "u_" + name)(mon, L, rng, **args)
    mon.stat("histories of " + mod.upper())


def go(mon, rng, tag, fam, i, what, seed=None):
    d = mon.ctx["scratch"]
    f = os.path.join(d, "mis.%d.param" % os.getpid())
    t = families.small_text(random.Random("%s%d%d" % (fam, i, mon.seed)), fam)
    open(f, "wb").write(t.encode() if isinstance(t, str) else t)
    env = dict(build.ENV, ASAN_OPTIONS="detect_leaks=0:exitcode=99:handle_abort=0", UBSAN_OPTIONS="exitcode=99")
    r = subprocess.run([os.path.join(d, "misuse_" + tag), f, str(seed or 7), what], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=250)
    if r.returncode: mon.fail("the misuse program ended with status %d" % r.returncode, r.stderr.decode("latin1")[:1500])
    out = {}
    for l in r.stdout.decode("latin1").splitlines():
        p = l.split("|", 4)
        out[p[0]] = (int(p[1]), int(p[2]), p[3], p[4])
    return out


def u_mixed(mon, L, rng, fam, i, tag):
    for k, (st, sig, err, o) in go(mon, rng, tag, fam, i, "mixed").items():
        mon.case(fam, k, tag)
        w = k.split()
        if tag == "user" and w[0].startswith("multi_"): continue     # checked inside the library, built without
        mon.check(st != 0, "%s with structures mixed in position %s returned" % (w[0], w[2][3:]), k, *w)
        mon.check(st != 99 and sig in (0, 6) and "Sanitizer" not in err, "%s with structures mixed: memory error" % w[0], err[:500])
        e = WARN.sub("", err)
        if w[-1] == "quiet": mon.eq(err, "", "a message in spite of the switch")
        else: mon.check(e.strip("~ ") != "", "%s with structures mixed stops without a message" % w[0], k, *w)
        mon.stat("misuses observed")


def u_legal(mon, L, rng, fam, i, tag):
    s = rng.randrange(1, 1 << 30)
    a, b = (go(mon, rng, t, fam, i, "legal", s) for t in (tag, "plain"))
    mon.eq(sorted(a), sorted(b), "the two builds ran different calls")
    for k in a:
        mon.case(fam, k, s)
        mon.eq(b[k][:2], (0, 0), "ordinary build: " + k.split()[0], k)
        mon.eq(a[k][:2], (0, 0), "checking build stops a legal call of " + k.split()[0], k)
        mon.eq(a[k][3], b[k][3], "checking build changes the result of " + k.split()[0], k)
        mon.eq(WARN.sub("", a[k][2]), "", "checking build reports on a legal call of " + k.split()[0])


def u_messages(mon, L, rng):
    TXT = ("stop 42", "note 42", "note 42", "note 42", "x" * 1000, "x" * 1000)
    for tag in ("dbg", "plain", "user"):
        for k, (st, sig, err, o) in go(mon, rng, tag, "A", 0, "messages").items():
            w = int(k.split()[1])
            mon.case(tag, k)
            die = w & 7 in (0, 5)
            mon.eq((st, sig), (128 if die else 0, 0), "message function %d: end of the process" % (w & 7), tag, w)
            if w & 8: mon.eq(err, "", "message function %d: a message in spite of the switch" % (w & 7), tag, w)
            else:
                mon.check(TXT[w & 7] in err and err.endswith("~") and err.count("~") == 1, "message function %d: text" % (w & 7), err[:300], tag, w)
            mon.eq(o, "", "message function %d: output" % (w & 7))
