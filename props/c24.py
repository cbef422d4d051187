"""The C++ wrapper: random object histories, each object shadowed by plain C calls."""
import os, re, subprocess
import build, families

NEEDS_LIB = False
TECHNIQUE = ("runtime monitoring: random histories of construction, copy, assignment, arithmetic, exceptions and destruction over the C++ classes in ASan/UBSan/LSan builds (clang++ and g++); "
             "after every step each live object is compared with a shadow kept by plain C calls")
RULE = ("an evaluation is one comparison of a live wrapper object with its shadow after a step, one returned reference, exception or predicate, or one process that ended without sanitizer or leak report; "
        "distinct counts (compiler, family, kind of step)")
ASSUMPTIONS = ["elements are destroyed before their pairing (documented)", "type I elements have no byte encoding and are not hashed",
               "too many bytes may or may not be refused (the header leaves it open)", "elements of different pairings are not mixed"]
ENV = dict(build.ENV, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", LSAN_OPTIONS="exitcode=98")


def prepare(d):
    inc = os.path.join(d, "inc")
    os.makedirs(inc)
    os.symlink(os.path.join(build.REPO, "include"), os.path.join(inc, "pbc"))
    have = []
    for cc, cxx in (("clang", "clang++"), ("gcc", "g++")):
        fl = ["-O1", "-g"] + build.SAN + (["-Wno-incompatible-function-pointer-types"] if cc == "clang" else [])
        # the C library's own undefined behaviour is judged in the other checks (gcc's sanitizer); clang's also counts function types and null+offset
        o = build.objs(d, "x" + cc, cc, fl + (["-fno-sanitize=undefined"] if cc == "clang" else []))
        ex = os.path.join(d, "cxx_" + cc)
        try: build.sh([cxx, "-w", "-I" + inc, "-I" + build.REPO + "/include", "-o", ex, os.path.join(build.HERE, "cxx.cc")] + fl + o + ["-lgmp", "-lm"])
        except build.BuildError:
            if cc == "clang": raise          # the compiler the project itself uses
            continue
        have.append(cc)
    return {"have": have}


def units(tier, rng):
    k = 1 if tier == "quick" else 15
    out = []
    for cc in ("clang", "gcc"):
        for f in ("A", "1", "D", "G", "F", "I"):
            for i in range((3 if cc == "clang" else 1) * k): out.append(("history", dict(cc=cc, fam=f, i=i, n=700 if f in "A1D" else 350)))
        for nm in ("a", "d159", "e", "f", "g149"):
            for i in range(k if nm != "e" else 1): out.append(("history", dict(cc=cc, fam="=" + nm, i=i, n=200 if nm != "e" else 80)))
    return out


def u_history(mon, L, rng, cc, fam, i, n):
    if cc not in mon.ctx["have"]: return mon.stat("compiler %s rejects the header" % cc)
    d = mon.ctx["scratch"]
    t = families.shipped_text(fam[1:]) if fam[0] == "=" else families.small_text(rng, fam)
    if isinstance(t, str): t = t.encode()
    f = os.path.join(d, "cxx.%d.param" % os.getpid())
    open(f, "wb").write(t)
    seed = rng.getrandbits(60)
    mon.case(cc, fam, seed, n, t.decode("latin1"))
    try: r = subprocess.run([os.path.join(d, "cxx_" + cc), f, str(seed), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=200)
    except subprocess.TimeoutExpired: return mon.fail("the program does not finish", "")
    out, err = r.stdout.decode("latin1"), r.stderr.decode("latin1")
    for l in out.splitlines():
        if l.startswith("FAIL "):
            k, w = l[5:].split(" | ")
            mon.fail("C++ wrapper: " + k, w)
    m = re.search(r"ERROR: (?:Address|Leak)Sanitizer: ([\w-]+(?: memory leaks)?)|runtime error: ([^\n]*)", err)
    if m or r.returncode in (98, 99) or r.returncode < 0:
        fr = [x for x in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) /", err)]
        mon.fail("C++ history: %s" % (m.group(1) or re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2)) if m else "status %d" % r.returncode), err[:2500])
    elif r.returncode == 3: raise RuntimeError("harness: parameters refused")
    elif r.returncode: mon.fail("C++ history ended with status %d" % r.returncode, err[-600:])
    else: mon.ok(cc, fam, "clean")
    m = re.search(r"^DONE (\d+) (\d+)", out, re.M)
    if not m: return mon.check(bool(mon.fails), "the history was cut short", err[-500:])
    mon.evals += int(m.group(1))
    mon.stat("steps", int(m.group(2)))
    for l in re.findall(r"^KIND (.*)", out, re.M): mon.ok(cc, fam if fam[0] != "=" else fam[1:], l)
