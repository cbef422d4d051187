"""Threads: scripts run side by side under race detectors, each compared with the same script run alone."""
import os, re, subprocess
import build, families

NEEDS_LIB = False
TECHNIQUE = ("runtime monitoring: multithreaded scripts over the library in three builds - under valgrind's helgrind (which also sees the big-integer library's accesses), under ThreadSanitizer with the "
             "big-integer calls annotated, and as an optimized stress build; the detectors judge every access, and each thread's recorded results are compared with the same script run alone")
RULE = ("an evaluation is one recorded result of a thread compared with the same script run alone, or one process in which the detector saw no race; "
        "distinct counts (detector, mode, family, kind of operation)")
ASSUMPTIONS = ["the random source is a user function with per-thread state, or a file; the deterministic generator, the global option and allocator setters and Hilbert class polynomials (hence the generators of types D and G) are shared state and not used concurrently",
               "threads that share a pairing only read what they share, and hashing or square roots have been used on it once before (the nonresidue of a field is found on first use)",
               "hashing to points is not used on toy curves, where the chain of x-coordinates may never meet a point",
               "helgrind and ThreadSanitizer judge happens-before order in the executions that ran"]
FAMS = "A1DEFGI"
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TSAN_OPTIONS": "history_size=7 exitcode=66 halt_on_error=1", "HOME": "/nonexistent"}


def prepare(d):
    H = build.HERE
    names = sorted(set(re.findall(r"__gmp[zn]_\w+", open(os.path.join(H, "gmpnote.inc")).read()))) + ["__gmpz_export", "__gmpz_import", "__gmpn_tdiv_qr"]
    inc = ["-w", "-g", "-I" + build.REPO + "/include", "-I" + build.REPO, "-I" + H]
    src = os.path.join(H, "threads.c")
    T = ["-O1", "-g", "-fsanitize=thread"]
    t = build.objs(d, "t", "gcc", T)
    build.sh(["gcc", "-o", os.path.join(d, "thr_tsan")] + inc + T + [src, os.path.join(H, "gmpnote.c")] + t + ["-Wl,--wrap=" + n for n in names] + ["-lgmp", "-lm", "-lpthread"])
    for tag, o in (("helgrind", "-O1"), ("stress", "-O2")):
        t = build.objs(d, tag, "gcc", [o, "-g"])
        build.sh(["gcc", "-o", os.path.join(d, "thr_" + tag)] + inc + [o, src] + t + ["-lgmp", "-lm", "-lpthread"])
    return {}


def units(tier, rng):
    k = 1 if tier == "quick" else 15
    out = []
    for i in range(k):
        for f in FAMS:
            for m in ("own", "shared"): out.append(("run", dict(how="helgrind", mode=m, fams=f, i=i, nt=3, steps=10 if f in "A1" else 7)))
        for f in ("A1DEI" if tier == "quick" else FAMS): out.append(("run", dict(how="helgrind", mode="readers", fams=f, i=i, nt=2, steps=1)))
        for j in range(2): out.append(("run", dict(how="helgrind", mode="readfields", fams="", i=2 * i + j, nt=2, steps=2)))
        for j in range(5): out.append(("run", dict(how="helgrind", mode="fields", fams="", i=5 * i + j, nt=3, steps=8)))
        out.append(("run", dict(how="helgrind", mode="random", fams="".join(rng.sample(FAMS, 2)), i=i, nt=2, steps=3)))
        out.append(("run", dict(how="helgrind", mode="own", fams="".join(rng.sample(FAMS, 3)), i=i, nt=3, steps=6)))
    for i in range(2 * k):
        for f in FAMS:
            for m in ("own", "shared"): out.append(("run", dict(how="tsan", mode=m, fams=f, i=i, nt=4, steps=14)))
        for f in FAMS if i % 2 == 0 else "": out.append(("run", dict(how="tsan", mode="readers", fams=f, i=i, nt=2, steps=1)))
        out.append(("run", dict(how="tsan", mode="readfields", fams="", i=i, nt=4, steps=1)))
        out.append(("run", dict(how="tsan", mode="own", fams=FAMS, i=i, nt=7, steps=10)))
        out.append(("run", dict(how="tsan", mode="fields", fams="", i=i, nt=4, steps=12)))
        out.append(("run", dict(how="tsan", mode="random", fams="".join(rng.sample(FAMS, 4)), i=i, nt=4, steps=4)))
    for i in range(2 * k):
        for f in FAMS:
            for m in ("own", "shared", "readers"): out.append(("run", dict(how="stress", mode=m, fams=f, i=i, nt=8, steps=80 if f in "A1" else 40, rounds=1 if m == "readers" else 3)))
        for m, fam in (("own", FAMS), ("fields", ""), ("readfields", "")): out.append(("run", dict(how="stress", mode=m, fams=fam, i=i, nt=12, steps=30, rounds=2)))
    for nm, f in (("a", "A"), ("a1", "1"), ("d159", "D"), ("e", "E"), ("f", "F"), ("g149", "G")):
        for m in ("own", "shared"):
            for i in range(1 if tier == "quick" else 3): out.append(("run", dict(how="stress", mode=m, fams=f, ship=nm, i=i, nt=6, steps=14, rounds=1)))
    return out


def race(err):
    """the kind and the place of the first report"""
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ()-]+?) \(pid", err)
    if m:
        fr = re.findall(r"#\d+ (\w+) ", err[m.start():])
        return "ThreadSanitizer: %s in %s" % (m.group(1), next((x for x in fr if not x.startswith("__")), "?"))
    m = re.search(r"Possible data race during (\w+)", err)
    if m:
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\w+)", err[m.start():])
        return "helgrind: race during %s in %s" % (m.group(1), next((x for x in fr if not x.startswith("__gmp") and x not in ("memcpy", "memmove", "memset")), "?"))
    return None


def u_run(mon, L, rng, how, mode, fams, i, nt, steps, rounds=1, ship=None):
    d = mon.ctx["scratch"]
    args, texts = [], []
    for j, f in enumerate(fams):
        t = families.shipped_text(ship) if ship else families.small_text(rng, f)
        if isinstance(t, bytes): t = t.decode("latin1")
        path = os.path.join(d, "thr.%d.%d.param" % (os.getpid(), j))
        open(path, "w").write(t)
        args += [f, path]
        texts.append(t)
    seed = rng.getrandbits(50)
    if mode == "readfields": seed = seed - seed % 2 + i % 2
    cmd = [os.path.join(d, "thr_" + how), mode, str(seed), str(nt), str(steps), str(rounds)] + args
    if how == "helgrind": cmd = ["valgrind", "-q", "--tool=helgrind", "--history-level=none", "--error-exitcode=67"] + cmd
    mon.case(how, mode, fams, ship, "seed %d, %d threads, %d steps" % (seed, nt, steps), "\n".join(texts))
    for attempt in range(20):
        try: r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=280, cwd=d)
        except subprocess.TimeoutExpired: return mon.fail("threads (%s): a script does not finish" % mode, "")
        out, err = r.stdout.decode("latin1"), r.stderr.decode("latin1")
        if "unexpected memory mapping" not in err: break      # address randomization of the system met the detector's own layout
    else: raise RuntimeError("harness: the race detector cannot run here")
    w = race(err)
    if w: mon.fail("threads, objects %s: %s" % (mode, w), err[:3500])
    for op in dict.fromkeys(re.findall(r"^FAIL (.*?) \|", out, re.M)):
        mon.fail("threads, objects %s: result of %s differs from the same script run alone" % (mode, op), out[:1500])
    m = re.search(r"^DONE (\d+) (\d+)", out, re.M)
    if r.returncode == 3: raise RuntimeError("harness: parameters refused")
    if not m:
        if not w: mon.fail("threads, objects %s: the process ended with status %d" % (mode, r.returncode), err[-2500:])
        return
    if r.returncode and not w and m.group(2) == "0": return mon.fail("threads, objects %s: status %d" % (mode, r.returncode), err[-2500:])
    mon.evals += int(m.group(1))
    mon.stat("results compared", int(m.group(1)))
    mon.stat(how + " runs")
    for l in set(re.findall(r"^KIND (.*)", out, re.M)): mon.ok(how, mode, fams if len(fams) < 2 else "mixed", l)
