#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--units REGEX]

Builds the instrumented library from /repo's working tree, runs the property's workload in
sharded worker processes, judges what the monitors observed, writes evidence/<ID>.json.
Exit 0: held on everything observed.  Exit 1: VIOLATION lines.  Exit 2: harness failure."""
import argparse, importlib, json, os, random, re, selectors, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "props"))
import build, pbc

CPU_LIMIT = {"quick": 150.0, "thorough": 900.0}     # CPU seconds of one unit before it counts as a hang
WALL_IDLE = {"quick": 300.0, "thorough": 1800.0}    # wall seconds of one unit (blocked, not computing)


class Worker:
    n = 0

    def __init__(self, prop, so, sigf, d, env):
        Worker.n += 1
        self.cur = os.path.join(d, "cur.%d" % Worker.n)
        self.errf = os.path.join(d, "err.%d" % Worker.n)
        self.err = open(self.errf, "wb")
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "lib", "worker.py"), prop, so, sigf, self.cur],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=d, start_new_session=True)
        self.job = None
        self.buf = b""
        self.t0 = self.c0 = 0

    def cpu(self):
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return 0.0

    def give(self, job):
        self.job, self.t0, self.c0 = job, time.time(), self.cpu()
        self.p.stdin.write((json.dumps(job) + "\n").encode())
        self.p.stdin.flush()

    def case(self):
        try:
            b = open(self.cur, "rb").read()
            n = int.from_bytes(b[:4], "little")
            return b[4:4 + n].decode("utf-8", "replace")
        except Exception:
            return ""

    def stderr(self):
        self.err.flush()
        return open(self.errf, "rb").read().decode("latin-1")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def crash_key(rc, err):
    m = re.search(r"MONITOR: ([^\n]*)", err)
    if m:
        return "monitor: " + m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan " + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]*)", err)
        if m:
            kind = "ubsan " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))
        elif rc == 128:
            kind = "library terminated the process: " + (err.strip().splitlines() or [""])[-1][:120]
        else:
            kind = "process ended with status %d" % rc
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) ([^\s]*)", err) if "/repo/" in f[1] or build.REPO in f[1]]
    return kind + (" in " + fr[0][0] if fr else "")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--units")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    d = build.scratch()
    try:
        rc = go(a, prop, tier, seed, d, t0)
    except build.BuildError as e:
        print("harness: build failed: %s" % e)
        rc = 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


def go(a, prop, tier, seed, d, t0):
    mod = importlib.import_module(prop.lower())
    ctx = {"scratch": d, "repo": build.REPO, "verif": HERE}
    env = dict(build.ENV, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    so = "-"
    if getattr(mod, "NEEDS_LIB", True):
        so = build.shared(d, getattr(mod, "LIB_DEFS", ()), link=getattr(mod, "LIB_LINK", ()))
        ctx["sigs"] = pbc.parse_sigs(subprocess.run(
            ["gcc", "-E", "-P", "-w", "-I" + build.REPO + "/include", "-I" + build.REPO,
             os.path.join(HERE, "lib", "shim.c")] + list(getattr(mod, "LIB_DEFS", ())),
            stdout=subprocess.PIPE, check=True, env=build.ENV).stdout.decode())
        env["LD_PRELOAD"] = build.preload()
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                               "detect_stack_use_after_return=1:handle_segv=1:quarantine_size_mb=64")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    if hasattr(mod, "prepare"):
        ctx.update(mod.prepare(d) or {})
    sigf = os.path.join(d, "ctx.json")
    json.dump(ctx, open(sigf, "w"))

    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier = rep["seed"], rep["tier"]
        units = [rep["unit"]]
    else:
        units = [list(u) for u in mod.units(tier, random.Random("%d/%s/plan" % (seed, prop)))]
    if a.units:
        units = [u for u in units if re.search(a.units, json.dumps(u))]
    ids = [json.dumps(u, sort_keys=True) for u in units]
    assert len(set(ids)) == len(ids), "duplicate units: %s" % [i for i in ids if ids.count(i) > 1][:2]

    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json"))) if k["property"] == prop]
    queue = list(units)
    retry = []
    tot = {"evals": 0, "sigs": set(), "stats": {}, "samples": [], "units": 0}
    fails, errors, times, perunit = {}, [], [], {}
    sel = selectors.DefaultSelector()
    live = []
    hang_tries = {}
    budget_stop = False

    def spawn():
        w = Worker(prop, so, sigf, d, env)
        os.set_blocking(w.p.stdout.fileno(), False)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        live.append(w)
        feed(w)

    def is_known(key):
        for k in known:
            if k.get("status", "known") == "known" and re.fullmatch(k["key"], key, re.S):
                return k
        return None

    def feed(w):
        nonlocal budget_stop
        if sum(not is_known(k) for k in fails) >= 12 or len(errors) >= 5:
            budget_stop = True
        if queue and not budget_stop:
            w.give({"unit": queue.pop(0), "seed": seed, "tier": tier})
        else:
            w.job = None
            try:
                w.p.stdin.close()
            except OSError:
                pass

    def addfail(key, unit, det, case):
        if key not in fails:
            fails[key] = {"unit": unit, "detail": det, "case": case}

    def drop(w):
        sel.unregister(w.p.stdout)
        live.remove(w)
        w.kill()
        w.err.close()

    for _ in range(min(a.jobs, len(queue))):
        spawn()
    while live:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            try:
                b = os.read(w.p.stdout.fileno(), 1 << 20)
            except BlockingIOError:
                continue
            if b:
                w.buf += b
                while b"\n" in w.buf:
                    line, w.buf = w.buf.split(b"\n", 1)
                    r = json.loads(line)
                    u = w.job["unit"]
                    dt = time.time() - w.t0
                    times.append((dt, u))
                    if a.v:
                        print("  %.2fs %s evals=%d" % (dt, json.dumps(u)[:150], r["evals"]))
                    tot["evals"] += r["evals"]
                    tot["units"] += 1
                    perunit[u[0]] = perunit.get(u[0], 0) + r["evals"]
                    tot["sigs"].update(r["sigs"])
                    for k, v in r["stats"].items():
                        tot["stats"][k] = tot["stats"].get(k, 0) + v
                    if len(tot["samples"]) < 12:
                        tot["samples"] += r["samples"]
                    for k, v in r["fails"].items():
                        addfail(k, u, v["detail"], v["case"])
                    if r.get("error"):
                        errors.append((u, r["error"]))
                    elif r["evals"] == 0:
                        errors.append((u, "unit observed nothing"))
                    feed(w)
                continue
            # worker ended
            job, rc = w.job, w.p.wait()
            err, case = w.stderr(), w.case()
            drop(w)
            if job is not None:
                if rc == -signal.SIGKILL:
                    n = hang_tries.get(json.dumps(job["unit"]), 0)
                    hang_tries[json.dumps(job["unit"])] = n + 1
                    if n == 0:
                        queue.append(job["unit"])
                    else:
                        errors.append((job["unit"], "worker killed twice"))
                elif "Traceback (most recent call last)" in err and "Sanitizer" not in err and "runtime error" not in err:
                    errors.append((job["unit"], err[-3000:]))
                else:
                    addfail(crash_key(rc, err), job["unit"], "\n".join(x for x in err.split("Shadow bytes around")[0].splitlines() if not re.search(r"^ +#\d+ .*(python|ffi|libc_start|_start)", x))[:6000], case)
            elif rc not in (0,):
                errors.append((None, "worker exit %s: %s" % (rc, err[-2000:])))
            if queue and not budget_stop:
                spawn()
        for w in list(live):
            if w.job is None:
                continue
            cpu, wall = w.cpu() - w.c0, time.time() - w.t0
            if cpu > CPU_LIMIT[tier] or wall > WALL_IDLE[tier]:
                u, case = w.job["unit"], w.case()
                k = json.dumps(u)
                hang_tries[k] = hang_tries.get(k, 0) + 1
                drop(w)
                if hang_tries[k] >= 2:
                    addfail("no progress: operation did not finish", u, "unit used %.0f CPU s, %.0f s wall, twice" % (cpu, wall), case)
                    budget_stop = True
                else:
                    queue.insert(0, u)
                if queue and not budget_stop:
                    spawn()

    wall = time.time() - t0
    # verdict
    viol, seen_known = [], {}
    for k, f in fails.items():
        kn = is_known(k)
        if kn:
            seen_known[kn["key"]] = kn
        else:
            viol.append((k, f))
    for kn in known:
        if kn.get("status", "known") == "known" and not a.replay:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn["what"]))
    if a.v:
        for dt, u in sorted(times, key=lambda x: -x[0])[:8]:
            print("slow %.1fs %s" % (dt, json.dumps(u)[:160]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evals"], "distinct_nontrivial": len(tot["sigs"]),
            "rule": getattr(mod, "RULE", "") or "an evaluation is one oracle decision on the result of real library calls; "
                    "distinct counts different (operation, configuration, situation) signatures",
            "samples": tot["samples"][:12], "units": tot["units"], "units_planned": len(units),
            "evaluations_by_unit_kind": perunit, "observed": tot["stats"],
            "known_findings_seen": sorted(seen_known)},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.replay and not a.units:
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for i, (k, f) in enumerate(viol):
        rp = os.path.join(HERE, "evidence", "replay-%s-%d.json" % (prop, i)) if not a.replay else a.replay
        if not a.replay:
            json.dump({"property": prop, "seed": seed, "tier": tier, "unit": f["unit"], "key": k, "case": f["case"], "detail": f["detail"]},
                      open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  what: %s\n  unit: %s\n  case: %s\n  detail: %s" % (k, json.dumps(f["unit"])[:500], f["case"][:1500], f["detail"][:2500]))
    if viol:
        return 1
    if errors:
        for u, e in errors[:5]:
            print("harness error in unit %s:\n%s" % (json.dumps(u), e))
        return 2
    if tot["units"] < len(units):
        print("harness: only %d of %d units completed" % (tot["units"], len(units)))
        return 2
    print("%s: held on %d evaluations (%d distinct), %d units, %.1f s" % (prop, tot["evals"], len(tot["sigs"]), tot["units"], wall))
    return 0


if __name__ == "__main__":
    main()
