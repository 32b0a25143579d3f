#!/usr/bin/env python3
"""check.py ID: decides property ID for the current working tree of /repo.

1. builds the harness (harness/) against /repo,
2. checks the design specifications of the property with TLC,
3. has the drivers of the harness execute the real code and record traces,
4. has TLC validate the traces against the specification,
5. writes evidence/ID.json, and for a violation replay/ID/.

Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN, DESIGN, GEN  # noqa: E402
import scripts  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, text, files):
        super().__init__(text)
        self.kind, self.text, self.files = kind, text, files


def log(*a):
    print(*a, flush=True)


def build(scratch):
    """Builds the harness from the current tree of /repo."""
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local",
               GOCACHE=os.environ.get("GOCACHE", os.path.expanduser("~/.cache/go-build")), CGO_ENABLED="0")
    out = os.path.join(scratch, "vh")
    p = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("harness does not build:\n" + p.stdout)
    return out


def tlc(module, cfg, scratch, env=None, workers=8, mem="6g", timeout=800, extra=(), name=""):
    """Runs TLC in a scratch directory. Returns (exit code, output, stats)."""
    meta = tempfile.mkdtemp(dir=scratch, prefix="tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Dfile.encoding=UTF-8", "-Xmx" + mem, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-nowarning", "-noGenerateSpecTE", "-metadir", meta,
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out: %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", p.stdout)
    st = {"generated": 0, "distinct": 0}
    if m:
        st = {"generated": int(m[-1][0].replace(",", "")), "distinct": int(m[-1][1].replace(",", ""))}
    st["wall"] = time.time() - t0
    return p.returncode, p.stdout, st


def design(d, tier, scratch):
    """Checks a design specification. Its failure is an error of the check: it
    says nothing about the implementation."""
    cfg = d["thorough"] if tier == "thorough" and "thorough" in d else d["quick"]
    rc, out, st = tlc(d["module"], cfg, scratch, workers=d.get("workers", 4), extra=d.get("extra", ()), timeout=800)
    if rc != 0 or "Model checking completed. No error" not in out and "The number of states generated" not in out:
        raise CheckError("design specification %s/%s: TLC exit %d\n%s" % (d["module"], cfg, rc, out[-4000:]))
    st["config"] = cfg
    if tier == "thorough":
        # The specification must be able to tell wrong designs.
        for m in d.get("mutants", ()):
            rc, out, _ = tlc(d["module"], m, scratch, workers=d.get("workers", 4), timeout=800)
            if not re.search(r"(is|was|were) violated|Deadlock reached", out):
                raise CheckError("design specification %s/%s: no violation found\n%s" % (d["module"], m, out[-3000:]))
        st["wrong_designs_rejected"] = list(d.get("mutants", ()))
    return st


def generate(name, tier, scratch):
    """Explores an instance of Store.tla, which checks the design against the
    contract; returns what TLC printed: one script per transition."""
    cfg = GEN[name]["thorough" if tier == "thorough" else "quick"]
    rc, out, st = tlc("MCStore", cfg, scratch, workers=6, mem="8g", timeout=800 if tier == "quick" else 3000)
    if rc != 0 or "Model checking completed. No error" not in out:
        raise CheckError("design specification MCStore/%s: TLC exit %d\n%s" % (cfg, rc, "\n".join(
            x for x in out.splitlines() if not x.startswith(('"SCRIPT', '"PROBE')))[-4000:]))
    st["config"] = cfg
    if tier == "thorough":
        for m in GEN[name].get("mutants", ()):
            rc, mo, _ = tlc("MCStore", m, scratch, workers=4)
            if "is violated" not in mo:
                raise CheckError("design specification MCStore/%s: no violation found\n%s" % (m, mo[-3000:]))
        st["wrong_designs_rejected"] = list(GEN[name].get("mutants", ()))
    return out, st


FRAME = re.compile(r"/repo/\S+\.go:\d+")


def run_driver(vh, r, seed, scratch, k, only=None, timeout=600):
    """Runs one driver; returns the path of its traces."""
    out = os.path.join(scratch, "t%s.nd" % k)
    cmd = [vh, r["driver"], "-profile", r["profile"], "-n", str(r["n"]), "-steps", str(r["steps"]),
           "-seed", str(seed), "-out", out]
    if "in" in r:
        cmd += ["-in", r["in"]]
    if only is not None:
        cmd += ["-only", str(only)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, cwd=scratch)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as ex:
        rc, err = -1, "HARNESS-HANG: driver timed out\n" + (ex.stderr or b"").decode(errors="replace")
    return rc, err, out, cmd


def crash_of(err):
    """The code under test brought the process down (and not the harness)."""
    i = max(err.find("\npanic:"), err.find("\nfatal error:"), 0 if err.startswith(("panic:", "fatal error:")) else -1)
    if i < 0:
        return None
    txt = err[i:]
    if "HARNESS-ERROR" in err:
        return None
    first = txt.split("\n\ngoroutine", 2)
    stack = first[1] if len(first) > 1 else txt
    if FRAME.search(stack) or (txt.startswith(("\nfatal error: all goroutines", "\nfatal error: concurrent map"))
                               and FRAME.search(txt)):
        return txt[:6000]
    return None


def driver(vh, r, seed, scratch, k):
    """Runs a driver, and tells crashes and hangs of the code under test from
    failures of the harness."""
    rc, err, out, cmd = run_driver(vh, r, seed, scratch, k)
    if rc == 0:
        return out, cmd
    c = crash_of(err)
    if c:
        raise Violation("crash", "the process crashed in the code under test\n$ %s\n%s" % (" ".join(cmd), c), [])
    if "HARNESS-HANG" in err:
        # Only if it happens again.
        m = re.search(r"HARNESS-HANG: scenario (\d+)", err)
        only = int(m.group(1)) if m else None
        rc2, err2, _, cmd2 = run_driver(vh, r, seed, scratch, k, only=only, timeout=400)
        if "HARNESS-HANG" in err2:
            raise Violation("hang", "an operation does not complete\n$ %s\n%s" % (" ".join(cmd2), err2[-4000:]), [])
        c = crash_of(err2)
        if c:
            raise Violation("crash", "the process crashed in the code under test\n$ %s\n%s" % (" ".join(cmd2), c), [])
        if rc2 == 0:
            # It does not repeat: start over.
            rc3, err3, out, cmd = run_driver(vh, r, seed, scratch, k)
            if rc3 == 0:
                return out, cmd
            err = err3
            if "HARNESS-HANG" in err3:
                raise Violation("hang", "an operation does not complete\n$ %s\n%s" % (" ".join(cmd), err3[-4000:]), [])
    raise CheckError("driver failed (%s): %s\n%s" % (rc, " ".join(cmd), err[-4000:]))


FAIL = re.compile(r'^<<"FAIL", (\d+), (\d+), "([^"]*)", (\{[^}]*\})', re.M)


def validate(prop, module, files, scratch, tier):
    """TLC validates the traces of some files. Returns stats and failures
    (file, line number, step, operation)."""
    fails, stats = [], {"generated": 0, "distinct": 0}
    lines = []
    for f, cmd in files:
        with open(f) as fh:
            for n, line in enumerate(fh):
                lines.append((f, cmd, n, line))
    if not lines:
        return stats, fails, 0
    size = sum(len(x[3]) for x in lines)
    chunk, cur, curlen = [], [], 0
    for x in lines:
        cur.append(x)
        curlen += len(x[3])
        if curlen > 24_000_000:
            chunk.append(cur)
            cur, curlen = [], 0
    if cur:
        chunk.append(cur)
    for i, c in enumerate(chunk):
        path = os.path.join(scratch, "%s.%d.nd" % (module, i))
        with open(path, "w") as fh:
            fh.writelines(x[3] for x in c)
        rc, out, st = tlc(module + ".tla", module + ".cfg", scratch, env={"TRACE": path, "PROPS": prop},
                          extra=("-continue",), mem="10g", timeout=850 if tier == "quick" else 5000)
        seen = set()
        for m in FAIL.finditer(out):
            t, l, op, bad = int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)
            if (t, l) in seen:
                continue
            seen.add((t, l))
            f, cmd, n, line = c[t - 1]
            fails.append((cmd, line, l, op, bad))
        if not seen and (rc != 0 or "Model checking completed. No error" not in out):
            raise CheckError("TLC failed on the traces (exit %d)\n%s" % (rc, out[-5000:]))
        stats["generated"] += st["generated"]
        stats["distinct"] += st["distinct"]
        os.unlink(path)
    return stats, fails, len(lines)


def known(prop):
    """Findings which are not repaired: digest of the failing step."""
    res = {}
    with open(os.path.join(VERIF, "KNOWN-FINDINGS.txt")) as fh:
        for line in fh:
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def replay_dir(prop):
    d = os.path.join(VERIF, "replay", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def show(line, l):
    """The failing step of a trace, and the stores before it."""
    t = json.loads(line)
    stores = {}
    for s in t["steps"][:l - 1]:
        for p in s.get("post", []):
            stores[p["st"]] = p
        for x in s.get("drop", []):
            stores.pop(x, None)
    s = t["steps"][l - 1]
    return {"before": list(stores.values()), "step": s, "trace": {k: t[k] for k in t if k not in ("steps", "dps")},
            "dps": t.get("dps")}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "violations": 0,
          "assumptions": plan.get("assumptions", [])}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    ev["coverage"] = cov
    code = 0
    try:
        vh = build(scratch)
        runs = plan[tier] if tier in plan else plan["quick"]
        viol, designs, files = None, {}, {}
        with cf.ThreadPoolExecutor(max_workers=6) as ex:
            fd = {ex.submit(design, DESIGN[d], tier, scratch): d for d in plan.get("design", [])}
            fr = {}
            fg = {g: ex.submit(generate, g, tier, scratch) for g in sorted({r["gen"] for r in runs if "gen" in r})}
            for k, r in enumerate(runs):
                if "gen" in r:
                    continue
                for j in range(r.get("seeds", 1)):
                    fr[ex.submit(driver, vh, r, seed * 1000 + j, scratch, "%d_%d" % (k, j))] = (k, r)
            for k, r in enumerate(runs):
                if "gen" not in r:
                    continue
                out, st = fg[r["gen"]].result()
                designs["Store:" + r["gen"]] = st
                path = os.path.join(scratch, "scripts%d" % k)
                n, total = scripts.write(out, path, r["limit"], seed, r.get("ops"))
                if n == 0:
                    raise CheckError("no scripts generated (%s)" % r["gen"])
                cov.setdefault("scripts", []).append({"instance": r["gen"], "operations": r.get("ops") or "all",
                                                      "replayed": n, "generated": total})
                r = dict(r, driver="script", profile=r["gen"], n=0, steps=0, **{"in": path})
                fr[ex.submit(driver, vh, r, seed, scratch, "g%d" % k)] = (k, r)
            fg.clear()
            for f in fr:
                k, r = fr[f]
                try:
                    files.setdefault(r.get("module", "Trace"), []).append(f.result())
                except Violation as v:
                    viol = viol or v
            for f in fd:
                designs[fd[f]] = f.result()
        for d, st in designs.items():
            cov["states"] += st["distinct"]
            cov["transitions"] += st["generated"]
        cov["design"] = designs
        if viol is not None:
            d = replay_dir(prop)
            with open(os.path.join(d, viol.kind + ".txt"), "w") as fh:
                fh.write(viol.text + "\n")
            log(viol.text[-3000:])
            log("VIOLATION property=%s replay=%s" % (prop, d))
            ev["violations"], code = 1, 1
        else:
            fails, ops, digests = [], {}, set()
            for module, fs in files.items():
                st, fl, n = validate(prop, module, fs, scratch, tier)
                cov["states"] += st["distinct"]
                cov["transitions"] += st["generated"]
                cov["traces_validated_against_impl"] += n
                fails += [(module,) + f for f in fl]
                for f, cmd in fs:
                    with open(f) as fh:
                        for line in fh:
                            t = json.loads(line)
                            digests.add(hashlib.sha256(json.dumps([t["steps"], t.get("dps")]).encode()).digest())
                            for s in t["steps"]:
                                ops[s["op"]] = ops.get(s["op"], 0) + 1
                            if len(cov["samples"]) < 2 and len(t["steps"]) > 3:
                                cov["samples"].append({"driver": " ".join(cmd[1:-2]), "scenario": t.get("id"), "steps": [
                                    {k: v for k, v in s.items() if k not in ("post", "dead", "fuzzy", "drop", "vec", "thr")
                                     and v not in ("", "-", [], None, 0, False, "none") and len(str(v)) < 300} for s in t["steps"][:12]]})
            cov["steps_by_operation"] = ops
            cov["distinct_traces"] = len(digests)
            if not digests:
                raise CheckError("no traces")
            rel = sum(v for k, v in ops.items() if not plan.get("ops") or k in plan["ops"])
            cov["relevant_steps"] = rel
            if rel == 0:
                raise CheckError("no step of the traces is relevant for %s" % prop)
            kn, new = known(prop), []
            for f in fails:
                module, cmd, line, l, op, bad = f
                key = "%s:%s" % (module, op)
                if key in kn:
                    log("KNOWN-FINDING: property=%s %s" % (prop, kn[key]))
                else:
                    new.append(f)
            if new:
                d = replay_dir(prop)
                for i, (module, cmd, line, l, op, bad) in enumerate(new[:5]):
                    with open(os.path.join(d, "trace%d.nd" % i), "w") as fh:
                        fh.write(line)
                    with open(os.path.join(d, "failure%d.json" % i), "w") as fh:
                        json.dump({"property": prop, "module": module, "step": l, "op": op, "bad": bad,
                                   "driver": cmd, "validate": "TRACE=%s PROPS=%s tlc -config %s.cfg %s.tla  (in %s)" % (
                                       os.path.join(d, "trace%d.nd" % i), prop, module, module, SPEC),
                                   **show(line, l)}, fh, indent=1)
                    log("step %d (%s) of %s scenario is not allowed by the specification: %s" % (
                        l, op, " ".join(cmd[1:]), bad))
                ev["violations"], code = len(new), 1
                log("VIOLATION property=%s replay=%s" % (prop, d))
    except CheckError as e:
        log("CHECK-ERROR", prop, e)
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if code == 0:
        log("OK %s (%s, seed %d): %d traces, %d states, %.0f s" % (
            prop, tier, seed, cov["traces_validated_against_impl"], cov["states"], ev["wall_s"]))
    sys.exit(code)


if __name__ == "__main__":
    main()
