#!/usr/bin/env python3
"""check.py <property id> [entry...]: decide one property of hastur.

Compiles the harnesses together with /repo's working tree to LLVM IR, lets the
symbolic executor (engine/) explore every path of the property's harness
entries with a solver deciding each branch and assertion, and replays every
counterexample against the natively compiled code before reporting it."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import pipeline
from props import PROPS

T0 = time.time()
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
P = PROPS[PID]
ENTRIES = sys.argv[2:] or [e for e in P["entries"] if TIER == "thorough" or P["entries"][e].get("quick", True)]
ONLY = bool(sys.argv[2:])
# total time for exploration, and for a single entry
BUDGET = 420 if TIER == "quick" else 3 * 3600
PER = 240 if TIER == "quick" else 5400
THREADS = int(os.environ.get("LSYM_THREADS", "8"))
WORK = os.path.join(ROOT, ".work", PID)
CEX = os.path.join(WORK, "cex")
shutil.rmtree(WORK, ignore_errors=True)
os.makedirs(CEX)


def die(msg):
    print("ERROR property=%s %s" % (PID, msg))
    sys.exit(2)


def build():
    """engine, native replay program and bitcode, in parallel"""
    res, err = {}, []

    def go(k, f):
        try:
            res[k] = f()
        except Exception as e:
            err.append("%s: %s" % (k, e))

    def attempt(hook):
        err.clear()
        pipeline.HOOK = hook
        ts = [threading.Thread(target=go, args=x) for x in (("native", pipeline.build_native), ("bc", pipeline.build_bitcode))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    e = threading.Thread(target=go, args=("engine", pipeline.build_engine))
    e.start()
    attempt(True)
    if err:
        # the tree may have lost the hook; the harness can do without it
        attempt(False)
    e.join()
    if err:
        die("build failed\n" + "\n".join(err))
    return res


def native(replay, entry, data, timeout=30):
    """Run one harness on concrete bytes against the native code"""
    d = tempfile.mkdtemp(prefix="replay", dir=WORK)
    try:
        f = os.path.join(d, "in")
        with open(f, "wb") as h:
            h.write(bytes(data))
        w = os.path.join(d, "w")
        os.mkdir(w)
        try:
            r = subprocess.run([replay, entry, f, w], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return {"hang": True}
        if r.returncode != 0:
            return {"crash": r.returncode, "stderr": r.stderr.decode("utf8", "replace")[-300:]}
        return json.loads(r.stdout.decode("utf8", "replace").strip().split("\n")[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def limits():
    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def wrong(n):
    """What, if anything, the native run shows to be broken"""
    if n.get("hang"):
        return "does not terminate"
    if "crash" in n:
        m = "stack overflow" if "overflowed its stack" in n.get("stderr", "") else "killed"
        return "crashes (%s, status %s)" % (m, n["crash"])
    if n.get("rejected"):
        return None
    if n.get("panic") is not None and not n["allowed"]:
        return "panics: " + n["panic"][:200]
    if n.get("failed"):
        return "violated: " + "; ".join(dict.fromkeys(n["failed"]))
    return None


def hexes(l):
    return [x for x in l if re.fullmatch(r"(?:[0-9a-f]{2})*", x)]


def show(n):
    r = []
    for x in hexes(n.get("observed", [])):
        r.append(bytes.fromhex(x).decode("utf8", "replace"))
    return r


def known():
    """The findings listed for this property: (entry, input in hex or '*' , text)"""
    r = []
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) entry=(\S+) bytes=(\S*) kind=(\S+) (.*)", l)
        if m and m.group(1) == PID:
            r.append(m.groups()[1:])
    return r


def demangle(names):
    if not names:
        return []
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        out = r.stdout.split("\n")
    except Exception:
        out = names
    out = [re.sub(r"\[[0-9a-f]{6,}\]|::h[0-9a-f]{16}$", "", x) for x in out]
    return sorted(set(x for x in out if x))


def cross(dump, limit):
    """Ask two other solvers for a sample of the queries"""
    fs = sorted(glob.glob(os.path.join(dump, "*.smt2")))
    step = max(1, len(fs) // limit)
    n, bad = 0, []
    for f in fs[::step][:limit]:
        want = f.split(".")[-2]
        for cmd in (["z3-new", "-T:20", f], ["cvc5", "--lang", "smt2", "--tlimit=20000", f]):
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            except Exception:
                continue
            got = r.stdout.strip().split("\n")[-1]
            if got in ("sat", "unsat"):
                n += 1
                if got != want:
                    bad.append("%s: %s, z3: %s" % (cmd[0], got, want))
    return n, bad


def main():
    tools = build()
    ll = os.path.join(WORK, "harness.ll")
    try:
        pipeline.prepare(tools["bc"], ENTRIES, ll)
    except pipeline.BuildError as e:
        die("IR preparation failed: %s" % e)
    t_build = time.time() - T0
    reports, problems, violations, findings, unconfirmed = [], [], [], [], []
    validated, samples, funcs = 0, [], set()
    crossed, cross_bad = 0, []
    listed = known()
    for e in ENTRIES:
        left = T0 + t_build + BUDGET - time.time()
        if violations and not ONLY:
            reports.append({"entry": e, "skipped": "a violation was found before"})
            continue
        if left < 5:
            reports.append({"entry": e, "skipped": "no time left"})
            continue
        out = os.path.join(WORK, e + ".json")
        dump = os.path.join(WORK, "smt")
        shutil.rmtree(dump, ignore_errors=True)
        cfg = P["entries"][e] if e in P["entries"] else {}
        cmd = [tools["engine"], ll, "--entry", e, "--out", out, "--threads", str(THREADS)]
        cmd += ["--timeout", str(int(min(cfg.get("timeout", PER), left))), "--max-viol", "3"]
        cmd += ["--dump", dump, "--dump-every", "997" if TIER == "quick" else "4999"]
        if "max_insts" in cfg:
            cmd += ["--max-insts", str(cfg["max_insts"])]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            problems.append("%s: executor failed (%d): %s" % (e, r.returncode, r.stdout[-500:]))
            continue
        j = json.load(open(out))
        k, bad = cross(dump, 8 if TIER == "quick" else 60)
        crossed += k
        cross_bad += bad
        funcs.update(x for x in j["functions"] if "hastur" in x)
        # counterexamples: replay natively, report what reproduces
        for v in j["violations"]:
            n = native(tools["native"], e, v["bytes"])
            w = wrong(n)
            if w is None and v["kind"] == "unresolved":
                continue  # a path the executor could not follow; this input is fine
            if w is None:
                unconfirmed.append("%s: %s %s bytes=%s" % (e, v["kind"], v["label"], bytes(v["bytes"]).hex()))
                continue
            hx = bytes(v["bytes"]).hex()
            kind = "crash" if "crash" in n else "hang" if "hang" in n else "panic" if n.get("panic") else "check"
            f = [x for x in listed if x[0] == e and x[1] == hx and x[2] == kind]
            if f:
                findings.append(f[0][3].strip())
                continue
            name = "%s-%s.json" % (e, hashlib.sha1((e + hx).encode()).hexdigest()[:12])
            p = os.path.join(CEX, name)
            rec = {
                "property": PID, "entry": e, "bytes": hx, "kind": v["kind"], "label": v["label"], "site": v["site"],
                "stack": demangle(v["stack"]), "native": w, "inputs_and_observations": show(n),
                "replay": "%s %s <file with the bytes> <scratch directory>" % (os.path.relpath(tools["native"], ROOT), e),
            }
            json.dump(rec, open(p, "w"), indent=1)
            violations.append((p, e, w, show(n)))
        j["violations"] = [v for v in j["violations"] if v["kind"] != "unresolved"] or (["found"] if violations else [])
        # models of explored paths: the native code must do what the executor did
        ok = 0
        for s in j["samples"]:
            n = native(tools["native"], e, s["bytes"])
            w = wrong(n)
            seen = hexes(n.get("observed", []))
            if w is None and not n.get("rejected") and seen == s["observed"] and sorted(set(n["covers"])) == sorted(s["covers"]):
                ok += 1
            elif any(v != "found" and v["bytes"] == s["bytes"] for v in j["violations"]):
                pass
            elif w is not None and j["violations"]:
                pass  # the path goes on after a failed assertion
            else:
                problems.append("%s: executor and native code disagree on %s: %s" % (e, bytes(s["bytes"]).hex(), json.dumps(n)[:400]))
            if len(samples) < 24 and ok and len(s["observed"]):
                samples.append({"entry": e, "bytes": bytes(s["bytes"]).hex(), "texts": show(n)[:6], "covers": s["covers"]})
        validated += ok
        internal = [u for u in j["unresolved"] if u.startswith("internal") or "rewrite" in u]
        if internal:
            problems.append("%s: %s" % (e, internal))
        complete = not j["unresolved"]
        missing = [c for c in cfg.get("covers", P.get("covers", [])) if c not in j["covers"]]
        if missing and complete and not j["violations"]:
            problems.append("%s: vacuous, never reached %s" % (e, missing))
        if j["paths"] == 0 and not j["violations"]:
            problems.append("%s: no path was explored" % e)
        keep = ("paths", "rejected", "forks", "insts", "max_path_insts", "symbolic_bytes", "queries", "sat", "unsat", "unknown",
                "cache_hits", "assert_queries", "rewrite_validation_queries", "solver_s", "explore_s", "covers", "allowed_panics", "unresolved")
        rep = {"entry": e, "domain": cfg.get("domain", ""), "complete": complete}
        rep.update({x: j[x] for x in keep})
        rep["assertions"] = {a: {"decided_by_path_condition": c[0], "decided_by_query": c[1]} for a, c in j["checks"].items()}
        reports.append(rep)
        sys.stderr.write("%s: %d paths, %d queries, %.1fs%s\n" % (e, j["paths"], j["queries"], j["explore_s"], "" if complete else " INCOMPLETE %r" % j["unresolved"]))
    if cross_bad:
        problems.append("solvers disagree: %r" % cross_bad[:3])
    done = [r for r in reports if "paths" in r]
    tot = lambda k: sum(r[k] for r in done)
    fn = demangle(funcs)
    ev = {
        "property": PID, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("forks"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": bool(done) and all(r["complete"] for r in done) and len(done) == len(ENTRIES),
            "rule": "states: paths explored to their end, each standing for all inputs that satisfy its path condition; transitions: branches on symbolic data where the solver found both sides feasible; traces_validated: models of paths replayed against the native build with identical observations",
            "bounds": P["bounds"],
            "outside_the_bounds": P["outside"],
            "queries_discharged": tot("queries"),
            "assertion_queries": tot("assert_queries"),
            "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "answered_by_model_reuse": tot("cache_hits"),
            "rewrite_rules_validated_by_query": tot("rewrite_validation_queries"),
            "queries_confirmed_by_other_solvers": crossed,
            "solver_seconds": round(tot("solver_s"), 2),
            "instructions_executed": tot("insts"),
            "inputs_outside_the_property": tot("rejected"),
            "functions_encoded": len(fn),
            "functions": fn,
            "entries": reports,
            "build_seconds": round(t_build, 1),
        },
        "assumptions": P.get("assumptions", []) + [
            "hash values are modelled as a constant (they only choose a bucket); allocation succeeds; the clock, environment and file system are models",
            "LLVM IR of the dev profile (overflow checks on), optimised with opt -O1, stands for the code; sampled paths are compared with the native build",
        ],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not ONLY:
        with open(os.path.join(ROOT, "evidence", PID + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
    os.remove(ll)
    shutil.rmtree(os.path.join(WORK, "smt"), ignore_errors=True)
    for f in dict.fromkeys(findings):
        print("KNOWN-FINDING: property=%s %s" % (PID, f))
    for u in unconfirmed:
        print("UNCONFIRMED property=%s %s" % (PID, u))
    if violations:
        for p, e, w, obs in violations[:12]:
            print("  %s: %s; input %r" % (e, w, obs[:3]))
        print("VIOLATION property=%s replay=%s" % (PID, os.path.relpath(violations[0][0], ROOT)))
        sys.exit(1)
    for p in problems:
        print("ERROR property=%s %s" % (PID, p))
    if problems or unconfirmed:
        sys.exit(2)
    print("OK property=%s paths=%d queries=%d solver=%.1fs validated=%d wall=%.0fs%s" % (
        PID, tot("paths"), tot("queries"), tot("solver_s"), validated, time.time() - T0,
        "" if ev["coverage"]["exhaustive"] else " (exploration incomplete, see evidence)"))


main()
