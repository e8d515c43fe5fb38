"""Makes a planted change from its description and confirms it.
   plant.py FILE.py [ID...]   (FILE defines BUGS: id -> dict(prop, edits, body, needs, breaks))"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
BASE = "4b802ef"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    e = dict(os.environ, CARGO_TARGET_DIR=WT + "/target", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTFLAGS="-A semicolon_in_expressions_from_macros", CARGO_TERM_COLOR="never")
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/wt.log 2>&1; python3 /opt/vp/results.py /tmp/wt.json cargo:/tmp/wt.log", cwd=WT, env=e)
    if not os.path.exists("/tmp/wt.json"):
        return None, r.stdout
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open("/tmp/wt.json"))["passed"])
    os.remove("/tmp/wt.json")
    return sorted(want - got), ""


def demo(d):
    # demo files elsewhere, without diff and meta
    t = "/tmp/demo_dir"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("timeout 300 bash %s/demo.sh" % t, cwd=WT)
    shutil.rmtree(t)
    return r.returncode, r.stdout


def plant(name, b):
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=WT)
    d = os.path.join(ROOT, "seeded", name)
    os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write(open(ROOT + "/tools/prelude.rs").read() + "fn main() {\n" + b["body"].strip("\n") + "\n}\n")
    shutil.copy(ROOT + "/tools/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)

    def bad(why):
        print("%s: %s" % (name, why))
        shutil.rmtree(d)
        sh("git checkout -q -- .", cwd=WT)
        return False

    rc, out = demo(d)
    if rc != 0:
        return bad("demo fails on the unchanged tree: " + out[-1500:])
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            return bad("%d matches of %r in %s" % (s.count(old), old, f))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    orig = False
    for f in {e[0] for e in b["edits"]}:
        blame = sh("git blame -s HEAD -- " + f, cwd=WT).stdout.splitlines()
        n = None
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1))
            elif n is not None and cur == f and l[:1] in " -" and not l.startswith("---"):
                if l[0] == "-" and blame[n - 1].lstrip("^").startswith(BASE[:7]):
                    orig = True
                n += 1
    if not orig:
        return bad("changes no original line")
    missing, out = tests()
    if missing is None or len(missing) > 20:
        return bad("does not build: " + sh("grep -A8 '^error' /tmp/wt.log | head -40").stdout)
    if missing:
        return bad("fails tests %s" % missing[:4])
    rc, out = demo(d)
    sh("git checkout -q -- .", cwd=WT)
    if rc == 0:
        return bad("demo does not fail with the change")
    print("%s: good (demo: %s)" % (name, out.strip().replace("\n", "/")[-200:]))
    return True


ns = {}
exec(open(sys.argv[1]).read(), ns)
for k, b in ns["BUGS"].items():
    if len(sys.argv) > 2 and k not in sys.argv[2:]:
        continue
    if len(sys.argv) == 2 and os.path.exists(os.path.join(ROOT, "seeded", k, "patch.diff")):
        continue
    plant(k, b)
