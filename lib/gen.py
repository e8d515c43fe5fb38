"""Writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS
from notapp import NOT_APPLICABLE, EXTRA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as h:
    recs = [(k, p) for k, p in PROPS.items()] + [(k, p) for k, p in EXTRA.items()]
    for pid, p in sorted(recs):
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])]
        a["observe_at"] = p.get("observe") or ["the library's public API"]
        a["hook_needed"] = p.get("hook")
        h.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, pid
checks = []
for pid, p in sorted(PROPS.items()):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "technique": p["technique"] or "symbolic execution of the compiled code (LLVM IR), assertions and branches decided by Z3, against a reference interpreter executed on the same symbolic input",
        "level": "model_checking",
        "level_note": p["note"] or "All inputs within the stated bounds (see the evidence file): each path of the real code is executed once with symbolic bytes, and the solver decides whether any input of the path violates an assertion. Trusts Z3 (a sample of queries is repeated with two other solvers), the executor (a sample of paths is replayed natively), and the reference interpreter.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "--cfg hastur_verif", "enable": "RUSTFLAGS='--cfg hastur_verif' (set by lib/pipeline.py)", "source_commits": ["be16ad3"]},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": r} for k, r in NOT_APPLICABLE.items()],
    "notes": "See DESIGN.md. known_findings.txt lists the defects found and repaired (fixed:) and those recorded (finding:).",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")

# DESIGN.md: fixed text, one section per property, table of planted changes
ORACLE = {
    "C01": "none needed: absence of panics, memory errors, overflow, non-termination",
    "C13": "lookups recorded by the reference interpreter; noninterference of two runs",
    "C14": "the position of every source character, tracked while the text is built",
    "C15": "the plain string with the same text, its std operations written out byte by byte",
    "C16": "text, locations and sensitivity of the original span",
    "C17": "the same texts read by a fresh engine",
    "C18": "a list of (text, name) pairs",
    "C19": "order on (line, character) written out; order axioms on triples",
    "C21": "a list of the nodes written while the tree is built",
    "C25": "the database before, compared with the database after expansion",
    "C27": "a recursive-descent parser of references and calls on plain bytes (harness/src/h/tree.rs)",
}
o = open(os.path.join(ROOT, "lib", "design_head.md")).read()
for pid, p in sorted(PROPS.items()):
    o += "### %s %s\n\n%s\n\n" % (pid, p["title"], p["statement"])
    o += "*Why tests cannot:* %s\n" % p["why"]
    o += "*Symbolic:* %s. *Oracle:* %s.\n" % (p["text"], ORACLE.get(pid, "the reference interpreter (refmake.rs)"))
    o += "*Bounds* (each entry decides all inputs of its domain; T: thorough tier only):\n\n"
    for k, v in p["entries"].items():
        o += "* `%s`%s: %s\n" % (k, "" if v["quick"] else " (T)", v["domain"])
    o += "\n*Outside:* %s.\n\n" % p["outside"]
o += open(os.path.join(ROOT, "lib", "design_tail.md")).read()
t = os.path.join(ROOT, "lib", "matrix.txt")
rows = {}
if os.path.exists(t):
    for l in open(t):
        f = l.split()
        if len(f) >= 3:
            rows[f[0]] = (f[1], f[2])
o += "| change | property | needs | result |\n|---|---|---|---|\n"
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    r = rows.get(d, (m["property"], "?"))[1]
    o += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " "), {"rc=1": "caught", "rc=0": "missed"}.get(r, r))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as h:
    h.write(o)
