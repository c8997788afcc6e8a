#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from the entries below,
the findings file and the planted changes under seeded/ (results in
tools/catches.json, kept by tools/seeds.py)."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, design, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, tech=tech, note=note, design=design, state=state or [], observe=observe or []))


for f in sorted(glob.glob(V + "/tools/props/P*.py")):
    exec(compile(open(f).read(), f, "exec"))

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(V + "/properties.jsonl", "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")

checks = []
for p in P:
    assert glob.glob(V + "/harness/vh/p%s_*.go" % p["id"][1:]), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "./run.py %s" % p["id"],
                   "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the monitors observe through the public API of the packages, in a build overlay."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")

# DESIGN.md
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in P:
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", p["design"].strip(), ""]
out += ["## Findings", "",
        "Genuine defects found by these checks (`known_findings.txt`; `fixed` entries were repaired by the named commit and suppress nothing):", ""]
for l in open(V + "/known_findings.txt"):
    l = l.strip()
    if l and not l.startswith("#"):
        out.append("- " + l)
out += ["", "## Planted changes", ""]
cf = V + "/tools/catches.json"
catches = json.load(open(cf)) if os.path.exists(cf) else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    c = catches.get(n)
    out.append("- `%s` (%s): %s Needs: %s. %s" % (
        n, m["property"], m["what_it_breaks"].rstrip(".") + ".", m["needs"].rstrip("."),
        "Result: " + c + "." if c else "Not run yet."))
out += ["", open(V + "/tools/design_tail.md").read().rstrip() if os.path.exists(V + "/tools/design_tail.md") else ""]
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
print(len(P), "properties")
