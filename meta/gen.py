#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(props, "NOT_APPLICABLE", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["obs"], "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "symbolic execution of the compiled LLVM IR with z3 deciding every branch and assertion; counterexamples replayed natively",
                   "level": "model_checking",
                   "level_note": "Bounded: holds for every value of the symbolic inputs within the bounds of each harness entry (sizes, steps; see the evidence file and DESIGN.md); nothing is claimed beyond them. Trusts rustc's IR, the executor in symx/ (every explored path is replayed natively and compared) and z3."})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the harness crate uses only the public API", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "See DESIGN.md. fix: commits in /repo are listed in known-findings.txt."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")


# DESIGN.md = meta/design.md + tables
import re
out = [open(os.path.join(V, "meta/design.md")).read().rstrip(), "", "## Entries", "", "| property | entry | bounds |", "|---|---|---|"]
for p in PROPS:
    src = open(os.path.join(V, "harness/src", p["id"].lower() + ".rs")).read()
    for m in re.finditer(r'(p\d\d_\w+), covers = \d+, bounds = "((?:[^"\\\\]|\\\\.)*)"', src):
        out.append(f"| {p['id']} | `{m.group(1)}` | {m.group(2).replace('|', chr(92) + '|')} |")
notes = {}
for l in open(os.path.join(V, "meta/caught.txt")):
    k, _, v = l.strip().partition(" ")
    if k:
        notes[k] = v
out += ["", "## Planted bugs", "", "Each in `seeded/<id>/`, written from property text and code, confirmed to pass the repository's tests and to fail its own demonstration.",
        "'caught' means that the quick check of its property exits 1 with a VIOLATION line.", "", "| bug | property | needs | what it breaks | result |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    j = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    out.append(f"| {b} | {j['property']} | {j['needs']} | {j['what_it_breaks']} | {notes.get(b, 'caught')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
