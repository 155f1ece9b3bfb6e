#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from tools/props.py and the harness files that exist.
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(here, "tools"))
from props import P
try:
    from claims import NA, NOTES
except ImportError:
    NA, NOTES = {}, {}
have = set()
for f in glob.glob(os.path.join(here, "harness", "c*.go")):
    have.add("C" + re.match(r"c(\d+)", os.path.basename(f)).group(1))
with open(os.path.join(here, "properties.jsonl"), "w") as o:
    for q in P:
        n = [x for x in q["statement"].split(". ") if x]
        assert len(q["title"]) <= 80, q["id"]
        assert len(n) <= 3, (q["id"], len(n))
        o.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))) + "\n")
GEN = ("Bounded: every value of the symbolic inputs within the sizes stated in DESIGN.md and evidence is decided by the SMT solver "
       "over the SSA of /repo's current source; every counterexample is replayed on the natively compiled code before it is reported. "
       "Trusts the SSA interpreter, its standard-library models (validated by native trace replay in each run) and the solver.")
checks, na = [], []
for q in P:
    i = q["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique="bounded symbolic execution of the Go SSA with an SMT solver (z3), counterexamples replayed natively",
            level="model_checking", level_note=(NOTES.get(i, "") + " " + GEN).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no harness yet: work in progress")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="See DESIGN.md. Known findings: KNOWN_FINDINGS.txt."), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in checks]); print("na", [n["property"] for n in na])
