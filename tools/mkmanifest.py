"""Regenerates MANIFEST.json from properties.jsonl and the rule registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks.registry import CHECKS, TECH

NA = {
    "C30": "termination depends on how a loop over a runtime graph shrinks it (and bare cycles do hang); no static argument in reach bounds it",
    "C26": "equality of floating point segment-intersection results with geometry is a numerical property of runtime coordinates",
    "C29": "equivalence of a graph with its re-imported numbering is a round trip over unbounded nesting produced by runtime string arithmetic; its per-row and per-gateway clauses are claimed separately as C16 and C17",
}
NOTE = ("Path- and heap-sensitive abstract interpretation of the real source; each obligation is decided for all "
        "strings and (where marked with a segment) any number of elements. Trusts the models of the third-party "
        "libraries in sa/lib.py and the abstract document in sa/docs.py; obligations the engine cannot decide are reported "
        "as undecided in the evidence and not claimed.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 -m sa.check %s --tier quick" % i,
                       "thorough_cmd": "python3 -m sa.check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, "abstract interpretation (gated value-flow)"), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sa.check\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks are pure-Python static analysis; nothing of /repo is executed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "n/a")
