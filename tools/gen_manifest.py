"""Writes MANIFEST.json from the table below and harness/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import props

TRACE = ("TLA+ specification of the protocol; executions of the code in all forks are recorded step by step "
         "and validated against the specification by TLC")
TECH = {}
NOTE_EVM = ("Every recorded execution is checked by TLC, step by step and for its outcome, against tla/EVM.tla and tla/Block.tla; "
            "scenarios are generated around the property's boundaries with a seed, for each of the 18 forks it concerns. "
            "Trusted: TLC, the Java overrides of arithmetic and hashing, the recorder. Not exhaustive over inputs.")
NOTES = {}
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read())

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if p in props.PARTS:
        checks.append(dict(property=p, quick_cmd="./check %s" % p, thorough_cmd="./check %s --tier thorough" % p,
                           technique=TECH.get(p, TRACE), level="model_checking", level_note=NOTES.get(p, NOTE_EVM)))
    else:
        na.append(dict(property=p, reason=NA.get(p, "Not claimed yet: its specification module is not finished.")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness observes through the public trace interface and by calling the code's own functions.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
