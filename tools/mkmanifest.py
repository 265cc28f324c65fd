"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "contracts + loop invariants on the real functions, discharged path by path by a deductive verifier (symbolic execution of the instrumented source, language decision procedure, z3/cvc5)"
BASE = ("Every obligation is generated from /repo's current source on each run and discharged for all inputs in the contract's "
        "precondition; contracts with a stated bound are counted apart as bounded in the evidence. Trusted: CPython's control flow, the "
        "instrumentation and symbolic value models in engine/, z3/cvc5, the assumed dependency contracts named in the evidence. ")
NOTE = {}
LEVEL = {}
exec(open(V + "/tools/notes.py").read())
have = {f[:-3].upper() for f in os.listdir(V + "/contracts") if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} --tier quick", "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": LEVEL.get(i, "proof"),
                       "level_note": BASE + NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract built for it yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: instrumentation happens at import time inside the checker (engine/transform.py, engine/loader.py)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
