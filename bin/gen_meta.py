"""Writes properties.jsonl and MANIFEST.json from properties.py (run by hand)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import properties as P

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
  for p in P.PROPS:
    fh.write(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": [p["over"]], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")

checks = []
for p in P.PROPS:
  if p.get("na"):
    continue
  i = p["id"]
  checks.append({
      "property": i,
      "quick_cmd": f"/opt/venv/bin/python bin/check.py {i} --tier quick",
      "thorough_cmd": f"/opt/venv/bin/python bin/check.py {i} --tier thorough",
      "technique": "contract-based deductive verification of the real source (symbolic weakest-precondition style "
                   "execution, inductive loop summaries, z3/cvc5), counterexamples replayed on the real code",
      "level": "proof", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python bin/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P.PROPS if p.get("na")]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P.PROPS), "properties,", len(checks), "checks")
