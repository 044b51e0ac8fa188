#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + "/harness/h/*.go"):
    have |= set(re.findall(r"^func (C\d\d)_", open(f).read(), re.M))
NOTE = {
 'default': "Every path of the encoded functions within the bounds listed in the evidence is decided by the solver; counterexamples are replayed on the natively compiled code before they are reported. Trusted: the Go SSA builder, the engine's memory and arithmetic encoding (cross-checked by replaying path witnesses natively on every run), z3, and the models of library code listed in DESIGN.md.",
}
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p['id']
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": "symbolic execution of the Go SSA of /repo, decided by SMT (z3), counterexamples replayed natively",
          "level": "model_checking", "level_note": NOTE.get(i, NOTE['default'])})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo; scheduling points for the pool checks are inserted by a build overlay generated at check time."},
  open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
