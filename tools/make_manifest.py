#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/checks and the notes below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
TECH = json.load(open(root + '/tools/techniques.json'))
NA = {
 "C31": "Every multibody model needs the rigid-body library pinocchio, which is not installed here and cannot be fetched; no executable check can be compiled or run.",
 "C32": "The code-generation classes need CppAD/CppADCodeGen, which are not installed here and cannot be fetched; no executable check can be compiled or run.",
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{root}/harness/checks/{i}.cpp') and i in TECH:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check under construction; not claimed yet.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the pinocchio-free library from /repo's working tree into /verif/build (ignored) and drives it with generated, shrinking cases. No hooks in /repo. Genuine defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
