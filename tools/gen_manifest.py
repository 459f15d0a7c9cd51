#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that pv/src/main.rs dispatches."""
import json, re
V = '/verif'
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
main = open(f'{V}/pv/src/main.rs').read()
have = set(re.findall(r'"(C\d\d)" =>', main))
TECH = json.load(open(f'{V}/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": f"bash tools/check.sh {i}", "thorough_cmd": f"bash tools/check.sh {i} --thorough",
            "technique": t['technique'], "level": "model_checking", "level_note": t['note'], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get('na', 'no check has been built for this property yet, so it is not claimed')})
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
    "notes": "All checks are one Rust binary (pv/) with path dependencies on /repo; tools/check.sh rebuilds it from /repo's working tree and runs one property. "
             "No hooks are used in /repo. Known findings and repaired defects are in known_findings.jsonl. Replay a violation with tools/check.sh <ID> --replay <file>."},
    open(f'{V}/MANIFEST.json', 'w'), indent=1)
