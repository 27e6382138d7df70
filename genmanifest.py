#!/usr/bin/env python3
# Regenerates MANIFEST.json from checks.json and properties.jsonl.
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open('checks.json'))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = cfg['properties'].get(p['id'])
    if not c or c.get('disabled'):
        m['not_applicable'].append({"property": p['id'], "reason": (c or {}).get('disabled') or "no check built yet"})
        continue
    m['checks'].append({
        "property": p['id'], "quick_cmd": "./check.sh %s quick" % p['id'], "thorough_cmd": "./check.sh %s thorough" % p['id'],
        "evidence_file": "evidence/%s.json" % p['id'],
        "technique": "symbolic execution of the real code (go/ssa, regenerated per run) with z3 deciding every assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": c.get('note') or "Holds for every input within the bounds stated in DESIGN.md and the evidence file; trusts the symbolic engine (each run cross-checks sampled paths against the native build), z3, and the modelled standard-library calls."})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
