#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from registry.py.
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/.."); sys.path.insert(0, ".")
import registry
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = {}
checks = []
for p in props:
    if p not in registry.CHECKS: continue
    fn, level = registry.CHECKS[p]
    tech, note = registry.DESCR[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p, technique=tech, level=level, level_note=note))
na = [dict(property=p, reason=registry.NOT_APPLICABLE.get(p, "no check yet")) for p in props if p not in registry.CHECKS]
json.dump(dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="No hooks: the monitors interpose on compiler instrumentation and library calls, so /repo is built as it is.", source_commits=[]),
               checks=checks, not_applicable=na, notes="Every check rebuilds its monitors from /repo's working tree into .build/ and removes them. known_findings.txt lists repaired defects and recorded findings."), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
