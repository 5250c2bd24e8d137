#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from manifest_notes import CLAIMED, NOT_APPLICABLE, NOTES, TECH
os.chdir("/verif")
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for pid in props:
    if pid in CLAIMED:
        level, note = CLAIMED[pid]
        checks.append({"property": pid, "quick_cmd": "python3-vt run.py " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py " + pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECH,
                       "level": level, "level_note": note})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "machinery for this property is not built yet")} for p in props if p not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
