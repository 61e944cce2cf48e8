#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
HEAD = "Verus obligations generated from the current Go source; "
NOTE = {}
LEVEL = {}
exec(open('/verif/manifest_notes.py').read())
checks = []
for i in range(1, 14):
    p = "C%02d" % i
    checks.append({"property": p, "quick_cmd": "./check.py %s quick" % p, "thorough_cmd": "./check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": TECH[p], "level": LEVEL[p], "level_note": NOTE[p], "theorems": THM[p]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [], "notes": NOTES}, open('/verif/MANIFEST.json', 'w'), indent=1)
