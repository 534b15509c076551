#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif")
from vf.registry import CHECKS, NOTES, NOT_APPLICABLE
TECH = ("TLA+ specification checked with TLC; traces recorded from the real code are replayed through the specification "
        "(conformance), with specification-generated or seeded inputs")
m = {
 "version": 1,
 "setup_cmd": "python3 run.py setup",
 "checks": [],
 "hooks": {"guard": "none", "enable": "no hooks are needed: the harness uses public APIs only", "source_commits": []},
 "not_applicable": NOT_APPLICABLE,
 "notes": "TLA+ / TLC. See DESIGN.md.",
}
for p in CHECKS:
    m["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
      "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "model_checking",
      "level_note": NOTES.get(p, "")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
