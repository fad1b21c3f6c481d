#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from framework import registry  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl")) as source:
    identifiers = [json.loads(line)["id"] for line in source if line.strip()]
manifest = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{"property": name,
                "quick_cmd": "python3 check.py %s --tier quick" % name,
                "thorough_cmd": "python3 check.py %s --tier thorough" % name,
                "evidence_file": "evidence/%s.json" % name,
                "technique": registry.CHECKS[name].technique,
                "level": "exploration",
                "level_note": registry.CHECKS[name].level_note}
               for name in identifiers if name in registry.CHECKS],
    "not_applicable": [{"property": name, "reason": "the check is under construction"}
                       for name in identifiers if name not in registry.CHECKS],
    "notes": "Every check builds what it needs from the working tree of /repo (VERIF_REPO overrides the path for "
             "development) in /verif/.build and removes it. python3 check.py ID --replay FILE replays a violation. "
             "See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
