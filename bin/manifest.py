#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {
        "guard": "RFX_VERIF",
        "enable": "bin/build.py compiles /repo/src with -DRFX_VERIF (zones between the encoder's work buffers, registered with the harness)",
        "source_commits": ["f96be579b2968cdbbbee79e66c690f1591e4c8ea"],
    },
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 bin/run.py %s --tier quick" % p,
            "thorough_cmd": "python3 bin/run.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": s["technique"],
            "level": s["level"],
            "level_note": s["note"] + (" Assumes: " + "; ".join(s["assumptions"]) + "." if s.get("assumptions") else ""),
        }
        for p, s in sorted(SPECS.items())
    ],
    "not_applicable": [],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
