#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; traces recorded from the real crate (scripts generated by TLC and by a seeded generator) validated against it"
NOTE = ("The design is model-checked exhaustively within the bounds in DESIGN.md; the code is bound to it by trace validation: every recorded "
        "public call must be a step the specification allows. Holds for the executions explored, not for all inputs. Trusts TLC, "
        "the driver's recording of arguments and responses, and the exact weight encoding.")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "cfg fast_paths_verif",
        "enable": "RUSTFLAGS='--cfg fast_paths_verif' when building the driver crate /verif/driver (only the check of C06 needs it, and it falls back to a build without)",
        "source_commits": ["6f184ea"],
    },
    "checks": [
        {"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
         "thorough_cmd": "python3 check.py %s --tier thorough" % p,
         "technique": d.get("technique", TECH), "level": "model_checking",
         "level_note": d.get("note", NOTE)} for p, d in sorted(PLAN.items())],
    "not_applicable": [],
    "notes": "Language: TLA+ with TLC. See DESIGN.md.",
}
import subprocess
try:
    m["hooks"]["source_commits"] = [subprocess.check_output(["git", "-C", "/repo", "rev-parse", c], text=True).strip() for c in m["hooks"]["source_commits"]]
except Exception:
    pass
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
