#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import TABLE, TECHNIQUE, NOTE, DEFAULT_NOTE
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": TECHNIQUE[p],
        "level": TABLE[p]["level"],
        "level_note": NOTE.get(p, DEFAULT_NOTE),
    } for p in sorted(TABLE)],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API. `python3 check.py <id> --replay <file>` runs a recorded violation again.",
}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
