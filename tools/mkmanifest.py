#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "../properties.jsonl"))]
m = dict(
    version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i} --thorough",
                 evidence_file=f"evidence/{i}.json", technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"])
            for i in ids if i in CHECKS],
    not_applicable=[dict(property=i, reason="no check has been built yet") for i in ids if i not in CHECKS],
    notes="Bounded model checking of the real library; see DESIGN.md. The library is built with and without debug assertions; no hooks in /repo are needed. known_findings.txt lists the genuine defects: those that are repaired (fixed:) and those that are only recorded (known:).",
)
json.dump(m, open(os.path.join(here, "../MANIFEST.json"), "w"), indent=1)
