#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = json.load(open('/verif/tools/techniques.json'))
checks = [dict(property=i, quick_cmd=f"bash /verif/check.sh {i} quick", thorough_cmd=f"bash /verif/check.sh {i} thorough",
               technique=t[0], level="exploration", level_note=t[1]) for i, t in sorted(TECH.items())]
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
         hooks=dict(guard="--cfg dnssec_verif (RUSTFLAGS)", enable="RUSTFLAGS='--cfg dnssec_verif' cargo build; check.sh does so",
                    source_commits=["b6af41d"]),
         checks=checks, not_applicable=[],
         notes="Findings and repairs: known_findings.txt. Which checks catch which planted changes: DESIGN.md.")
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
