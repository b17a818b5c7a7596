#!/usr/bin/env python3
"""Writes MANIFEST.json from the table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="sh tools/setup.sh",
         hooks=dict(guard="none: no hook is added to /repo", enable="the checks build /repo's crates unchanged, as path dependencies of /verif/vc", source_commits=[]),
         checks=[dict(property=p, quick_cmd=f"python3 tools/check.py {p}", thorough_cmd=f"python3 tools/check.py {p}",
                      evidence_file=f"evidence/{p}.json", technique=c.get("technique", "contracts on the real functions, discharged by Kani/CBMC on the compiled source"),
                      level=c.get("level", "proof"), level_note=c["note"]) for p, c in table.CHECKS.items()],
         not_applicable=[dict(property=p, reason=table.NOT_APPLICABLE.get(p, "no obligation stated yet")) for p in ids if p not in table.CHECKS],
         notes="See DESIGN.md. Evidence lists every bounded contract with its bound; those are never counted as discharged.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
