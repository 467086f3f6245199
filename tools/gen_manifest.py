#!/usr/bin/env python3
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from units import CHECKS
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 run_check.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough python3 run_check.py {i}", evidence_file=f"evidence/{i}.json",
            technique=c.get("technique", "property-based testing with generated cases, shrinking and an independent oracle"),
            level="exploration", level_note=c.get("note", "Generated-input search against an independent oracle; finds violations, does not prove absence. Trusts the oracle code in /verif/harness and floating-point tolerances stated in DESIGN.md.")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 -c 'import units' && g++ --version >/dev/null", checks=checks, not_applicable=na,
         notes="Every check compiles its harness from /repo's working tree and runs generated cases; see DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
