#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and specs.py.
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from specs import SPECS
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                           technique=s.get("technique", "property-based testing against a reference model"), level="exploration", level_note=s["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="One engine (harness/engine), one harness per property; every check rebuilds library and harness from /repo's working tree with sanitizers. See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
