#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
from registry import CHECKS, CPP_NOTE, PY_NOTE
props = [json.loads(l) for l in (HERE.parent / "properties.jsonl").read_text().splitlines()]
ids = [p["id"] for p in props]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
                       technique=c["technique"], level="exploration", level_note=c.get("level_note", CPP_NOTE if c["kind"] == "cpp" else PY_NOTE)))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in CHECKS],
         notes="No hooks are needed in /repo. DESIGN.md describes each check; known_findings.txt lists findings and repairs.")
(HERE.parent / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
