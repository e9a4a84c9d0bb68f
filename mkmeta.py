#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and table.py."""
import json
from pathlib import Path
from meta import P
from table import CHECKS

V = Path(__file__).resolve().parent
assert sorted(P) == sorted(CHECKS), set(P) ^ set(CHECKS)
with open(V / "properties.jsonl", "w") as f:
    for k in sorted(P):
        x = P[k]
        assert len(x["title"]) <= 80, k
        f.write(json.dumps(dict(
            id=k, title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["quant"]),
            why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                         hook_needed=None)), ensure_ascii=False) + "\n")
manifest = dict(
    version=1,
    setup_cmd="python3 setup.py",
    checks=[dict(property=k, quick_cmd=f"python3 check.py {k} --tier quick",
                 thorough_cmd=f"python3 check.py {k} --tier thorough",
                 technique=P[k]["technique"], level="exploration", level_note=P[k]["note"])
            for k in sorted(P)],
    not_applicable=[],
    notes="Harnesses are compiled into /repo's module through a build overlay; nothing is written below /repo. See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")
