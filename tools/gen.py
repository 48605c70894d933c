#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from properties import NOT_APPLICABLE, PROPS  # noqa: E402

root = HERE.parent
with open(root / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        out = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(out) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.py {i} --tier quick",
        "thorough_cmd": f"./check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": p["technique"],
        "level": p.get("level", "model_checking"),
        "level_note": p["level_note"],
    })
man = {
    "version": 1,
    "setup_cmd": "./tools/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are compiled into /repo; the drivers use public interfaces and "
              "substitute standard-library and dependency calls only", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
(root / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(PROPS), "properties,", len(checks), "checks")
