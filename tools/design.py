"""Writes DESIGN.md from tools/DESIGN.in.md, known-findings.json and seeded/*/meta.json."""
import json, pathlib, re

root = pathlib.Path(__file__).resolve().parent.parent
text = (root / "tools/DESIGN.in.md").read_text()
fixed = json.loads((root / "known-findings.json").read_text())["fixed"]
by = {}
for line in fixed:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
    by.setdefault(m[1], []).append(f"{m[3]} ({m[2]})")
text = text.replace("@FIXED@", "\n".join(f"* **{p}** " + "; ".join(by[p]) + "." for p in sorted(by)))
caught = json.loads((root / "tools/seeded.json").read_text()) if (root / "tools/seeded.json").exists() else {}
rows = ["| Id | Property | What it breaks | What it needs | Caught by |", "|---|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()) if (root / "seeded").exists() else []:
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d.name, m['property'])} |")
text = text.replace("@SEEDS@", "\n".join(rows)).replace("@MORE@\n", "")
(root / "DESIGN.md").write_text(text)
