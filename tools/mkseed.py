#!/opt/venv/bin/python
"""Development tool: create seeded/<id> from a spec file with old/new text and a demo."""
import json, os, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent


def mk(id, prop, needs, breaks, edits, demo):
    c = f"/tmp/mkseed-{os.getpid()}"
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
    for f, old, new in edits:
        p = Path(c) / "python/lsst/pipe/base" / f
        s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    own = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--author=verif"], capture_output=True, text=True).stdout.split())
    own |= set(subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix: "], capture_output=True, text=True).stdout.split())
    for f in {e[0] for e in edits}:
        f = "python/lsst/pipe/base/" + f
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", f], capture_output=True, text=True).stdout.splitlines()
        hunks = subprocess.run(["git", "-C", c, "diff", "-U0", f], capture_output=True, text=True).stdout.splitlines()
        for h in hunks:
            if h.startswith("@@"):
                a, _, n = h.split()[1][1:].partition(",")
                for k in range(int(a), int(a) + (int(n) if n else 1)):
                    assert blame[k - 1].split()[0].lstrip("^") not in own, (id, f, k, "line from one of our commits")
    diff = subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True, check=True).stdout
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1))
    (d / "demo.sh").write_text('#!/bin/bash\n# Run with cwd at the root of the repository.\nexport PYTHONPATH="$PWD/python" '
                               'PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    (d / "demo.py").write_text(demo.lstrip("\n"))
    shutil.rmtree(c)
    print("made", id)
