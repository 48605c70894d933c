#!/opt/venv/bin/python
"""Development tool: validate planted bugs in scratch copies of /repo.

mut.py [--no-tests] [--no-check] [-j N] ID...   (IDs are directories in seeded/)
"""
import argparse, concurrent.futures, json, os, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--props", help="also run these checks (comma separated)")
a = ap.parse_args()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=1200):
    e = {**os.environ, **(env or {}), "PYTHONDONTWRITEBYTECODE": "1"}
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(i):
    d = V / "seeded" / i
    c = Path(f"/tmp/mut-{i}-{os.getpid()}")
    res = {"id": i}
    try:
        subprocess.run(["cp", "-a", "/repo", str(c)], check=True)
        prop = json.load(open(d / "meta.json"))["property"]
        rc, out = sh(["bash", str(d / "demo.sh")], c, timeout=300)
        res["demo_clean"] = rc
        if rc:
            res["demo_clean_out"] = out[-1500:]
        rc, out = sh(["git", "apply", str(d / "patch.diff")], c)
        if rc:
            res["apply"] = out
            return res
        rc, out = sh(["bash", str(d / "demo.sh")], c, timeout=300)
        res["demo_bug"] = rc
        if not a.no_tests:
            env = {"PYTHONPATH": f"{c}/python", "PYTHONHASHSEED": "0"}
            sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300",
                "-o", "junit_family=xunit2", f"--junitxml={c}/junit.xml", "tests"], c, env)
            sh(["/usr/bin/python3", "/opt/vp/results.py", f"{c}/res.json", f"junit:{c}/junit.xml"], c)
            r = json.load(open(c / "res.json"))
            res["tests_broken"] = sorted(STABLE - set(r["passed"]))[:5]
        if not a.no_check:
            for p in [prop] + (a.props.split(",") if a.props else []):
                out_dir = c / "vout"
                out_dir.mkdir(exist_ok=True)
                t = time.time()
                rc, out = sh([str(V / "check.py"), p], V, {"VERIF_DEV_REPO": str(c), "VERIF_DEV_OUT": str(out_dir),
                                                          "VERIF_SEED": "1"})
                res[p] = {"rc": rc, "caught": f"VIOLATION property={p}" in out, "s": round(time.time() - t),
                          "out": out[-300:]}
        return res
    finally:
        shutil.rmtree(c, ignore_errors=True)


ids = a.ids or sorted(p.name for p in (V / "seeded").iterdir() if p.is_dir())
with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(one, ids):
        print(json.dumps(r), flush=True)
