#!/opt/venv/bin/python
"""Run the check of one property: check.py P01 [--tier quick|thorough]."""

import argparse
import os
import sys

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
if os.environ.get("VERIF_CHILD") is None:
    os.environ["VERIF_CHILD"] = "1"
    os.environ["PYTHONHASHSEED"] = str(int(os.environ.get("VERIF_SEED", "1")) % 1000)
    pp = os.environ.get("VERIF_DEV_REPO", "/repo") + "/python"
    if os.environ.get("PYTHONPATH"):
        pp += ":" + os.environ["PYTHONPATH"]
    os.environ["PYTHONPATH"] = pp
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__mp_main__":  # a process spawned by the code under test
    import harness.zipfix  # noqa: F401


def main() -> int:
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = p.parse_args()
    from harness.vlib import MachineryError, run_check

    try:
        return run_check(a.property, a.tier, a.seed)
    except MachineryError as exc:
        print(f"MACHINERY ERROR: {exc}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
