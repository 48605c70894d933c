"""P03: multi-process graph execution."""
from __future__ import annotations

import json
import os
import subprocess
import sys

from .exec_common import run_mp_sim
from .qgs import index_qg, random_qg
from .vlib import VERIF, Check, CodeError


def run(c: Check) -> None:
    inv = ("SPECIFICATION Spec\nINVARIANTS PoolBound DepOrder NoFalseBlock OneLine AllAccounted RaisesIffFailed "
           "FailureDominates\nCHECK_DEADLOCK FALSE\n")
    c.model("MCMpExec", f"CONSTANTS N = 3\n P = 2\n{inv}PROPERTY Terminates\n", name="MpExec N=3 P=2 + liveness")
    if c.thorough:
        c.model("MCMpExec", f"CONSTANTS N = 4\n P = 2\n{inv}", name="MpExec N=4 P=2", workers="4", timeout=3000)
    errfile = open(c.scratch / "mpreal.err", "w+")
    real = subprocess.Popen([sys.executable, "-m", "harness.mpreal", str(c.seed), c.tier], cwd=VERIF,
                            stdout=subprocess.PIPE, stderr=errfile, text=True)
    rng = c.rng
    recs = []
    for g in range(c.scale(25, 120)):
        qg = random_qg(rng, rng.randint(2, 5), p_edge=rng.choice([0.3, 0.6, 0.9]))
        idx, edges = index_qg(qg)
        for s in range(c.scale(25, 100)):
            timeout = rng.choice([1000.0, 30.0])
            pf = rng.choice([0.0, 0.15, 0.4])
            plans = {}
            for i in idx.values():
                kind = "ok"
                if rng.random() < pf:
                    kind = rng.choice(["fail", "fail", "repeatable", "segv"] + (["invalid"] if s % 4 == 0 else []))
                dur = rng.choice([0.02, 0.3, 1.0, 3.0, rng.random() * 5])
                on_term = rng.choice(["die", "die", "ignore", "finish"])
                if timeout == 30.0 and rng.random() < 0.25:
                    dur = rng.choice([None, 31.5, 60.0, 29.9, 30.2])
                if rng.random() < 0.05 and kind in ("fail", "repeatable"):
                    kind = "big" + kind
                plans[i] = {"dur": dur, "kind": kind, "on_term": on_term}
            recs.append(run_mp_sim(qg, idx, edges, plans, rng.random() < 0.3, rng.randint(2, 4), timeout))
    c.judge("MpExec", recs, kind="pool execution traces (simulated processes)", chunk=300)
    out, _ = real.communicate(timeout=600)
    errfile.seek(0)
    err = errfile.read()
    lines = [ln[4:] for ln in out.splitlines() if ln.startswith("@@@ ")]
    if real.returncode != 0 or not lines:
        raise CodeError(f"real-process driver failed: {err[-2000:]}")
    c.judge("MpExec", [json.loads(x) for x in lines], kind="pool execution traces (real processes)")
