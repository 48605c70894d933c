"""P02: single-process graph execution."""
from __future__ import annotations

from .exec_common import run_in_process
from .qgs import index_qg, random_qg
from .vlib import Check


def run(c: Check) -> None:
    inv = ("SPECIFICATION Spec\nINVARIANTS AtMostOnce UpstreamOK Independence OneLine RaisesIffFailed FailFastStops\n"
           "CHECK_DEADLOCK FALSE\n")
    c.model("MCInProc", f"CONSTANTS N = 3\n Gen = FALSE\n{inv}PROPERTY Terminates\n", name="InProc N=3 + liveness")
    if c.thorough:
        c.model("MCInProc", f"CONSTANTS N = 4\n Gen = FALSE\n{inv}", name="InProc N=4", workers="4")
    rng = c.rng
    recs = []
    for g in range(c.scale(25, 120)):
        qg = random_qg(rng, rng.randint(2, 5), p_edge=rng.choice([0.3, 0.6, 0.9]))
        idx, edges = index_qg(qg)
        old = None
        for s in range(c.scale(30, 120)):
            pf = rng.choice([0.0, 0.15, 0.4])
            kinds = rng.choice([["fail"], ["fail", "repeatable"], ["fail", "repeatable", "invalid"]])
            outcomes = {i: rng.choice(kinds) for i in idx.values() if rng.random() < pf}
            noreport = [i for i in idx.values() if rng.random() < 0.1] if rng.random() < 0.2 else []
            graph = None
            if s % 10 == 9:
                old = old or qg.to_old_quantum_graph()
                graph = old
            recs.append(run_in_process(qg, idx, edges, outcomes, rng.random() < 0.3, noreport, graph=graph))
    c.judge("InProc", recs, kind="in-process execution traces", chunk=300)
