"""P18: composing and editing pipeline definitions."""
from __future__ import annotations

import random
import warnings

from .vlib import Check

CFG = ("SPECIFICATION Spec\nCONSTANTS MaxOps={n}\nINVARIANTS AlwaysValid ImportAll Dual Spelled Twice SameValues Renamed\n"
       "CHECK_DEADLOCK FALSE\n")


def job(args):
    seed, n, nops = args
    warnings.simplefilter("ignore")
    import logging

    from . import pl_common as L

    logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)
    rng = random.Random(seed)
    return [L.play(rng, rng.randint(0, nops)) for _ in range(n)]


def records(c: Check, n: int, nops: int):
    recs = [r for rs in c.pmap(job, [(f"{c.pid}:{c.seed}:{i}", n, nops) for i in range(16)]) for r in rs]
    kinds: dict = {}
    for r in recs:
        k = "load " + (r["loaded"]["outcome"][0] if r["loaded"]["outcome"] else "ok")
        kinds[k] = kinds.get(k, 0) + 1
        for o, h in zip(r["ops"], r["hist"]):
            k = o["op"] + " " + (h["outcome"][0] if h["outcome"] else "ok")
            kinds[k] = kinds.get(k, 0) + 1
    c.notes["outcomes"] = kinds
    return recs


def run(c: Check) -> None:
    c.model("MCPipelines", CFG.format(n=c.scale(1, 2)), name="all short histories of small pipelines")
    c.judge("Pipelines", records(c, c.scale(90, 600), 7), op="DefVerdict", kind="pipelines", chunk=60)
