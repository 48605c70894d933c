"""P12: failures while aggregating are reported, end the run cleanly, and can be recovered from."""
from __future__ import annotations

import logging
import os
import random
import shutil
import warnings

from . import zipfix  # noqa: F401
from .p11 import CFG, PCFG, one_run, random_cfg, real_job
from .vlib import Check

CALLS = ["get", "stored", "import", "records", "write", "finalwrite"]


def random_fault(rng, n_workers, processes, promise):
    kind = rng.choices(["raise", "exitat", "sigkill", "interrupt", "start", "death"],
                       [6, 3, 3, 3, 1, 4 if processes else 0])[0]
    f = {"kind": kind, "at": 1}
    if kind in ("raise", "exitat"):
        f["who"] = rng.choice(CALLS)
        f["at"] = 1 if f["who"] == "finalwrite" else rng.choice([1, 1, 2, 3, 5, 8])
        f["after"] = rng.random() < 0.5
    elif kind == "sigkill":
        f["at"] = rng.randint(1, 300)
    elif kind == "interrupt":
        f["at"] = rng.randint(1, 60)
    elif kind == "start":
        f["at"] = rng.randint(1, n_workers)
    else:
        f["who"] = rng.choice(["writer", "ingester", *(f"scanner-00{i}" for i in range(processes))])
        f["at"] = rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55])
    return f


def job(args):
    seed, cases, schedules = args
    if schedules is None:
        rng = random.Random(seed)
        who = rng.choice(["writer", "ingester", "scanner-000", "scanner-001"])
        return real_job(seed, cases, {"kind": "realdeath", "who": who, "at": rng.choice([0.1, 0.3, 0.6])})
    from . import agg_common as A

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    recs = []
    prep = A.Prepared(rng, rng.randint(1, 3))
    try:
        prep.init_outputs(1.0)
        before = []
        if rng.random() < 0.3:
            prep.pass_over(cases, 0.4)
            recs0 = one_run(prep, prep.root, random_cfg(rng, prep.root, incomplete=True), before, rng)
            before = recs0["repo"]["ingested"]
        prep.pass_over(cases, rng.choice([0, 0.2]))
        for sch in schedules:
            root = A.copy_root(prep)
            try:
                cfg = random_cfg(rng, root, ingest_batch_size=rng.choice([0, 2, 5, 100]))
                if rng.random() < 0.1:
                    cfg["incomplete"] = True
                p = cfg["n_processes"] if cfg["n_processes"] > 1 else 0
                fault = random_fault(rng, cfg["n_processes"] + 1, p, False)
                rec = one_run(prep, root, cfg, before, rng, prescribed=sch, faults=dict(fault))
                rec["fault"] = fault
                cfg = random_cfg(rng, root)
                if os.path.exists(cfg["output_path"]) and rng.random() < 0.3:
                    cfg["output_path"] += "2.qg"
                rec["again"] = one_run(prep, root, cfg, rec["repo"]["ingested"], rng)
                recs.append(rec)
            finally:
                shutil.rmtree(root)
    finally:
        prep.close()
    return recs


def run(c: Check) -> None:
    c.model("MCAggregator", CFG.format(spec="Fair", n=1, s=1, b=0, t=1, r=1, d=1, i=1, e="FALSE",
                                       prop="PROPERTY Terminates"), name="failures, termination")
    c.model("MCAggregator", CFG.format(spec="Spec", n=2, s=1, b=0, t=1, r=1, d=0, i=0, e="FALSE", prop=""),
            name="failures, 2 quanta")
    c.model("MCAggregator", CFG.format(spec="Spec", n=1, s=2, b=0, t=1, r=0, d=1, i=0, e="FALSE", prop=""),
            name="failures, 2 scanners")
    if c.thorough:
        c.model("MCAggregator", CFG.format(spec="Spec", n=2, s=2, b=0, t=1, r=1, d=0, i=0, e="FALSE", prop=""),
                name="failures, 2 quanta, 2 scanners", workers="4", heap="10g", timeout=3000)
        c.model("MCAggregator", CFG.format(spec="Spec", n=2, s=1, b=1, t=2, r=1, d=1, i=1, e="FALSE", prop=""),
                name="several failures", workers="4", heap="10g", timeout=3000)
    cases = [x for x in c.behaviours("MCProvenance", PCFG.format(n=1)) if not x["incomplete"]]
    sch = c.behaviours("MCAggregator", CFG.format(spec="Spec", n=3, s=3, b=1, t=2, r=0, d=0, i=0, e="TRUE", prop="")
                       + "\nCHECK_DEADLOCK FALSE", simulate=c.scale(200, 3000), depth=150)
    n, k = c.scale(44, 600), 4
    recs = c.pmap(job, [(f"{c.seed}:r{i}", cases, None) for i in range(c.scale(1, 12))] + [(f"{c.seed}:{i}", cases, [c.rng.choice(sch) for _ in range(k)]) for i in range(n)])
    flat = [r for rs in recs for r in rs]
    kinds: dict = {}
    for r in flat:
        key = f"{r['fault']['kind']}:{'fired' if r['run']['fault'] else 'not reached'}"
        kinds[key] = kinds.get(key, 0) + 1
    c.notes["faults"] = kinds
    c.judge("Aggregator", flat, op="FaultVerdict", kind="failing aggregations", chunk=40)
