"""P11: aggregation of what a run left behind, under any schedule of its workers."""
from __future__ import annotations

import logging
import os
import random
import shutil
import warnings

from . import zipfix  # noqa: F401
from .vlib import Check

PCFG = "SPECIFICATION Spec\nCONSTANTS MaxPrev={n} Emitting=TRUE\nCHECK_DEADLOCK FALSE\n"
CFG = ("SPECIFICATION {spec}\nCONSTANTS N={n} NS={s} Batch={b} Train={t} MaxRaise={r} MaxDie={d} MaxIntr={i} "
       "Emitting={e}\nINVARIANTS Complete Once Truthful NoneLeft Emit\n{prop}")
OPS = [{"op": "full", "all": True, "ids": []}]


def random_cfg(rng, root, **over):
    cfg = {
        "output_path": os.path.join(root, "prov.qg"), "n_processes": rng.choice([1, 1, 2, 2, 3]),
        "ingest_batch_size": rng.choice([0, 1, 3, 8, 100]), "zstd_dict_size": rng.choice([0, 256, 256]),
        "zstd_dict_n_inputs": rng.choice([5, 8, 12, 100]), "mock_storage_classes": True,
        "defensive_ingest": rng.random() < 0.3,
    }
    cfg.update(over)
    return cfg


def record(prep, cfg, run, before, repo, o):
    return {**prep.describe(), "ops": OPS, "before": before, "run": run, "repo": repo, "o": o,
            "cfg": {"incomplete": cfg.get("incomplete", False), "promise": cfg.get("promise_ingest_graph", False),
                    "dry": cfg.get("dry_run", False), "prov": cfg.get("output_path") is not None,
                    "update": cfg.get("update_output_chain", True)},
            "full_cfg": {k: v for k, v in cfg.items() if k != "output_path"}}


def one_run(prep, root, cfg, before, rng, **kw):
    from . import agg_common as A

    run = A.aggregate(root, cfg, seed=rng.random(), **kw)
    repo = A.registry_view(prep, root)
    path = cfg.get("output_path")
    o = {"error": "missing"}
    if path is not None and not cfg.get("incomplete") and run["outcome"] == "" and not run["hang"]:
        o = A.provenance_view(prep, path, rng)
    return record(prep, cfg, run, before, repo, o)


def job(args):
    seed, cases, schedules = args
    if schedules is None:
        return real_job(seed, cases)
    from . import agg_common as A

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    recs = []
    prep = A.Prepared(rng)
    try:
        prep.init_outputs(rng.choice([1.0, 0.7]))
        promise = rng.random() < 0.25
        before = []
        base = {"promise_ingest_graph": promise}
        for _ in range(rng.choice([0, 1, 1, 2])):  # aggregate while not everything has run (successfully)
            prep.pass_over(cases, rng.choice([0.1, 0.3, 0.6]))
            cfg = random_cfg(rng, prep.root, incomplete=True, **base)
            recs.append(one_run(prep, prep.root, cfg, before, rng))
            before = recs[-1]["repo"]["ingested"]
        prep.pass_over(cases, rng.choice([0, 0.1, 0.3]))
        # the same final state under several schedules and configurations
        for sch in schedules:
            root = A.copy_root(prep)
            try:
                over = dict(base)
                if rng.random() < 0.15:
                    over |= {"dry_run": True, "defensive_ingest": False}
                elif rng.random() < 0.15:
                    over |= {"output_path": None}
                if rng.random() < 0.2:
                    over |= {"update_output_chain": False} if not before else {}
                cfg = random_cfg(rng, root, **over)
                recs.append(one_run(prep, root, cfg, before, rng, prescribed=sch))
                if rng.random() < 0.4 and not cfg.get("dry_run"):
                    cfg = random_cfg(rng, root, **base)
                    recs.append(one_run(prep, root, cfg, recs[-1]["repo"]["ingested"], rng))
            finally:
                shutil.rmtree(root)
    finally:
        prep.close()
    return recs


def real_job(seed, cases, faults=None):
    """A run with real processes."""
    from . import agg_common as A

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    prep = A.Prepared(rng, 2)
    try:
        prep.init_outputs(1.0)
        prep.pass_over(cases, 0.2)
        cfg = random_cfg(rng, prep.root, n_processes=2, worker_check_timeout=0.5)
        rec = one_run(prep, prep.root, cfg, [], rng, real=True, wall=180, faults=faults)
        if faults:
            rec["fault"] = faults
            rec["again"] = one_run(prep, prep.root, random_cfg(rng, prep.root), rec["repo"]["ingested"], rng)
        return [rec]
    finally:
        prep.close()


def run(c: Check) -> None:
    c.model("MCAggregator", CFG.format(spec="Spec", n=2, s=2, b=0, t=1, r=0, d=0, i=0, e="FALSE", prop=""),
            name="protocol, 2 quanta, 2 scanners")
    c.model("MCAggregator", CFG.format(spec="Fair", n=2, s=1, b=1, t=2, r=0, d=0, i=0, e="FALSE",
                                       prop="PROPERTY Terminates"), name="protocol, termination")
    if c.thorough:
        c.model("MCAggregator", CFG.format(spec="Spec", n=3, s=2, b=1, t=2, r=0, d=0, i=0, e="FALSE", prop=""),
                name="protocol, 3 quanta, 2 scanners", workers="4", heap="8g", timeout=3000)
    cases = [x for x in c.behaviours("MCProvenance", PCFG.format(n=1)) if not x["incomplete"]]
    sch = c.behaviours("MCAggregator", CFG.format(spec="Spec", n=3, s=3, b=1, t=2, r=0, d=0, i=0, e="TRUE", prop="")
                       + "\nCHECK_DEADLOCK FALSE", simulate=c.scale(200, 3000), depth=150)
    n = c.scale(56, 700)
    k = 3
    recs = c.pmap(job, [(f"{c.seed}:r{i}", cases, None) for i in range(c.scale(1, 12))]
                  + [(f"{c.seed}:{i}", cases, [c.rng.choice(sch) for _ in range(k)]) for i in range(n)])
    c.judge("Aggregator", [r for rs in recs for r in rs], op="AggVerdict", kind="aggregations", chunk=40)
