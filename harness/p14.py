"""P14: ingesting a provenance graph, stopped anywhere and resumed."""
from __future__ import annotations

import json
import logging
import os
import random
import shutil
import tempfile
import traceback
import warnings

from . import zipfix  # noqa: F401
from .p11 import PCFG, random_cfg
from .vlib import Check, CodeError

CFG = "SPECIFICATION Spec\nCONSTANTS ND={n} MaxCrash={c} Emitting={e}\nINVARIANTS Safe Complete Emit\n{prop}\nCHECK_DEADLOCK FALSE\n"


def crash_points(at):
    """End the process at the at-th operation that changes anything."""
    from lsst.daf.butler import Butler
    from lsst.daf.butler.datastores.fileDatastore import FileDatastore
    from lsst.daf.butler.direct_butler import DirectButler
    from lsst.daf.butler.registry.sql_registry import SqlRegistry
    from lsst.resources import ResourcePath

    count = [0]

    def tick():
        count[0] += 1
        if count[0] == at:
            os._exit(9)

    def wrap(owner, name):
        orig = getattr(owner, name)

        def wrapper(*args, **kwargs):
            tick()
            res = orig(*args, **kwargs)
            tick()
            return res

        setattr(owner, name, wrapper)

    del Butler
    wrap(DirectButler, "ingest")
    wrap(FileDatastore, "forget")
    wrap(SqlRegistry, "removeDatasets")
    orig_mremove = ResourcePath.mremove.__func__

    def mremove(cls, uris, **kwargs):
        res = {}
        for u in list(uris):
            tick()
            res.update(orig_mremove(cls, [u], **kwargs))
        tick()
        return res

    ResourcePath.mremove = classmethod(mremove)


def ingest_once(root, uri, output_run, batch, transfer, at):
    """Run in a forked child; `at` is the operation to stop at (0: none)."""
    res_path = tempfile.mktemp(prefix="verif-ing-")
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            logging.disable(logging.CRITICAL)
            warnings.simplefilter("ignore")
            if at:
                crash_points(at)
            from lsst.pipe.base.quantum_graph.ingest_graph import ingest_graph

            out = {"outcome": "", "crashed": False}
            try:
                ingest_graph(root, uri, transfer=transfer, batch_size=batch, output_run=output_run)
            except BaseException as exc:
                out = {"outcome": type(exc).__name__, "crashed": False, "tb": traceback.format_exc()[-1500:]}
            with open(res_path, "w") as f:
                json.dump(out, f)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 9:
        return {"outcome": "", "crashed": True}
    if not os.path.exists(res_path):
        raise CodeError(f"ingest child ended with {status}")
    with open(res_path) as f:
        out = json.load(f)
    os.remove(res_path)
    return out


def view(prep, root, managed, files, contents, prov_path):
    from lsst.daf.butler import Butler

    v = {"graph": "out" if os.path.exists(prov_path) else "lost", "ds": [], "graphok": True}
    with Butler.from_config(root, writeable=False, collections="out_run") as butler:
        try:
            gref = butler.find_dataset("run_provenance")
        except Exception:
            gref = None
        if gref is not None:
            v["graph"] = "in"
            try:
                g = butler.get(gref)
                v["graphok"] = {prep.plan.qn[x] for x in g.quantum_only_xgraph} == set(range(1, len(prep.plan.quanta) + 1))
            except Exception:
                v["graphok"] = False
        known = {prep.plan.dn.get(i, 0): i for i in butler.registry._fetch_run_dataset_ids("out_run")}
        for n in managed:
            d = {"n": n, "file": os.path.exists(os.path.join(root, files[n])), "reg": "none", "content": "none"}
            if n in known:
                ref = butler.get_dataset(known[n])
                uri = butler.getURI(ref).ospath
                d["reg"] = "graph" if uri.endswith(".qg") else "orig"
                try:
                    obj = butler.get(ref)
                    d["content"] = "ok" if content_key(obj) == contents[n] else "bad"
                except Exception as exc:
                    d["content"], d["error"] = "bad", repr(exc)[:300]
            v["ds"].append(d)
        others = [n for n in known if n not in managed and n > 0]
        refs = [butler.get_dataset(known[n]) for n in others]
        v["others"] = sorted(prep.plan.dn[r.id] for r, ok in butler.stored_many(refs).items() if ok)
        v["extra"] = [os.path.isdir(os.path.join(root, "keep_empty")),
                      os.path.exists(os.path.join(root, "out_run", "notes.txt"))]
        types = {prep.plan.types[n - 1] for n in managed}
        v["emptydirs"] = sorted(t for t in types if os.path.isdir(os.path.join(root, "out_run", t))
                                and not any(f for _, _, f in os.walk(os.path.join(root, "out_run", t))))
    return v


def content_key(obj):
    """Something comparable that identifies the content of a metadata, log or config dataset."""
    from lsst.daf.butler.logging import ButlerLogRecords
    from lsst.pex.config import Config
    from lsst.pipe.base import TaskMetadata

    if isinstance(obj, TaskMetadata):
        return "md:" + obj.model_dump_json()
    if isinstance(obj, ButlerLogRecords):
        return "log:" + "|".join(f"{r.name} {r.levelno} {r.message}" for r in obj)
    if isinstance(obj, Config):
        return "cfg:" + json.dumps(obj.toDict(), default=str, sort_keys=True)
    return repr(obj)


def job(args):
    seed, cases, histories = args
    from lsst.daf.butler import Butler  # noqa: F401

    from . import agg_common as A

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    recs = []
    prep = A.Prepared(rng, rng.randint(1, 2))
    home = tempfile.mkdtemp(prefix="verif-p14-")
    try:
        prep.init_outputs(1.0)
        prep.pass_over(cases, rng.choice([0, 0.2]))
        desc = prep.describe()
        exist = set(desc["exist"])
        managed = sorted({n for q in desc["quanta"] for n in (q["log"], q["meta"])} & exist | set(desc["configs"]) & exist)
        by_num = {n: d for d, n in prep.plan.dn.items()}
        models = {d.dataset_id: d for q in [*prep.plan.quanta, *prep.plan.inits] for x in q.outputs.values() for d in x}
        files, contents = {}, {}
        for n in managed:
            ref = prep.ref(models[by_num[n]])
            files[n] = os.path.relpath(prep.qbb._datastore.getURI(ref, predict=True).ospath, prep.root)
            contents[n] = content_key(prep.qbb.get(ref))
        roots = {}
        for promised in {h["promised"] for h in histories}:
            root = A.copy_root(prep)
            roots[promised] = root
            prov = os.path.join(root, "prov.qg")
            out = A.aggregate(root, random_cfg(rng, root, n_processes=1, promise_ingest_graph=promised), seed=1)
            if out["outcome"] or out["hang"]:
                raise CodeError(f"aggregation failed: {out}")
        for h in histories:
            # a directory name that happens to contain a dataset type name must not matter
            name = rng.choice(["repo", "repo", f"x_{prep.plan.types[rng.choice(managed) - 1]}_y"]) if managed else "repo"
            root = os.path.join(home, name)
            shutil.copytree(roots[h["promised"]], root)
            os.mkdir(os.path.join(root, "keep_empty"))
            os.makedirs(os.path.join(root, "out_run"), exist_ok=True)
            with open(os.path.join(root, "out_run", "notes.txt"), "w") as f:
                f.write("x")
            prov = os.path.join(home, "prov.qg")
            shutil.move(os.path.join(root, "prov.qg"), prov)
            transfer = rng.choice(["move", "copy", "copy"])
            rec = {"history": h, "transfer": transfer, "views": [view(prep, root, managed, files, contents, prov)],
                   "runs": []}
            for at in [*h["crashes"][:-1], 0]:
                graph_in = rec["views"][-1]["graph"] == "in"
                if graph_in and (not os.path.exists(prov) or rng.random() < 0.5):
                    uri, run = None, "out_run"
                else:
                    uri, run = prov, rng.choice([None, "out_run"])
                rec["runs"].append(ingest_once(root, uri, run, h["batch"], transfer, at))
                rec["views"].append(view(prep, root, managed, files, contents, prov))
                if not rec["runs"][-1]["crashed"] and rng.random() < 0.8:
                    break
            recs.append(rec)
            shutil.rmtree(root)
            if os.path.exists(prov):
                os.remove(prov)
        for root in roots.values():
            shutil.rmtree(root)
    finally:
        prep.close()
        shutil.rmtree(home, ignore_errors=True)
    return recs


def run(c: Check) -> None:
    c.model("MCIngestGraph", CFG.format(n=3, c=c.scale(2, 4), e="FALSE", prop="PROPERTY Terminates"),
            name="moving datasets into the graph")
    cases = [x for x in c.behaviours("MCProvenance", PCFG.format(n=1)) if not x["incomplete"]]
    hist = c.behaviours("MCIngestGraph", CFG.format(n=3, c=2, e="TRUE", prop=""))
    c.notes["histories"] = len(hist)
    # the model has 3 datasets; stretch crash points over what real graphs have
    jobs = []
    for i in range(c.scale(32, 500)):
        hs = []
        for _ in range(5):
            h = dict(c.rng.choice(hist))
            k = c.rng.choice([1, 1, 2, 4])
            h["crashes"] = [x * k + c.rng.randrange(k) if x else 0 for x in h["crashes"]]
            h["batch"] = c.rng.choice([1, 2, 3, 5, 1000])
            hs.append(h)
        jobs.append((f"{c.seed}:{i}", cases, hs))
    recs = c.pmap(job, jobs)
    c.judge("IngestGraph", [r for rs in recs for r in rs], op="IGVerdict", kind="ingest histories", chunk=100)
