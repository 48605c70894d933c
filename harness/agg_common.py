"""Repositories holding what an execution left behind, and runs of the aggregator on them."""
from __future__ import annotations

import json
import logging
import os
import random
import shutil
import signal
import tempfile
import time
import traceback
import warnings

from . import zipfix  # noqa: F401
from .prov_common import NIL, Plan, graph_view, leftovers


class Prepared:
    """A repository with a predicted graph; executions are simulated by writing what they leave behind."""

    def __init__(self, rng, n=None):
        from lsst.daf.butler import QuantumBackedButler
        from lsst.pipe.base.tests.mocks import DirectButlerRepo

        from .richqg import add_rich_tasks

        self.rng = rng
        self._ctx = DirectButlerRepo.make_temporary("base.yaml")
        helper, self.root = self._ctx.__enter__()
        self.chain = rng.choice(["out_chain", None])
        add_rich_tasks(helper, rng, n or rng.randint(1, 4))
        comps = helper.make_quantum_graph_builder(output_run="out_run").finish(output=self.chain)
        self.predicted = os.path.join(self.root, "predicted.qg")
        comps.write(self.predicted)
        self.comps = comps
        self.plan = Plan(comps)
        self.qg = comps.assemble()
        self.inputs = list(helper.butler.collections.query(comps.header.inputs, flatten_chains=True))
        if self.chain and rng.random() < 0.4:
            # the chain exists already, from an earlier run (with or without the inputs)
            from lsst.daf.butler import CollectionType

            helper.butler.collections.register("earlier_run")
            helper.butler.collections.register(self.chain, CollectionType.CHAINED)
            self.inputs = ["earlier_run", *(self.inputs if rng.random() < 0.5 else [])]
            helper.butler.collections.redefine_chain(self.chain, self.inputs)
        self.preds = {self.plan.qn[q]: sorted(self.plan.qn[p] for p in self.qg.quantum_only_xgraph.predecessors(q))
                      for q in self.qg.quantum_only_xgraph}
        pg = self.qg.pipeline_graph
        self.qbb = QuantumBackedButler.from_predicted(
            self.root, predicted_inputs=[], predicted_outputs=list(self.plan.dn), dimensions=pg.universe,
            datastore_records={}, dataset_types={n.name: n.dataset_type for n in pg.dataset_types.values()})
        helper.butler.close()
        self.exist = set()
        self.initexist = []
        self.case = {}

    def close(self):
        self.qbb.close()
        self._ctx.__exit__(None, None, None)

    def ref(self, ds):
        return self.comps.make_dataset_ref(ds)

    def put(self, obj, ds):
        from lsst.pipe.base.tests.mocks import MockDataset

        ref = self.ref(ds)
        if obj is None:
            obj = MockDataset(dataset_id=ref.id, dataset_type=ref.datasetType.to_simple(),
                              data_id=dict(ref.dataId.mapping), run=ref.run)
        self.qbb.put(obj, ref)
        self.exist.add(self.plan.dn[ref.id])

    def init_outputs(self, p):
        for q in self.plan.inits:
            for c, dss in q.outputs.items():
                for ds in dss:
                    if self.rng.random() < p:
                        obj = None
                        if c == "_config":
                            obj = self.qg.pipeline_graph.tasks[q.task_label].config
                        self.put(obj, ds)
                        self.initexist.append(self.plan.dn[ds.dataset_id])

    def execute(self, i, case):
        """Leave behind what the case says for quantum i."""
        q = self.plan.quanta[i - 1]
        outs = self.plan.regular(q)
        by_id = {d.dataset_id: d for dss in q.outputs.values() for d in dss}
        info = case["meta"]["outs"] if case["meta"]["has"] else case["lmeta"]["outs"] if case["lmeta"]["has"] else NIL
        if info["has"]:
            present = [outs[k - 1] for k in info["put"] if k <= len(outs)]
        else:
            present = [d for d in outs if self.rng.random() < 0.5]
        md, logs = leftovers(case, q.task_label, outs)
        for d in present:
            self.put(None, by_id[d])
        if md is not None:
            self.put(md, q.outputs["_metadata"][0])
        if logs is not None:
            self.put(logs, q.outputs["_log"][0])
        self.case[i] = case

    def forget(self, i):
        """Remove what an unsuccessful attempt left."""
        q = self.plan.quanta[i - 1]
        refs = [self.ref(d) for dss in q.outputs.values() for d in dss if self.plan.dn[d.dataset_id] in self.exist]
        self.qbb.pruneDatasets(refs, disassociate=False, unstore=True, purge=False)
        self.exist -= {self.plan.dn[r.id] for r in refs}
        self.case.pop(i, None)

    def order(self):
        done, res = set(), []
        while len(res) < len(self.preds):
            for i, ps in self.preds.items():
                if i not in done and set(ps) <= done:
                    done.add(i)
                    res.append(i)
        return res

    def pass_over(self, cases, p_fail):
        """Run everything that can run and has not succeeded yet (a batch of executions, possibly incomplete)."""
        good = [c for c in cases if c["meta"]["has"]]
        bad = [c for c in cases if not c["meta"]["has"]]
        ok = {i for i, c in self.case.items() if c["meta"]["has"]}
        for i in self.order():
            if i in ok or not set(self.preds[i]) <= ok:
                continue
            if i in self.case:
                self.forget(i)
            case = dict(self.rng.choice(bad if self.rng.random() < p_fail else good), incomplete=False)
            self.execute(i, case)
            if case["meta"]["has"]:
                ok.add(i)

    def describe(self):
        """The record fields about the repository and the quanta."""
        nothing = {"logs": False, "prev": [], "lexc": "", "lmeta": {"has": False, "outs": NIL},
                   "meta": {"has": False, "fail": "", "cav": -1, "outs": NIL}, "incomplete": False}
        kind = {}
        for i in self.order():
            bad = [p for p in self.preds[i] if kind[p] == "blocked" or not self.case.get(p, nothing)["meta"]["has"]]
            kind[i] = "blocked" if bad else "ran"
        plan = self.plan
        return {
            "quanta": [{**plan.abstract(q), "kind": kind[i], "c": self.case.get(i, nothing)}
                       for i, q in enumerate(plan.quanta, 1)],
            "inits": [plan.abstract_init(q) for q in plan.inits], "types": plan.types, "assume": False,
            "initexist": sorted(self.initexist), "exist": sorted(self.exist),
            "configs": [plan.dn[q.outputs["_config"][0].dataset_id] for q in plan.inits],
            "chain": self.chain or "", "inputs": self.inputs,
        }


def aggregate(root, cfg, *, seed, faults=None, prescribed=(), real=False, wall=60):
    """One run of the aggregator in a forked child, under the scheduler or (real) with spawned processes."""
    from lsst.pipe.base.quantum_graph.aggregator import AggregatorConfig

    res_path = tempfile.mktemp(prefix="verif-agg-")
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            from . import sched

            logging.disable(logging.CRITICAL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            warnings.simplefilter("ignore")
            config = AggregatorConfig(**cfg)
            s = sched.Scheduler(seed, processes=config.n_processes > 1, prescribed=prescribed, faults=faults)
            if real:
                kill_worker(faults or {})
            else:
                sched.install(s)
                inject(s, faults or {})
            from lsst.pipe.base.quantum_graph.aggregator import aggregate_graph

            out = {"outcome": "", "steps": 0, "alive": [], "fault": False, "hang": ""}
            try:
                aggregate_graph(os.path.join(root, "predicted.qg"), root, config)
            except sched.Deadlock as exc:
                out["hang"] = str(exc)
            except BaseException as exc:
                out["outcome"] = type(exc).__name__
                out["tb"] = traceback.format_exc()[-1500:]
            out["alive"] = [a.name for a in s.actors.values()
                            if a.thread is not None and not a.finished and not a.dead]
            if real:
                import multiprocessing

                out["alive"] = [p.name for p in multiprocessing.active_children() if not faults or p.join(2) or p.is_alive()]
            out["steps"] = s.steps
            out["ops"] = s.op_count
            out["errors"] = [a.error for a in s.actors.values() if a.error]
            out["fault"] = bool((faults or {}).get("done"))
            with open(res_path, "w") as f:
                json.dump(out, f)
        except BaseException:
            with open(res_path, "w") as f:
                json.dump({"machinery": traceback.format_exc()}, f)
            code = 3
        finally:
            os._exit(code)
    deadline = time.monotonic() + wall
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        if time.monotonic() > deadline:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return {"outcome": "", "hang": "wall-clock", "alive": [], "fault": True, "steps": 0, "killed": False}
        time.sleep(0.005)
    if os.path.exists(res_path):
        with open(res_path) as f:
            out = json.load(f)
        os.remove(res_path)
        if "machinery" in out:
            from .vlib import CodeError

            raise CodeError(out["machinery"])
        return {**out, "killed": False}
    return {"outcome": "killed", "hang": "", "alive": [], "fault": True, "steps": 0, "killed": True}


def kill_worker(faults):
    """Kill a spawned worker process once it has been running for a while."""
    import multiprocessing
    import threading

    def body():
        while True:
            for p in multiprocessing.active_children():
                if p.name == faults["who"]:
                    time.sleep(faults["at"])
                    if p.is_alive():
                        faults["done"] = True
                        p.kill()
                    return
            time.sleep(0.01)

    if faults:
        threading.Thread(target=body, daemon=True).start()


class Injected(Exception):
    pass


def inject(s, faults):
    """Make the k-th call of something the workers depend on fail (or end the process)."""
    if faults.get("kind") not in ("raise", "exitat"):
        return
    from lsst.daf.butler import QuantumBackedButler
    from lsst.daf.butler.datastores.fileDatastore import FileDatastore
    from lsst.daf.butler.registry.sql_registry import SqlRegistry
    from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphWriter

    count = {"n": 0}
    owner, name = {
        "get": (QuantumBackedButler, "get"), "stored": (QuantumBackedButler, "stored"),
        "import": (SqlRegistry, "_importDatasets"), "records": (FileDatastore, "import_records"),
        "write": (ProvenanceQuantumGraphWriter, "write_scan_data"),
        "finalwrite": (ProvenanceQuantumGraphWriter, "write_init_outputs"),
    }[faults["who"]]
    orig = getattr(owner, name)

    def wrapper(*args, **kwargs):
        count["n"] += 1
        if count["n"] == faults["at"]:
            if faults.get("after"):
                orig(*args, **kwargs)
            faults["done"] = True
            if faults["kind"] == "exitat":
                os._exit(9)
            raise Injected("injected")
        return orig(*args, **kwargs)

    setattr(owner, name, wrapper)


def registry_view(prep, root):
    """What the central repository knows: ingested dataset numbers, stored ones, and the output chain."""
    from lsst.daf.butler import Butler, MissingCollectionError

    plan = prep.plan
    with Butler.from_config(root, writeable=False) as butler:
        try:
            ids = [plan.dn.get(i, -1) for i in butler.registry._fetch_run_dataset_ids("out_run")]
        except MissingCollectionError:
            return {"ingested": [], "stored": [], "readable": [], "chain": []}
        by_num = {n: d for d, n in plan.dn.items()}
        refs = [r for r in (butler.get_dataset(by_num[n]) for n in ids if n > 0) if r is not None]
        stored = [plan.dn[r.id] for r, ok in butler.stored_many(refs).items() if ok]
        readable = []
        for r in refs:
            try:
                butler.get(r)
                readable.append(plan.dn[r.id])
            except Exception:
                pass
        chain = []
        if prep.chain:
            try:
                chain = list(butler.collections.get_info(prep.chain).children)
            except MissingCollectionError:
                pass
    return {"ingested": sorted(ids), "stored": sorted(stored), "readable": sorted(readable), "chain": chain}


def provenance_view(prep, path, rng):
    from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphReader

    if not os.path.exists(path):
        return {"error": "missing"}
    try:
        with ProvenanceQuantumGraphReader.open(path) as reader:
            return graph_view(prep.plan, reader, [{"op": "full", "all": True, "ids": []}],
                              {"states": ["FAILED", "SUCCESSFUL", "BLOCKED", "UNKNOWN"], "caveat": -1}, rng)
    except Exception as exc:
        return {"error": type(exc).__name__, "tb": traceback.format_exc()[-1500:]}


def copy_root(prep):
    """A copy of the repository for one run."""
    dst = tempfile.mkdtemp(prefix="verif-aggroot-")
    shutil.rmtree(dst)
    shutil.copytree(prep.root, dst)
    return dst
