"""P13: provenance of a run: attempt status derivation, file contents, loading, reports."""
from __future__ import annotations

import os
import random
import tempfile
import warnings
from contextlib import ExitStack

from . import zipfix  # noqa: F401
from .prov_common import NIL, Plan, graph_view, leftovers, observe_scan
from .vlib import Check, exc_name

CFG = "SPECIFICATION Spec\nCONSTANTS MaxPrev={n} Emitting={e}\n{inv}\nCHECK_DEADLOCK FALSE\n"
STATES = ["ABORTED", "UNKNOWN", "ABORTED_SUCCESS", "FAILED", "BLOCKED", "SUCCESSFUL"]


def make_ops(rng, plan, written):
    """Random reads; IDs asked for are ones the file has, or init quanta."""
    if rng.random() < 0.3:
        return [{"op": "full", "all": True, "ids": []}]
    ops = []
    qs = [i for i, q in enumerate(plan.quanta, 1) if q.quantum_id in written]
    qs += [plan.qn[q.quantum_id] for q in plan.inits] if rng.random() < 0.3 else []
    absent = {d.dataset_id for q in plan.quanta if q.quantum_id not in written for x in q.outputs.values() for d in x}
    ds = [n for d, n in plan.dn.items() if d not in absent]
    for _ in range(rng.randint(1, 5)):
        op = rng.choices(["init", "quanta", "datasets", "full"], [2, 4, 4, 1])[0]
        pool = {"quanta": qs, "datasets": ds}.get(op, [])
        ops.append({"op": op, "all": rng.random() < 0.25, "ids": rng.sample(pool, rng.randint(0, min(5, len(pool))))})
    return ops


def file_records(args):
    """Write one provenance file with random outcomes, load it several ways."""
    seed, cases, n_hist = args
    from lsst.pipe.base.quantum_graph import (
        ProvenanceQuantumGraphReader,
        ProvenanceQuantumGraphWriter,
        ProvenanceQuantumScanData,
        ProvenanceQuantumScanStatus,
    )
    from lsst.pipe.base.log_on_close import LogOnClose

    from .richqg import rich_components

    rng = random.Random(seed)
    warnings.simplefilter("ignore")
    comps = rich_components(rng)
    plan = Plan(comps)
    base = {"quanta": [], "inits": [plan.abstract_init(q) for q in plan.inits], "types": plan.types,
            "assume": rng.random() < 0.5, "initexist": []}
    outcome = {}
    written = set()
    absent_ok = rng.random() < 0.3
    for q in plan.quanta:
        kind = rng.choices(["ran", "blocked", "absent"], [6, 2, 1 if absent_ok else 0])[0]
        case = dict(rng.choice(cases), incomplete=False)
        outcome[q.quantum_id] = (kind, case)
        if kind != "absent":
            written.add(q.quantum_id)
        base["quanta"].append({**plan.abstract(q), "kind": kind, "c": case})
    with tempfile.TemporaryDirectory(prefix="verif-p13-") as tmp:
        path = os.path.join(tmp, "prov.qg")
        try:
            with ExitStack() as stack:
                w = ProvenanceQuantumGraphWriter(path, exit_stack=stack, log_on_close=LogOnClose(lambda *a: None),
                                                 predicted=comps if rng.random() < 0.5 else comps.assemble())
                order = list(plan.quanta)
                rng.shuffle(order)
                if rng.random() < 0.5:
                    w.write_packages()
                for q in plan.inits:
                    outs = [d.dataset_id for x in q.outputs.values() for d in x]
                    have = {d for d in outs if rng.random() < 0.7}
                    base["initexist"] += [plan.dn[d] for d in have]
                    w.write_scan_data(ProvenanceQuantumScanData(
                        q.quantum_id, ProvenanceQuantumScanStatus.INIT, existing_outputs=have))
                for q in order:
                    kind, case = outcome[q.quantum_id]
                    if kind == "ran":
                        md, logs = leftovers(case, q.task_label, plan.regular(q))
                        w.write_quantum_provenance(q.quantum_id, metadata=md, logs=logs)
                    elif kind == "blocked":
                        w.write_blocked_quantum_provenance(q.quantum_id)
                w.write_overall_inputs()
                w.write_init_outputs(assume_existence=base["assume"])
        except Exception as exc:
            return [{**base, "ops": [], "o": {"error": "write: " + exc_name(exc)}}]
        res = []
        for _ in range(n_hist):
            ops = make_ops(rng, plan, written)
            report = {"states": rng.sample(STATES, rng.randint(1, 5)), "caveat": rng.choice([-1, 4])}
            try:
                with ProvenanceQuantumGraphReader.open(path, page_size=rng.choice([1, 100, 5_000_000])) as reader:
                    o = graph_view(plan, reader, ops, report, rng)
            except Exception as exc:
                import traceback

                o = {"error": exc_name(exc), "tb": traceback.format_exc()[-1500:]}
            res.append({**base, "ops": ops, "o": o})
        # The command-line entry point: an explicit selection of quanta and datasets.
        from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraph

        for sel in ([], [rng.choice(plan.quanta).quantum_id], None):
            if sel and sel[0] not in written:
                continue
            with ProvenanceQuantumGraph.from_args(path, quanta=sel, datasets=[]) as (g, _):
                got = sorted(plan.qn[x] for m in g.quanta_by_task.values() for x in m.values())
                n_ds = sum(map(len, g.datasets_by_type.values()))
            want = sorted(plan.qn[x] for x in (written if sel is None else sel))
            res.append({"sel": {"got": got, "want": want, "nds": n_ds, "kinds": 2 * len(want)}})
        return res


class Recorder:
    """Quantum executor that notes how each execution ended."""

    def __init__(self, inner):
        self.inner = inner
        self.seen = {}

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        from lsst.utils.introspection import get_full_type_name

        try:
            res = self.inner.execute(task_node, quantum, quantum_id, log_records=log_records)
        except BaseException as exc:
            self.seen[quantum_id] = {"exc": get_full_type_name(exc), "md": None}
            raise
        self.seen[quantum_id] = {"exc": "", "md": res.task_metadata}
        return res


def executed_records(seed):
    """Run a graph in one process with provenance; compare the file with what happened."""
    import logging

    from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError
    from lsst.pipe.base.quantum_graph import ProvenanceQuantumGraphReader
    from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor
    from lsst.pipe.base.tests.mocks import InMemoryRepo

    from . import runtasks
    from .richqg import add_rich_tasks

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    runtasks.PLANS.clear()
    with InMemoryRepo("base.yaml") as repo, tempfile.TemporaryDirectory(prefix="verif-p13-") as tmp:
        add_rich_tasks(repo, rng, rng.randint(2, 4), runtasks.PlanTask)
        comps = repo.make_quantum_graph_builder(output_run="output_run").finish(attach_datastore_records=False)
        plan = Plan(comps)
        qg = comps.assemble()
        butler = repo.make_limited_butler()
        qg.init_output_run(butler)
        qg.build_execution_quanta()
        p_bad = rng.choice([0, 0.1, 0.3])
        endings = {}
        for q in plan.quanta:
            k = runtasks.key(q.task_label, qg.quantum_only_xgraph.nodes[q.quantum_id]["data_id"])
            runtasks.PLANS[k] = endings[q.quantum_id] = runtasks.random_plan(rng, q, p_bad)
        if rng.random() < 0.2:
            runtasks.PLANS["initfail"] = rng.choice(plan.quanta).task_label
        rec = Recorder(SingleQuantumExecutor(limited_butler_factory=butler.factory,
                                             raise_on_partial_outputs=rng.random() < 0.5))
        path = os.path.join(tmp, "prov.qg")
        mp = MPGraphExecutor(num_proc=1, timeout=1000, quantum_executor=rec)
        base = {"quanta": [], "inits": [plan.abstract_init(q) for q in plan.inits], "types": plan.types,
                "assume": True, "initexist": [], "plan": [endings[q.quantum_id]["ending"] for q in plan.quanta]}
        error = ""
        try:
            mp.execute(qg, provenance_graph_file=path)
        except MPGraphExecutorError:
            pass
        except Exception as exc:
            error = "execute: " + exc_name(exc)
        finally:
            runtasks.PLANS.clear()
        stored = {}
        for q in qg.build_execution_quanta().values():
            for refs in q.outputs.values():
                for ref in refs:
                    stored[ref.id] = butler.stored(ref)
        ops = [{"op": "full", "all": True, "ids": []}]
        o = {"error": error}
        if not error:
            try:
                with ProvenanceQuantumGraphReader.open(path) as reader:
                    o = graph_view(plan, reader, ops, {"states": STATES, "caveat": -1}, rng, tokens=False)
            except Exception as exc:
                o = {"error": "read: " + exc_name(exc)}
        for q in plan.quanta:
            seen = rec.seen.get(q.quantum_id)
            c = {"logs": True, "prev": [], "lexc": "", "lmeta": {"has": False, "outs": NIL},
                 "meta": {"has": False, "fail": "", "cav": -1, "outs": NIL}, "incomplete": False}
            put = {"has": True, "put": [i + 1 for i, d in enumerate(plan.regular(q)) if stored[d]]}
            if seen is not None and seen["exc"]:
                if not (seen["exc"] == "FileNotFoundError" and endings[q.quantum_id]["ending"] == "adjustfail"):
                    c["lexc"] = seen["exc"]
                    c["lmeta"] = {"has": True, "outs": put}
            elif seen is not None:
                md = seen["md"]
                fail = ""
                if md.get(q.task_label) is not None and "failure" in md[q.task_label]:
                    fail = md[q.task_label]["failure"]["type"]
                c["meta"] = {"has": True, "fail": fail, "cav": int(md["quantum"]["caveats"]), "outs": put}
            base["quanta"].append({**plan.abstract(q), "kind": "blocked" if seen is None else "ran", "c": c})
        return [{**base, "ops": ops, "o": o}]


def run(check: Check) -> None:
    n = check.scale(2, 3)
    check.model("MCProvenance", CFG.format(n=n, e="FALSE", inv="INVARIANTS Doc TokensAligned"))
    cases = check.behaviours("MCProvenance", CFG.format(n=n, e="TRUE", inv=""))
    check.notes["cases"] = len(cases)

    from lsst.pipe.base.tests.mocks import DynamicConnectionConfig as D
    from lsst.pipe.base.tests.mocks import InMemoryRepo

    warnings.simplefilter("ignore")
    with InMemoryRepo("base.yaml") as repo:
        repo.add_task("t", inputs={"i": D(dataset_type_name="raw")},
                      outputs={"a": D(dataset_type_name="a"), "b": D(dataset_type_name="b")})
        comps = repo.make_quantum_graph_builder(output_run="run").finish(attach_datastore_records=False)
    (pred,) = comps.quantum_datasets.values()
    outputs = [pred.outputs[c][0].dataset_id for c in ("a", "b")]
    check.judge("Provenance", [{"c": c, "o": observe_scan(pred, outputs, c)} for c in cases],
                op="ScanVerdict", kind="derivation")

    recs = check.pmap(file_records, [(f"{check.seed}:{i}", cases, check.scale(5, 8))
                                     for i in range(check.scale(60, 900))])
    flat = [r for rs in recs for r in rs]
    check.judge("Provenance", [r for r in flat if "sel" not in r], op="GraphVerdict", kind="graph", chunk=60)
    check.judge("Provenance", [r["sel"] for r in flat if "sel" in r], op="SelectVerdict", kind="selection")
    runs = check.pmap(executed_records, [f"{check.seed}:x{i}" for i in range(check.scale(100, 2000))])
    check.judge("Provenance", [r for rs in runs for r in rs], op="GraphVerdict", kind="executed run", chunk=60)
