"""P09: predicted quantum graph files: round trip, partial reads, change of output run."""
from __future__ import annotations

import copy
import itertools
import logging
import os
import random
import tempfile
import traceback
import uuid
import warnings

from . import zipfix  # noqa: F401
from .vlib import Check, exc_name

CFG = "SPECIFICATION Spec\nCONSTANTS MaxOps={o} Emitting={e}\n{inv}\nCHECK_DEADLOCK FALSE\n"


class Numbering:
    """Small integers for the identifiers of one graph."""

    def __init__(self, comps):
        self.q, self.d, self.iq = {}, {}, {}
        for qid in comps.quantum_datasets:
            self.q[qid] = len(self.q) + 1
        for i, init in enumerate(comps.init_quanta.root):
            self.iq[init.quantum_id] = len(self.q) + 1 + i
        for qd in itertools.chain(comps.init_quanta.root, comps.quantum_datasets.values()):
            for ds in itertools.chain(*qd.inputs.values(), *qd.outputs.values()):
                self.d.setdefault(ds.dataset_id, len(self.d) + 1)


def links(mapping, num):
    return [{"c": c, "ds": [num.d.get(x.dataset_id, -1) for x in dss]} for c, dss in mapping.items()]


def abstract(comps, num):
    types = [""] * len(num.d)
    for qd in itertools.chain(comps.init_quanta.root, comps.quantum_datasets.values()):
        for ds in itertools.chain(*qd.inputs.values(), *qd.outputs.values()):
            if ds.dataset_id in num.d:
                types[num.d[ds.dataset_id] - 1] = ds.dataset_type_name
    return {
        "quanta": [{"task": q.task_label, "data": str(tuple(q.data_coordinate)), "ins": links(q.inputs, num),
                    "outs": links(q.outputs, num)} for q in comps.quantum_datasets.values()],
        "init": [{"task": q.task_label, "ins": links(q.inputs, num), "outs": links(q.outputs, num)}
                 for q in comps.init_quanta.root],
        "types": types,
    }


def details(comps):
    """Expected reference details by dataset ID: (type name, full data ID values, run)."""
    res = {}
    for qd in comps.quantum_datasets.values():
        for ds in itertools.chain(*qd.inputs.values(), *qd.outputs.values()):
            res[ds.dataset_id] = (ds.dataset_type_name, tuple(ds.data_coordinate), ds.run)
    for qd in comps.init_quanta.root:
        for ds in itertools.chain(*qd.inputs.values(), *qd.outputs.values()):
            res[ds.dataset_id] = (ds.dataset_type_name, (), ds.run)
    return res


def view(qg, num):
    g, b = qg.quantum_only_xgraph, qg.bipartite_xgraph
    N, Dn = (lambda x: num.q.get(x, -1)), (lambda x: num.d.get(x, -1))
    is_q = lambda x: "task_label" in b.nodes[x]  # noqa: E731
    return {
        "nodes": [N(x) for x in g.nodes], "len": len(qg), "edges": [[N(x), N(y)] for x, y in g.edges],
        "iter": [N(x) for x in qg],
        "datasets": [Dn(x) for x in b.nodes if not is_q(x)],
        "biedges": [["w", Dn(y), N(x)] if is_q(x) else ["r", Dn(x), N(y)] for x, y in b.edges],
        "bytype": [[t, Dn(x)] for t, m in qg.datasets_by_type.items() for x in m.values()],
        "bytask": [[t, str(tuple(k.full_values)), N(x)] for t, m in qg.quanta_by_task.items() for k, x in m.items()],
    }


def built(qg, qid, num, det):
    b = {"q": num.q[qid], "error": ""}
    try:
        quantum = qg.build_execution_quanta([qid])[qid]
    except Exception as exc:
        b["error"] = exc_name(exc)
        return b
    ins = [r for refs in quantum.inputs.values() for r in refs]
    outs = [r for refs in quantum.outputs.values() for r in refs]
    inits = list(quantum.initInputs.values())

    def ok(ref):
        want = det.get(ref.id)
        name = ref.datasetType.nameAndComponent()[0]
        return want == (name, tuple(ref.dataId.full_values), ref.run)

    node = qg.quantum_only_xgraph.nodes[qid]
    b.update(task=node["task_label"], data=str(tuple(quantum.dataId.full_values)),
             ins=[num.d.get(r.id, -1) for r in ins], outs=[num.d.get(r.id, -1) for r in outs],
             initins=[num.d.get(r.id, -1) for r in inits],
             refsok=all(map(ok, itertools.chain(ins, outs, inits))),
             expanded=quantum.dataId.hasRecords() and all(r.dataId.hasRecords() for r in ins + outs))
    return b


def history(rng, ids, extra):
    ops = []
    for _ in range(rng.randint(0, 4)):
        op = rng.choices(["thin", "init", "dim", "datasets", "exec", "everything"], [2, 1, 1, 4, 4, 1])[0]
        sub = rng.sample(ids, rng.randint(0, min(4, len(ids))))
        if extra and rng.random() < 0.15:
            sub.append(rng.choice(extra))
        ops.append({"op": op, "all": op in ("datasets", "exec") and rng.random() < 0.2, "ids": sub})
    return ops


def replay(comps, num, g, det, uri, ops, rng):
    from lsst.pipe.base.quantum_graph import PredictedQuantumGraph

    rec = {"g": g, "ops": ops, "error": "", "view": {}, "built": [], "unknown": "LookupError",
           "page": rng.choice([1, 60, 100, 5_000_000])}
    inv = {v: k for k, v in (num.q | num.iq).items()}
    try:
        with PredictedQuantumGraph.open(uri, page_size=rec["page"]) as reader:
            if rng.random() < 0.2:
                try:
                    reader.read_quantum_datasets([uuid.UUID(int=rng.getrandbits(128))])
                    rec["unknown"] = ""
                except Exception as exc:
                    rec["unknown"] = exc_name(exc)
            for op in ops:
                ids = None if op["all"] else [inv[i] for i in op["ids"]]
                if ids is not None and rng.random() < 0.3:
                    ids = iter(ids)
                match op["op"]:
                    case "thin":
                        reader.read_thin_graph()
                    case "init":
                        reader.read_init_quanta()
                    case "dim":
                        reader.read_dimension_data()
                    case "datasets":
                        reader.read_quantum_datasets(ids)
                    case "exec":
                        reader.read_execution_quanta(ids)
                    case "everything":
                        reader.read_all()
            if rng.random() < 0.5:
                qg = reader.finish()
            else:
                qg = None
        qg = qg or reader.finish()
        rec["header"] = header(reader.header)
        rec["view"] = view(qg, num)
        known = list(qg.quantum_only_xgraph.nodes)
        for qid in rng.sample(known, min(4, len(known))):
            rec["built"].append(built(qg, qid, num, det))
        missing = [q for q in num.q if q not in qg.quantum_only_xgraph]
        if missing:
            rec["built"].append(built(qg, rng.choice(missing), num, det))
    except Exception as exc:
        rec["error"], rec["message"] = exc_name(exc), traceback.format_exc()[-1500:]
        rec["header"] = header(comps.header)
    return rec


def header(h):
    return {"n_quanta": h.n_quanta, "n_task": [[k, v] for k, v in h.n_task_quanta.items()], "n_datasets": h.n_datasets}


def rename(comps, num, g, rng):
    """Change the output run and compare every position in the graph before and after."""
    newrun = "renamed_run"
    old = copy.deepcopy((comps.init_quanta, comps.quantum_datasets))
    rec = {"before": g, "error": "", "newrun": newrun, "map": [], "edges": [], "after": {}}
    try:
        comps.update_output_run(newrun)
        after_num = Numbering(comps)
        pos = lambda iq, qds: [  # noqa: E731
            ds for qd in itertools.chain(iq.root, qds.values())
            for ds in itertools.chain(*qd.inputs.values(), *qd.outputs.values())]
        before, after = pos(*old), pos(comps.init_quanta, comps.quantum_datasets)
        fresh = {}
        maps = [set() for _ in num.d]
        runs = [set() for _ in num.d]
        oldruns = [set() for _ in num.d]
        for x, y in zip(before, after, strict=True):
            k = num.d[x.dataset_id] - 1
            if y.dataset_id in num.d:
                new = num.d[y.dataset_id]
            else:
                new = fresh.setdefault(y.dataset_id, 1000 + len(fresh))
            maps[k].add(new)
            runs[k].add(y.run)
            oldruns[k].add(x.run)
        rec["map"] = [sorted(m) for m in maps]
        rec["runs"] = [sorted(m) for m in runs]
        rec["oldruns"] = [sorted(m) for m in oldruns]
        rec["after"] = {"quanta": [{"task": q.task_label, "data": str(tuple(q.data_coordinate))}
                                   for q in comps.quantum_datasets.values()]}
        olds = {q.quantum_id for q in itertools.chain(old[0].root, old[1].values())}
        news = {q.quantum_id for q in itertools.chain(comps.init_quanta.root, comps.quantum_datasets.values())}
        rec["all_new_quanta"] = not (olds & news) and set(comps.quantum_datasets) <= news
        qg = comps.assemble()
        rec["edges"] = [[after_num.q[a], after_num.q[b]] for a, b in qg.quantum_only_xgraph.edges]
        rec["headerrun"] = qg.header.output_run
    except Exception as exc:
        rec["error"] = exc_name(exc)
    return rec


def batch(args):
    seed, n_graphs, n_hist, given = args
    from .richqg import rich_components

    logging.getLogger("lsst").setLevel(logging.CRITICAL)
    rng = random.Random(seed)
    recs, renames, olds = [], [], []
    with tempfile.TemporaryDirectory(prefix="verif-p09-") as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in range(n_graphs):
            comps = rich_components(rng)
            num = Numbering(comps)
            g, det = abstract(comps, num), details(comps)
            uri = os.path.join(tmp, f"g{k}.qg")
            kw = {}
            if rng.random() < 0.3:
                kw = {"zstd_dict_n_inputs": rng.choice([1, 5]), "zstd_dict_size": rng.choice([0, 300, 32768])}
            comps.write(uri, **kw)
            ids, extra = sorted(num.q.values()), sorted(num.iq.values())
            for _ in range(n_hist):
                recs.append(replay(comps, num, g, det, uri, history(rng, ids, extra), rng))
            for ops in given[k::n_graphs]:
                # ids 1..3 of the model are mapped to quanta of this graph, 4 to an init quantum
                m = {i + 1: rng.choice(ids) for i in range(3)} | {4: rng.choice(extra)}
                recs.append(replay(comps, num, g, det, uri,
                                   [{**op, "ids": [m[i] for i in op["ids"]]} for op in ops], rng))
            # read back completely, write again, read again
            from lsst.pipe.base.quantum_graph import PredictedQuantumGraph
            with PredictedQuantumGraph.open(uri) as reader:
                reader.read_all()
            uri2 = os.path.join(tmp, f"h{k}.qg")
            reader.components.write(uri2)
            recs.append(replay(comps, num, g, det, uri2,
                               [{"op": "everything", "all": True, "ids": []}], rng))
            # old format and back
            uri3 = os.path.join(tmp, f"g{k}.qgraph")
            comps.write(uri3)
            olds.append(replay_old(num, g, det, uri3, rng))
            if rng.random() < 0.5:
                with PredictedQuantumGraph.open(uri) as reader:
                    reader.read_all()
                comps = reader.components
            # pretend some overall inputs are already in the output run
            if rng.random() < 0.4:
                prod = {ds.dataset_id for qd in itertools.chain(comps.init_quanta.root, comps.quantum_datasets.values())
                        for ds in itertools.chain(*qd.outputs.values())}
                chosen = {d for d in num.d if d not in prod and rng.random() < 0.5}
                for qd in itertools.chain(comps.init_quanta.root, comps.quantum_datasets.values()):
                    for ds in itertools.chain(*qd.inputs.values()):
                        if ds.dataset_id in chosen:
                            ds.run = comps.header.output_run
            renames.append(rename(comps, num, g, rng))
            for u in (uri, uri2, uri3):
                os.remove(u)
    return recs, renames, olds


def replay_old(num, g, det, uri, rng):
    from lsst.pipe.base.quantum_graph import PredictedQuantumGraph

    ids = sorted(num.q.values())
    inv = {v: k for k, v in num.q.items()}
    op = {"op": "everything", "all": True, "ids": []}
    rec = {"g": g, "ops": [op], "error": "", "built": [], "view": {}}
    try:
        qg = PredictedQuantumGraph.read_execution_quanta(uri)
        rec["view"] = view(qg, num)
        for i in rng.sample(ids, min(3, len(ids))):
            rec["built"].append(built(qg, inv[i], num, det))
    except Exception as exc:
        rec["error"], rec["message"] = exc_name(exc), traceback.format_exc()[-1500:]
    return rec


def run(c: Check) -> None:
    c.model("MCQGFile", CFG.format(o=c.scale(3, 4), e="FALSE",
                                   inv="INVARIANTS Idempotent Closed\nPROPERTY Monotone"), name="reading orders")
    given = c.behaviours("MCQGFile", CFG.format(o=2, e="TRUE", inv="INVARIANT Emit"))
    n = c.scale(6, 40)
    parts = c.pmap(batch, [(f"{c.seed}:p09:{k}", n, c.scale(12, 40), given[k::8]) for k in range(8)])
    recs = [r for p in parts for r in p[0]]
    c.judge("QGFile", recs, op="QGFileVerdict", kind="reading histories", chunk=100)
    c.judge("QGFile", [r for p in parts for r in p[1]], op="RenameVerdict", kind="output run changes", chunk=20)
    c.judge("QGFile", [r for p in parts for r in p[2]], op="OldFormatVerdict", kind="old format round trips", chunk=20)
    c.notes["graphs"] = n * 8
