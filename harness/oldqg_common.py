"""Quantum graphs of the older class."""
from __future__ import annotations

import io
import itertools
import logging
import os
import pickle
import random
import tempfile
import uuid
import warnings

from lsst.pipe.base import QuantumGraph
from lsst.pipe.base.quantum_graph import PredictedQuantumGraph

from . import zipfix  # noqa: F401
from .richqg import rich_components


def err(exc):
    return [c.__name__ for c in type(exc).__mro__]


class Numbers:
    """Small numbers for the quanta and datasets of one graph, following datasets to new identifiers."""

    def __init__(self, graph):
        self.q = {n.nodeId: i + 1 for i, n in enumerate(sorted(graph, key=lambda n: (n.taskDef.label, str(n.quantum.dataId))))}
        self.inv = {v: k for k, v in self.q.items()}
        self.d = {}
        self.types = []
        for r in refs_of(graph):
            if r.id not in self.d:
                self.d[r.id] = len(self.d) + 1
                self.types.append(r.datasetType.nameAndComponent()[0])

    def Q(self, x):
        return self.q.get(x, -1)

    def D(self, refs):
        return [self.d.get(r.id, -1) for r in refs]


def init_refs(graph):
    for t in graph.iterTaskGraph():
        yield from graph.initInputRefs(t) or []
        yield from graph.initOutputRefs(t) or []
    yield from graph.globalInitOutputRefs()


def refs_of(graph):
    for n in sorted(graph, key=lambda n: (n.taskDef.label, str(n.quantum.dataId))):
        yield from itertools.chain(*n.quantum.inputs.values(), *n.quantum.outputs.values(), n.quantum.initInputs.values())
    yield from init_refs(graph)


def whole(graph, num):
    """The graph as the specification has it."""
    quanta = []
    for n in sorted(graph, key=lambda n: num.Q(n.nodeId)):
        q = n.quantum
        quanta.append({"task": n.taskDef.label, "data": str(q.dataId), "ins": num.D(itertools.chain(*q.inputs.values())),
                       "outs": num.D(itertools.chain(*q.outputs.values())), "initins": num.D(q.initInputs.values())})
    tasks = {}
    for t in graph.iterTaskGraph():
        c = t.connections
        tasks[t.label] = {
            "ins": sorted({getattr(c, x).name.partition(".")[0] for x in c.inputs | c.prerequisiteInputs | c.initInputs}),
            "outs": sorted({getattr(c, x).name for x in c.outputs}),
            "initins": num.D(graph.initInputRefs(t) or []), "initouts": num.D(graph.initOutputRefs(t) or [])}
    return {"quanta": quanta, "tasks": tasks, "global": num.D(graph.globalInitOutputRefs()),
            "registry": sorted(t.name for t in graph.registryDatasetTypes()), "types": num.types}


def look(graph, num, rng, nodes, ident):
    """What can be seen of a graph."""
    order = list(graph)
    N = lambda ns: [num.Q(n.nodeId) for n in ns]  # noqa: E731
    v = {"iter": N(order), "len": len(graph), "edges": [[num.Q(a.nodeId), num.Q(b.nodeId)] for a, b in graph.graph.edges],
         "first": N(graph.inputQuanta), "last": N(graph.outputQuanta), "connected": graph.isConnected if order else False,
         "tasks": [t.label for t in graph.taskGraph], "taskedges": [[a.label, b.label] for a, b in graph.taskGraph.edges],
         "taskorder": [t.label for t in graph.iterTaskGraph()], "broken": "", "same": True}
    v["nodes"] = [{"id": num.Q(n.nodeId), "task": n.taskDef.label, "data": str(n.quantum.dataId),
                   "ins": num.D(itertools.chain(*n.quantum.inputs.values())), "outs": num.D(itertools.chain(*n.quantum.outputs.values())),
                   "initins": num.D(n.quantum.initInputs.values()), "preds": N(graph.determineInputsToQuantumNode(n)),
                   "succs": N(graph.determineOutputsOfQuantumNode(n))} for n in order]
    labels = sorted({n.taskDef.label for n in nodes})
    v["bytask"] = []
    for lb in labels:
        t = graph.findTaskDefByLabel(lb)
        v["bytask"].append({"label": lb, "ids": [num.Q(x) for x in graph.get_task_quanta(lb)],
                            "n": 0 if t is None else graph.getNumberOfQuantaForTask(t)})
    back = {id(n.quantum): num.Q(n.nodeId) for n in order}
    v["bytype"] = [{"t": t, "users": [x.label for x in graph.findTasksWithInput(t)],
                    "makers": [x.label for x in [graph.findTaskWithOutput(t)] if x is not None],
                    "all": [x.label for x in graph.tasksWithDSType(t)],
                    "quanta": [back.get(id(q), -1) for q in graph.findQuantaWithDSType(t)]} for t in graph.allDatasetTypes]
    v["has"] = [num.Q(n.nodeId) for n in nodes if n in graph]
    v["hasq"] = [num.Q(n.nodeId) for n in nodes if graph.checkQuantumInGraph(n.quantum)]
    v["found"] = []
    for n in nodes:
        try:
            if graph.getQuantumNodeByNodeId(n.nodeId).nodeId == n.nodeId:
                v["found"].append(num.Q(n.nodeId))
        except KeyError:
            pass
    v["global"] = num.D(graph.globalInitOutputRefs())
    v["registry"] = sorted(t.name for t in graph.registryDatasetTypes())
    v["initouts"] = [{"label": t.label, "ds": num.D(graph.get_init_output_refs(t.label))} for t in graph.iterTaskGraph()]
    v["initins"] = [{"label": t.label, "ds": num.D(graph.get_init_input_refs(t.label))} for t in graph.iterTaskGraph()]
    v["refs"] = []
    for inter in ("none", "yes", "no"):
        f = {"ins": rng.random() < 0.6, "outs": rng.random() < 0.6, "initins": rng.random() < 0.5, "initouts": rng.random() < 0.5}
        refs, _ = graph.get_refs(include_inputs=f["ins"], include_outputs=f["outs"], include_init_inputs=f["initins"],
                                 include_init_outputs=f["initouts"], include_intermediates={"none": None, "yes": True, "no": False}[inter],
                                 conform_outputs=rng.random() < 0.5)
        v["refs"].append(f | {"inter": inter, "ds": num.D(refs)})
    v["summary"] = [{"label": lb, "n": s.numQuanta} for lb, s in graph.getSummary().qgraphTaskSummaries.items()]
    v["same"] = graph.graphID == ident and graph.metadata.get("mark") == 17 and not graph.findCycle()
    try:
        if set(graph.pipeline_graph.tasks) != {n.taskDef.label for n in order}:
            v["broken"] = "pipeline graph"
        graph.universe["detector"]
    except Exception as exc:
        v["broken"] = type(exc).__name__
    return v


def file_op(graph, o, num, rng, tmp):
    ids = None if o["all"] else [num.inv.get(i) or uuid.uuid4() for i in o["ids"]]
    if ids is not None and rng.random() < 0.5:
        ids = [str(i) if rng.random() < 0.5 else i for i in ids]
    gid = "wrong" if o["wrongid"] else (graph.graphID if rng.random() < 0.5 else None)
    path = os.path.join(tmp, "g.qgraph")
    how = rng.choice(["uri", "uri", "read", "bytes"])
    if how == "uri":
        graph.saveUri(path)
        res = QuantumGraph.loadUri(path, nodes=ids, graphID=gid, universe=graph.universe if rng.random() < 0.5 else None)
        QuantumGraph.readHeader(path)
        return res
    with open(path, "wb") as f:
        graph.save(f)
    if how == "read":
        with open(path, "rb") as f:
            return QuantumGraph.load(f, nodes=ids, graphID=gid)
    with open(path, "rb") as f:
        return QuantumGraph.load(io.BytesIO(f.read()), nodes=ids, graphID=gid)


def step(graph, o, num, rng, nodes, tmp, ident):
    """Do one operation; returns the graphs and the record."""
    rec = dict(o) | {"err": [], "out": [], "pick": 1, "moved": [], "runs": [], "meta": "", "newid": False, "wantnewid": False}
    by = {num.Q(n.nodeId): n for n in graph}
    try:
        match o["op"]:
            case "subset":
                ns = [n for n in nodes if num.Q(n.nodeId) in o["ids"]]
                if len(ns) == 1 and rng.random() < 0.5:
                    out = [graph.subset(ns[0])]
                else:
                    out = [graph.subset(rng.choice([list, set, tuple, iter])(ns))]
            case "around":
                out = [graph.determineConnectionsOfQuantumNode(by[o["ids"][0]])]
            case "ancestors":
                out = [graph.determineAncestorsOfQuantumNode(by[o["ids"][0]])]
            case "connected":
                out = list(graph.subsetToConnected())
            case "pickle":
                out = [pickle.loads(pickle.dumps(graph))]
            case "convert":
                path = os.path.join(tmp, "c.qg")
                graph.saveUri(path)
                out = [QuantumGraph.loadUri(path)]
                ident = out[0].graphID
            case "file":
                out = [file_op(graph, o, num, rng, tmp)]
            case "run":
                before = [r.id for r in refs_of(graph)]
                run = f"run{rng.randrange(10**6)}"
                rec["wantnewid"] = rng.random() < 0.5
                old = graph.graphID
                graph.updateRun(run, metadata_key="output_run", update_graph_id=rec["wantnewid"])
                rec["newid"] = graph.graphID != old
                ident = graph.graphID
                after = list(refs_of(graph))
                fresh = {}
                for a, r in zip(before, after, strict=True):
                    k = num.d.get(a, -1)
                    rec["moved"].append([k, num.d.get(r.id) or fresh.setdefault(r.id, 1000 + len(fresh))])
                    rec["runs"].append([k, "new" if r.run == run else "old"])
                for a, r in zip(before, after):
                    num.d[r.id] = num.d.get(a, -1)
                rec["meta"] = "new" if graph.metadata.get("output_run") == run else "old"
                out = [graph]
        if o["op"] == "run":
            nodes = list(graph)  # only these are known to carry the new run
        return out, rec, nodes, ident
    except Exception as exc:
        rec["err"] = err(exc)
        rec["message"] = str(exc)[:200]
        return [], rec, nodes, ident


def history(rng, graph, num, plan, tmp):
    nodes = list(graph)
    ident = graph.graphID
    rec = {"g": whole(graph, num), "view": look(graph, num, rng, nodes, ident), "steps": []}
    n = rng.randint(1, 4) if plan is None else len(plan)
    every = sorted(num.inv)
    cut = False
    for i in range(n):
        here = [num.Q(x.nodeId) for x in graph]
        if plan is not None:
            o = dict(plan[i])
            m = {k + 1: x for k, x in enumerate((here + every)[:3])}
            o["ids"] = [m.get(x, 10**6) for x in o["ids"]]
            if o["op"] in ("around", "ancestors"):
                o["ids"] = [x for x in o["ids"] if x in here] or here[:1]
        else:
            o = {"op": rng.choice(["subset", "subset", "around", "ancestors", "connected", "pickle", "convert", "file", "file", "file", "run"]),
                 "ids": rng.sample(every, rng.randint(0, len(every))), "all": rng.random() < 0.4, "wrongid": rng.random() < 0.08}
            if o["op"] in ("around", "ancestors"):
                o["ids"] = [rng.choice(here)] if here else []
            elif o["op"] == "file" and not o["all"] and rng.random() < 0.9:
                o["ids"] = [x for x in o["ids"] if x in here]
        if o["op"] in ("around", "ancestors") and not o["ids"]:
            continue
        if o["op"] == "convert" and (cut or not here):
            continue  # graphs that lost their init datasets cannot be written in the new format
        known = nodes
        out, s, nodes, ident = step(graph, o, num, rng, nodes, tmp, ident)
        try:
            for x in out:
                s["out"].append(look(x, num, rng, nodes, ident))
        except Exception as exc:
            s["err"], s["message"], s["out"], out = err(exc), str(exc)[:200], [], []
        rec["steps"].append(s)
        if out:
            k = rng.randrange(len(out))
            s["pick"] = k + 1
            graph = out[k]
        cut = cut or o["op"] in ("subset", "around", "ancestors", "connected")
        if o["op"] == "run":
            # quanta of other graphs still name the old run: only this graph's are compared from here on
            if len(nodes) < len(known):
                break
    return rec


def old_batch(arg):
    seed, n, plans = arg
    logging.getLogger("lsst").setLevel(logging.CRITICAL)
    rng = random.Random(seed)
    recs = []
    with tempfile.TemporaryDirectory(prefix="verif-p27-") as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        todo = [None] * n if plans is None else plans
        left = 0
        for p in todo:
            if left == 0:
                comps = rich_components(rng, metadata={"mark": 17})
                path = os.path.join(tmp, "start.qg")
                comps.write(path)
                left = 8
            left -= 1
            graph = QuantumGraph.loadUri(path)
            if len(graph) > 14:
                left = 0
            recs.append(history(rng, graph, Numbers(graph), p, tmp))
    return recs
