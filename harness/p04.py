"""P04: user-requested execution order (fixups)."""
from __future__ import annotations

import warnings

from lsst.pipe.base.exec_fixup_data_id import ExecFixupDataId
from lsst.pipe.base.execution_graph_fixup import ExecutionGraphFixup
from lsst.pipe.base.tests.mocks import InMemoryRepo

from .exec_common import run_in_process, run_mp_sim
from .qgs import D, index_qg
from .vlib import Check

DIMS = [["detector"], ["detector", "physical_filter"], ["physical_filter"], []]


class EdgeFixup(ExecutionGraphFixup):
    def __init__(self, edges):
        self.edges = edges

    def fixup_graph(self, xgraph, quanta_by_task):
        xgraph.add_edges_from(self.edges)


class LegacyFixup(ExecutionGraphFixup):
    def __init__(self, edges):
        self.edges = edges

    def fixupQuanta(self, graph):
        nodes = {n.nodeId: n for n in graph}
        graph.graph.add_edges_from((nodes[a], nodes[b]) for a, b in self.edges)
        return graph


def make_qg(rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with InMemoryRepo("base.yaml") as repo:
            n = rng.randint(1, 3)
            dims = [rng.choice(DIMS[:2] if i == 0 else DIMS) for i in range(n)]
            names = [f"t{i}" for i in range(n)]
            rng.shuffle(names)
            for i in range(n):
                inputs = {}
                for j in range(i):
                    if rng.random() < 0.6:
                        inputs[f"i{j}"] = D(dataset_type_name=f"d{j}", dimensions=dims[j],
                                            multiple=not set(dims[j]) <= set(dims[i]))
                repo.add_task(names[i], dimensions=dims[i], inputs=inputs,
                              outputs={"o": D(dataset_type_name=f"d{i}", dimensions=dims[i])})
            return repo.make_quantum_graph()


def scenario(rng, qg, idx):
    """Pick a fixup; return (fixup, extra record fields)."""
    g = qg.quantum_only_xgraph
    inv = {i: q for q, i in idx.items()}
    kind = rng.choice(["dataid", "dataid", "dataid", "edges", "legacy"])
    if kind == "dataid":
        tasks = sorted({g.nodes[q]["task_label"] for q in g if g.nodes[q]["data_id"].dimensions})
        if tasks:
            task = rng.choice(tasks)
            quanta = [q for q in g if g.nodes[q]["task_label"] == task]
            dims = [d for d in ("instrument", "detector", "physical_filter")
                    if d in g.nodes[quanta[0]]["data_id"].dimensions]
            use = rng.sample(dims, rng.randint(1, len(dims)))
            keys = {q: tuple(g.nodes[q]["data_id"][d] for d in use) for q in quanta}
            ranks = {k: i for i, k in enumerate(sorted(set(keys.values())))}
            rev = rng.random() < 0.5
            arg = use[0] if len(use) == 1 and rng.random() < 0.5 else tuple(use)
            return ExecFixupDataId(task, arg, reverse=rev), {
                "fix": [{"k": idx[q], "key": ranks[keys[q]]} for q in quanta], "rev": rev}
    pairs = []
    ids = sorted(inv)
    for _ in range(rng.randint(1, 4)):
        a, b = rng.choice(ids), rng.choice(ids)
        if a != b:
            pairs.append((a, b))
    if rng.random() < 0.7:
        pairs = [(min(p), max(p)) for p in pairs]
    fix = (EdgeFixup if kind != "legacy" else LegacyFixup)([(inv[a], inv[b]) for a, b in pairs])
    return fix, {"extra": [list(p) for p in pairs]}


def run(c: Check) -> None:
    c.model("MCInProc", "CONSTANTS N = 3\n Gen = FALSE\nSPECIFICATION Spec\nINVARIANTS AtMostOnce UpstreamOK "
            "Independence OneLine\nCHECK_DEADLOCK FALSE\n", name="InProc N=3")
    rng = c.rng
    inproc, mp = [], []
    for g in range(c.scale(25, 100)):
        qg = make_qg(rng)
        idx, edges = index_qg(qg)
        for s in range(c.scale(16, 60)):
            fixup, extra = scenario(rng, qg, idx)
            pf = rng.choice([0.0, 0.15])
            if s % 2:
                outcomes = {i: "fail" for i in idx.values() if rng.random() < pf}
                inproc.append(run_in_process(qg, idx, edges, outcomes, False, fixup=fixup, extra=extra))
            else:
                plans = {i: {"dur": rng.random() * 2, "kind": "fail" if rng.random() < pf else "ok",
                             "on_term": "die"} for i in idx.values()}
                mp.append(run_mp_sim(qg, idx, edges, plans, False, rng.randint(2, 6), 1000.0, fixup=fixup,
                                     extra=extra))
    c.judge("InProc", inproc, kind="in-process with fixup")
    c.judge("MpExec", mp, kind="pool with fixup")
