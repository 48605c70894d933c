"""Builders of small quantum graphs with known structure for the drivers."""
from __future__ import annotations

import warnings

from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, DynamicTestPipelineTask, InMemoryRepo

D = DynamicConnectionConfig
DET = ["detector"]


class MPOffTask(DynamicTestPipelineTask):
    canMultiprocess = False


def add_random_tasks(repo, rng, n_tasks, *, p_edge=0.5, p_det=0.4, label="t"):
    """Add tasks in a random DAG; some run once, some once per detector."""
    labels = [f"{label}{i}" for i in range(n_tasks)]
    names = list(labels)
    rng.shuffle(names)
    dims = [DET if rng.random() < p_det else [] for _ in range(n_tasks)]
    for i in range(n_tasks):
        inputs = {}
        for j in range(i):
            if rng.random() < p_edge:
                multiple = bool(dims[j]) and not dims[i]
                inputs[f"i{j}"] = D(dataset_type_name=f"d{j}", dimensions=dims[j], multiple=multiple)
        repo.add_task(names[i], dimensions=dims[i], inputs=inputs,
                      outputs={"o": D(dataset_type_name=f"d{i}", dimensions=dims[i])})


def random_qg(rng, n_tasks=4, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with InMemoryRepo("base.yaml") as repo:
            add_random_tasks(repo, rng, n_tasks, **kwargs)
            return repo.make_quantum_graph()


def index_qg(qg):
    """Number the quanta 1..n; return (id->index, edges)."""
    g = qg.quantum_only_xgraph
    order = sorted(g.nodes, key=lambda q: (g.nodes[q]["task_label"], str(g.nodes[q]["data_id"].required_values)))
    idx = {q: i + 1 for i, q in enumerate(order)}
    return idx, [[idx[a], idx[b]] for a, b in g.edges]
