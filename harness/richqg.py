"""Random quantum graphs with init datasets, prerequisites, components and shared dataset types."""
from __future__ import annotations

import warnings

from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, InMemoryRepo

from .qgtasks import RuleTask  # noqa: F401  (registers the task class)

D = DynamicConnectionConfig
DIMS = [[], ["detector"], ["physical_filter"], ["detector", "physical_filter"]]


def _sub(a, b):
    return set(a) <= set(b)


def add_rich_tasks(repo, rng, n, task_class=None):
    """Add n tasks t0..t(n-1) in a random DAG under shuffled labels; returns the labels in dependency order."""
    labels = [f"t{i}" for i in range(n)]
    rng.shuffle(labels)
    dims = [rng.choices(DIMS, [3, 4, 1, 1])[0] for _ in range(n)]
    outs = [{} for _ in range(n)]  # task index -> connection -> (dataset type, dims, storage class)
    for i in range(n):
        inputs, prereq, init_in, init_out = {}, {}, {}, {}
        for j in range(i):
            for cname, (dt, dd, sc) in outs[j].items():
                if rng.random() < 0.45:
                    multiple = not _sub(dd, dims[i])
                    name, sclass = dt, sc
                    if sc == "ArrowTable" and rng.random() < 0.6:
                        name, sclass = f"{dt}.columns", "ArrowColumnList"
                    inputs[f"i{j}{cname}"] = D(dataset_type_name=name, dimensions=dd, multiple=multiple,
                                               storage_class=sclass, minimum=rng.choice([0, 1]))
                    if rng.random() < 0.15:
                        inputs[f"i{j}{cname}x"] = D(dataset_type_name=name, dimensions=dd, multiple=multiple,
                                                    storage_class=sclass)
            if rng.random() < 0.3:
                init_in[f"ii{j}"] = D(dataset_type_name=f"s{j}")
        if rng.random() < 0.4 or not inputs:
            k = rng.randrange(2)
            inputs["r"] = D(dataset_type_name=f"raw{k}", dimensions=["detector"],
                            multiple=not _sub(["detector"], dims[i]))
        if rng.random() < 0.3:
            prereq["p"] = D(dataset_type_name=f"pre{rng.randrange(2)}", dimensions=["detector"],
                            multiple=not _sub(["detector"], dims[i]), minimum=0)
        if rng.random() < 0.2:
            init_in["ix"] = D(dataset_type_name="ext")
        init_out["s"] = D(dataset_type_name=f"s{i}")
        conf = {}
        for c in ("o", "q")[:rng.choice([1, 1, 2])]:
            sc = rng.choice(["StructuredDataDict", "ArrowTable"])
            outs[i][c] = (f"d{i}{c}", dims[i], sc)
            conf[c] = D(dataset_type_name=f"d{i}{c}", dimensions=dims[i], storage_class=sc)
        how = {} if task_class is None else {"task_class": task_class, "config": task_class.ConfigClass()}
        repo.add_task(labels[i], **how, dimensions=dims[i], inputs=inputs, outputs=conf, prerequisite_inputs=prereq,
                      init_inputs=init_in, init_outputs=init_out)
    return labels


def rich_components(rng, n=None, output_run="output_run", **kwargs):
    """Build a graph; returns its components (repository contents are discarded)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with InMemoryRepo("base.yaml") as repo:
            add_rich_tasks(repo, rng, n or rng.randint(1, 5))
            return repo.make_quantum_graph_builder(output_run=output_run).finish(
                attach_datastore_records=False, output=rng.choice([None, "out_chain"]), **kwargs)
