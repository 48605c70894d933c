"""Pipeline graphs: building them from plain descriptions and describing them again."""
from __future__ import annotations

import io
import itertools
import logging

from lsst.pipe.base.pipeline_graph import (
    NodeType,
    PipelineGraph,
    StepDefinitions,
    TaskImportMode,
    UnresolvedGraphError,
)
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig as D
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask, DynamicTestPipelineTaskConfig

logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)
KINDS = {"ins": "inputs", "pre": "prerequisite_inputs", "outs": "outputs", "iin": "init_inputs", "iout": "init_outputs"}
EMPTY = {"ins": [], "pre": [], "outs": [], "iin": [], "iout": []}


def make_config(task: dict, dsdims: dict) -> DynamicTestPipelineTaskConfig:
    """task: label, dims, and lists of dataset type names ins, pre, outs, iin, iout."""
    cfg = DynamicTestPipelineTaskConfig()
    cfg.dimensions = task["dims"]
    for kind, attr in KINDS.items():
        conns = getattr(cfg, attr)
        for ds in task[kind]:
            sc = "StructuredDataDict"
            mock = True
            if ds.endswith("_metadata"):
                sc, mock = "TaskMetadata", False
            conns[f"{kind}_{ds}"] = D(
                dataset_type_name=ds, dimensions=[] if kind in ("iin", "iout") else dsdims.get(ds, task["dims"]),
                storage_class=sc, mock_storage_class=mock, multiple=kind not in ("iin", "iout"))
    return cfg


def describe_task(node) -> dict:
    """What a task node says about itself (connections by dataset type name)."""
    auto = {node.label + "_metadata", node.label + "_log"}
    return {
        "label": node.label,
        "dims": sorted(node.raw_dimensions),
        "ins": sorted(e.parent_dataset_type_name for e in node.inputs.values()),
        "pre": sorted(e.parent_dataset_type_name for e in node.prerequisite_inputs.values()),
        "outs": sorted({e.parent_dataset_type_name for e in node.iter_all_outputs()} - auto),
        "iin": sorted(e.parent_dataset_type_name for e in node.init.inputs.values()),
        "iout": sorted(e.parent_dataset_type_name for e in node.init.outputs.values()),
    }


PREFIX = {NodeType.TASK: "T:", NodeType.TASK_INIT: "I:", NodeType.DATASET_TYPE: "D:"}


def view(pg: PipelineGraph) -> dict:
    """Everything observable about a pipeline graph."""
    v = {
        "tasks": [describe_task(pg.tasks[label]) for label in pg.tasks],
        "dts": sorted(pg.dataset_types),
        "sorted": pg.has_been_sorted,
        "order": [PREFIX[t] + n for t, n, _ in pg.iter_nodes()],
        "taskorder": list(pg.tasks),
        "dsorder": list(pg.dataset_types),
        "subsets": [{"label": label, "members": sorted(s), "step": s.is_step} for label, s in pg.task_subsets.items()],
        "steps": list(pg.steps),
        "verified": pg.steps.verified,
        "full": pg.is_fully_resolved,
        "resolved": [],
        "info": [],
        "edges": [],
        "stepof": [],
        "stepdims": [],
        "taskdims": [],
    }
    if not v["sorted"]:
        # the order is arbitrary as long as the graph has not been sorted
        for key in ("order", "taskorder", "dsorder"):
            v[key].sort()
        v["tasks"].sort(key=lambda t: t["label"])
    for name in v["dts"]:
        if pg.dataset_types.is_resolved(name):
            v["resolved"].append(name)
            n = pg.dataset_types[name]
            v["info"].append({
                "name": name, "type": n.dataset_type.name, "prereq": n.is_prerequisite,
                "producer": n.producing_edge.task_label if n.producing_edge is not None else "",
                "consumers": sorted({e.task_label for e in n.consuming_edges}),
                "dims": sorted(n.dimensions.required),
            })
    x = pg.make_xgraph()
    for a, b in sorted({(PREFIX[a.node_type] + a.name, PREFIX[b.node_type] + b.name) for a, b in x.edges()}):
        v["edges"].append([a, b])
    if v["steps"] and v["verified"]:
        for label in pg.tasks:
            try:
                v["stepof"].append([label, pg.get_task_step(label)])
            except Exception as exc:
                v["stepof"].append([label, "!" + type(exc).__name__])
    v["stepdims"] = step_dims(pg)
    return v


SHARDS = ([], ["instrument"], ["detector", "instrument"])


def step_dims(pg) -> list:
    """The sharding dimensions of each step (known to be one of SHARDS)."""
    steps = list(pg.steps)
    try:
        return [{"label": x, "dims": sorted(pg.steps.get_dimensions(x).names)} for x in steps]
    except UnresolvedGraphError:
        pass
    # not available yet: find out by comparison
    for dims in itertools.product(SHARDS, repeat=len(steps)):
        if pg.steps == StepDefinitions(dimensions_by_label={x: frozenset(d) for x, d in zip(steps, dims)}):
            return [{"label": x, "dims": d} for x, d in zip(steps, dims)]
    return [{"label": x, "dims": ["?"]} for x in steps]


def roundtrip(pg: PipelineGraph, mode="none") -> PipelineGraph:
    stream = io.BytesIO()
    pg._write_stream(stream)
    stream.seek(0)
    m = {"none": TaskImportMode.DO_NOT_IMPORT, "assume": TaskImportMode.ASSUME_CONSISTENT_EDGES,
         "require": TaskImportMode.REQUIRE_CONSISTENT_EDGES, "override": TaskImportMode.OVERRIDE_EDGES}[mode]
    return PipelineGraph._read_stream(stream, import_mode=m)


class Editor:
    """Applies described operations to a real pipeline graph."""

    def __init__(self, dsdims: dict):
        self.pg = PipelineGraph()
        self.dsdims = dsdims
        self.others: list = []

    def nodes(self, items):
        out = []
        for t in items:
            g = PipelineGraph()
            out.append(g.add_task(t["label"], DynamicTestPipelineTask, make_config(t, self.dsdims)))
        return out

    def apply(self, op: dict) -> str:
        """Returns the name of the exception raised, if any."""
        try:
            self._apply(op)
        except Exception as exc:
            return type(exc).__name__
        return ""

    def _apply(self, op):
        pg = self.pg
        k = op["op"]
        if k in ("stepadd", "shard") and op["label"] not in pg.task_subsets:
            # a step that is not a subset is invalid anyway; nothing is said about its dimensions
            op["dims"] = []
        if k == "add":
            items = op["items"]
            if len(items) == 1 and op.get("direct", True):
                pg.add_task(items[0]["label"], DynamicTestPipelineTask, make_config(items[0], self.dsdims))
            else:
                pg.add_task_nodes(self.nodes(items))
        elif k == "remove":
            pg.remove_tasks(op["labels"], drop_from_subsets=op["drop"])
        elif k == "reconf":
            cfgs = {t["label"]: make_config(t, self.dsdims) for t in op["items"]}
            pg.reconfigure_tasks(check_edges_unchanged=op["check"], **cfgs)
        elif k == "addsub":
            pg.add_task_subset(op["label"], op["members"])
        elif k == "delsub":
            pg.remove_task_subset(op["label"])
        elif k == "subadd":
            pg.task_subsets[op["label"]].add(op["task"])
        elif k == "subdel":
            pg.task_subsets[op["label"]].discard(op["task"])
        elif k == "stepadd":
            pg.steps.append(op["label"], op.get("dims", ()))
        elif k == "shard":
            pg.steps.set_dimensions(op["label"], op["dims"])
        elif k == "stepdel":
            pg.steps.remove(op["label"])
        elif k == "steps":
            pg.steps = op["labels"]
        elif k == "resolve":
            pg.resolve()
        elif k == "sort":
            pg.sort()
        elif k == "copy":
            # carry on with the copy; the original must not be affected any more
            self.pg = pg.copy()
            self.others.append((pg, view(pg)))
        elif k == "roundtrip":
            self.pg = roundtrip(pg, op["mode"])
        else:
            raise AssertionError(k)
