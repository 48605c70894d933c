"""Tasks whose constructors consume and produce datasets."""
from __future__ import annotations

import json

from astropy.table import Table

from lsst.pex.config import Field
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections, TaskMetadata
from lsst.pipe.base import connectionTypes as cT

SC = {"dict": "StructuredDataDict", "md": "TaskMetadata", "tab": "ArrowAstropy"}
HOW = {"dict": ["full"], "md": ["full", "asdict"], "tab": ["full", "columns", "asnp"]}
READ_SC = {("dict", "full"): "StructuredDataDict", ("md", "full"): "TaskMetadata", ("md", "asdict"): "StructuredDataDict",
           ("tab", "full"): "ArrowAstropy", ("tab", "columns"): "ArrowColumnList", ("tab", "asnp"): "ArrowNumpyDict"}
SAW: dict = {}


def build(kind, c, how="full"):
    if how == "columns":
        return [c]
    if how == "asnp":
        import numpy as np
        return {c: np.array([1])}
    if kind == "tab":
        return Table({c: [1]})
    if kind == "md" and how == "full":
        m = TaskMetadata()
        m["v"] = c
        return m
    return {"v": c}


def read(kind, how, obj):
    try:
        if how == "columns":
            (c,) = list(obj)
            return c
        if how == "asnp":
            (c,) = obj
            return c if type(obj) is dict else "?"
        if kind == "tab":
            (c,) = obj.colnames
            return c if isinstance(obj, Table) else "?"
        want = TaskMetadata if kind == "md" and how == "full" else dict
        return obj["v"] if type(obj) is want else "?"
    except Exception as exc:
        return "?" + type(exc).__name__


def spoil(kind, how, obj):
    if how == "columns":
        if isinstance(obj, list):
            obj[0] = "spoiled"
    elif how == "asnp":
        obj["spoiled"] = obj.pop(next(iter(obj)))
    elif kind == "tab":
        obj.rename_column(obj.colnames[0], "spoiled")
    else:
        obj["v"] = "spoiled"


class InitConnections(PipelineTaskConnections, dimensions=("instrument", "detector")):
    raw = cT.Input(name="ir_raw", dimensions=("instrument", "detector"), storageClass="StructuredDataDict")

    def __init__(self, *, config=None):
        spec = json.loads(config.spec)
        for k, x in enumerate(spec["ins"]):
            name = x["ds"] + ("." + x["how"] if x["how"] == "columns" else "")
            setattr(self, f"i{k}", cT.InitInput(name=name, storageClass=READ_SC[x["kind"], x["how"]]))
        for k, x in enumerate(spec["outs"]):
            setattr(self, f"o{k}", cT.InitOutput(name=x["ds"], storageClass=SC[x["kind"]]))
        for k, n in enumerate(spec["after"]):
            setattr(self, f"r{k}", cT.Input(name=n, dimensions=("instrument", "detector"), storageClass="StructuredDataDict"))
        self.out = cT.Output(name=spec["out"], dimensions=("instrument", "detector"), storageClass="StructuredDataDict")


class InitConfig(PipelineTaskConfig, pipelineConnections=InitConnections):
    spec = Field[str](doc="connections", dtype=str, default='{"ins": [], "outs": [], "after": [], "out": "nothing", "spoil": false}')
    val = Field[int](doc="value", dtype=int, default=0)


class InitTask(PipelineTask):
    ConfigClass = InitConfig
    _DefaultName = "initTask"

    def __init__(self, *, initInputs=None, **kwargs):
        super().__init__(initInputs=initInputs, **kwargs)
        spec = json.loads(self.config.spec)
        label = self.getName()
        got = [read(x["kind"], x["how"], initInputs.get(f"i{k}")) for k, x in enumerate(spec["ins"])]
        SAW[label] = got
        if spec["spoil"]:
            for k, x in enumerate(spec["ins"]):
                spoil(x["kind"], x["how"], initInputs[f"i{k}"])
        for k, x in enumerate(spec["outs"]):
            c = f"{label}:{self.config.val}(" + "".join(g + "," for g in got) + ")" + x["ds"]
            setattr(self, f"o{k}", build(x["kind"], c))

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        butlerQC.put({"n": 1}, outputRefs.out)
