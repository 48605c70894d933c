"""Task class for sky/time builds: bounds connections, lookup functions and
no-work rules come from the config."""
from __future__ import annotations

import dataclasses
import json

from lsst.daf.butler import DataCoordinate
from lsst.pex.config import Field
from lsst.pipe.base import NoWorkFound
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask, DynamicTestPipelineTaskConfig
from lsst.pipe.base.tests.mocks import _pipeline_task as _pt

DIMS = ("instrument", "physical_filter", "detector", "visit", "tract", "patch", "htm7", "px1", "px2")
INTS = {"detector", "visit", "tract", "patch", "htm7", "px1", "px2"}


def sid(data_id, px=("", "")) -> list[str]:
    have = data_id.dimensions.required
    names = [*DIMS[:7], *px]
    return [str(data_id[d]) if d and d in have else "" for d in names]


def did(id_, universe, px=("", "")) -> DataCoordinate:
    names = [*DIMS[:7], *px]
    kw = {n: (int(v) if DIMS[i] in INTS else v) for i, (n, v) in enumerate(zip(names, id_)) if v}
    if id_[4]:
        kw["skymap"] = "sk"
    return DataCoordinate.standardize(kw, universe=universe)


class SkyConnections(_pt.DynamicTestPipelineTaskConnections, dimensions=()):
    def __init__(self, *, config=None):
        super().__init__(config=config)
        rules = json.loads(config.rules)
        for name, table in rules.get("lookup", {}).items():
            setattr(self, name, dataclasses.replace(getattr(self, name), lookupFunction=make_lookup(table, rules["px"])))

    def getSpatialBoundsConnections(self):
        return json.loads(self.config.rules).get("sp", ())

    def getTemporalBoundsConnections(self):
        return json.loads(self.config.rules).get("tp", ())

    def adjustQuantum(self, inputs, outputs, label, data_id):
        rules = json.loads(self.config.rules)
        if sid(data_id, rules["px"]) in rules.get("nowork", []):
            raise NoWorkFound("rule")
        return super().adjustQuantum(inputs, outputs, label, data_id)


def make_lookup(table, px):
    def lookup(dataset_type, registry, data_id, collections):
        for row in table:
            if row["q"] == sid(data_id, px):
                for id_ in row["ids"]:
                    # may be None, which callers are documented to accept
                    yield registry.findDataset(dataset_type, did(id_, registry.dimensions, px), collections=collections)
    return lookup


class SkyConfig(DynamicTestPipelineTaskConfig, pipelineConnections=SkyConnections):
    rules = Field[str](dtype=str, default='{"px": ["", ""]}', doc="rules")


class SkyTask(DynamicTestPipelineTask):
    ConfigClass = SkyConfig
