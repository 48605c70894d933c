"""Task classes and instruments for pipeline definitions."""
import os as _os

import lsst.pex.config as pexConfig
from lsst.pipe.base import (
    Instrument,
    PipelineTask,
    PipelineTaskConfig,
    PipelineTaskConnections,
)
from lsst.pipe.base import connectionTypes as cT


class ChainConnections(PipelineTaskConnections, dimensions=("instrument",)):
    inp = cT.Input(name="dIn", doc="x", storageClass="StructuredDataDict", dimensions=("instrument",))
    out = cT.Output(name="dOut", doc="x", storageClass="StructuredDataDict", dimensions=("instrument",))


class SubConf(pexConfig.Config):
    x = pexConfig.Field[int](doc="x", default=0)


class ChainConfig(PipelineTaskConfig, pipelineConnections=ChainConnections):
    a = pexConfig.Field[int](doc="x", default=0)
    b = pexConfig.Field[int](doc="x", default=0)
    c = pexConfig.Field[int](doc="x", default=0)
    s = pexConfig.Field[str](doc="x", default="none")
    sub = pexConfig.ConfigField[SubConf](doc="x")


class A(PipelineTask):
    ConfigClass = ChainConfig
    _DefaultName = "aTask"


class B(PipelineTask):
    ConfigClass = ChainConfig
    _DefaultName = "bTask"


class _Inst(Instrument):
    def register(self, registry, *, update=False):
        raise NotImplementedError

    def getRawFormatter(self, dataId):
        raise NotImplementedError


class X(_Inst):
    configPaths = (_os.path.join(_os.path.dirname(__file__), "inst", "X"),)

    @classmethod
    def getName(cls):
        return "X"


class Y(_Inst):
    configPaths = (_os.path.join(_os.path.dirname(__file__), "inst", "Y"),)

    @classmethod
    def getName(cls):
        return "Y"
