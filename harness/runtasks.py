"""Tasks that follow a plan, and helpers to execute a whole graph of them."""
from __future__ import annotations

from lsst.pipe.base import (
    AlgorithmError,
    AnnotatedPartialOutputsError,
    NoWorkFound,
    UnprocessableDataError,
)
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask, DynamicTestPipelineTaskConfig, MockDataset
from lsst.pipe.base.tests.mocks._pipeline_task import DynamicTestPipelineTaskConnections

PLANS: dict = {}  # (task label, data ID values) -> {"skip": connections not written, "ending": str}; empty: build time
ENDINGS = ["ok", "nowork", "unprocessable", "partial", "error", "initfail", "adjustfail", "adjustnowork"]


class PlanError(Exception):
    pass


class PlanPartial(AlgorithmError):
    @property
    def metadata(self):
        return {"n": 1}


def key(label, data_id):
    return label, tuple(data_id.required_values)


class PlanConnections(DynamicTestPipelineTaskConnections, dimensions=()):
    def adjustQuantum(self, inputs, outputs, label, data_id):
        plan = PLANS.get(key(label, data_id))
        if plan is not None and plan["ending"] == "adjustfail":
            raise FileNotFoundError("planned")
        if plan is not None and plan["ending"] == "adjustnowork":
            raise NoWorkFound("planned")
        return super().adjustQuantum(inputs, outputs, label, data_id)


class PlanConfig(DynamicTestPipelineTaskConfig, pipelineConnections=PlanConnections):
    pass


class PlanTask(DynamicTestPipelineTask):
    ConfigClass = PlanConfig

    def __init__(self, **kwargs):
        if PLANS.get("initfail") == kwargs.get("name"):
            raise PlanError("init")
        super().__init__(**kwargs)

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        quantum = butlerQC.quantum
        plan = PLANS.get(key(self.getName(), quantum.dataId), {"skip": (), "ending": "ok"})
        for name, ref in outputRefs:
            if name not in plan["skip"]:
                butlerQC.put(MockDataset(dataset_id=ref.id, dataset_type=ref.datasetType.to_simple(),
                                         data_id=dict(ref.dataId.mapping), run=ref.run), ref)
        match plan["ending"]:
            case "nowork":
                raise NoWorkFound("planned")
            case "unprocessable":
                raise UnprocessableDataError("planned")
            case "error":
                raise PlanError("planned")
            case "partial":
                try:
                    raise PlanPartial("planned")
                except PlanPartial as exc:
                    raise AnnotatedPartialOutputsError.annotate(exc, self, log=self.log) from exc


def random_plan(rng, q, p_bad=0.3):
    """Plan for a quantum with the given output connections."""
    outs = [c for c in q.outputs if c not in ("_log", "_metadata")]
    ending = rng.choice(ENDINGS[1:5] + ENDINGS[6:]) if rng.random() < p_bad else "ok"
    if rng.random() < 0.15 * (p_bad > 0):
        ending = "error"
    skip = [c for c in outs if rng.random() < (0.15 if ending == "ok" else 0.5)]
    return {"skip": skip, "ending": ending}
