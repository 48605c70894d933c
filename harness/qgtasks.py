"""Task class whose ``adjustQuantum`` follows rules given in its config."""
from __future__ import annotations

import json

from lsst.pex.config import Field
from lsst.pipe.base import NoWorkFound
from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask, DynamicTestPipelineTaskConfig
from lsst.pipe.base.tests.mocks import _pipeline_task as _pt

DIMS = ("instrument", "physical_filter", "detector")


def short_id(data_id) -> list[str]:
    have = data_id.dimensions.required
    return [str(data_id[d]) if d in have else "" for d in DIMS]


SEEN = {}


def parent(conn):
    return conn.name.split(".")[0]


class RuleConnections(_pt.DynamicTestPipelineTaskConnections, dimensions=()):
    def adjustQuantum(self, inputs, outputs, label, data_id):
        rules = json.loads(self.config.rules)
        qid = short_id(data_id)
        adj_in, adj_out = {}, {}
        new_in = dict(inputs)
        for name, (conn, refs) in inputs.items():
            if name not in self.inputs:
                continue
            keep = [r for r in refs
                    if {"q": qid, "ds": parent(conn), "id": short_id(r.dataId)} not in rules["dropin"]]
            if len(keep) != len(refs):
                adj_in[name] = (conn, keep)
                new_in[name] = (conn, keep)
        for name, (conn, refs) in outputs.items():
            keep = [r for r in refs if {"ds": conn.name, "id": short_id(r.dataId)} not in rules["dropout"]]
            if len(keep) != len(refs):
                adj_out[name] = (conn, keep)
        if qid in rules["nowork"]:
            raise NoWorkFound("rule")
        super().adjustQuantum(new_in, outputs, label, data_id)
        return adj_in, adj_out


    def adjust_all_quanta(self, adjuster):
        rules = json.loads(self.config.rules)
        ids = list(adjuster.iter_data_ids())
        names = {n: parent(self.allConnections[n]) for n in self.inputs}
        seen = []
        have = {}
        for d in ids:
            ins = adjuster.get_inputs(d)
            outs = adjuster.get_outputs(d)
            for n in names:
                have.setdefault(names[n], {}).update({json.dumps(short_id(x)): x for x in ins[n]})
            seen.append({"id": short_id(d), "ins": [[names[n], short_id(x)] for n in names for x in ins[n]],
                         "outs": [[self.allConnections[n].name, short_id(x)] for n in self.outputs for x in outs[n]],
                         "full": adjuster.expand_quantum_data_id(d).hasRecords()})
        SEEN[adjuster.task_label] = seen
        by_id = {json.dumps(short_id(d)): d for d in ids}
        for e in rules.get("addin", []):
            d, x = by_id.get(json.dumps(e["q"])), have.get(e["ds"], {}).get(json.dumps(e["id"]))
            if d is not None and x is not None:
                adjuster.add_input(d, [n for n in names if names[n] == e["ds"]][0], x)
        for q in rules.get("kill", []):
            if (d := by_id.get(json.dumps(q))) is not None:
                adjuster.remove_quantum(d)


class RuleConfig(DynamicTestPipelineTaskConfig, pipelineConnections=RuleConnections):
    rules = Field[str](dtype=str, default='{"nowork": [], "dropin": [], "dropout": [], "kill": [], "addin": []}', doc="rules")


class RuleTask(DynamicTestPipelineTask):
    ConfigClass = RuleConfig
