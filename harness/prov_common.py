"""Logs, metadata and observed views for provenance quantum graphs."""
from __future__ import annotations

import itertools
import uuid

from .vlib import exc_name

NIL = {"has": False, "put": []}


def log_records(tok):
    import datetime

    from lsst.daf.butler.logging import ButlerLogRecord

    return [ButlerLogRecord(name="verif", asctime=datetime.datetime(2024, 1, 1, tzinfo=datetime.UTC), message=f"tok{tok}",
                            levelno=20, levelname="INFO", filename="f.py", pathname="/f.py", lineno=1, funcName="f",
                            process=1, processName="p", MDC={})]


def _log_token(attempt):
    """0 for missing logs, the token of the single record otherwise."""
    if attempt is None:
        return 0
    toks = [int(r.message[3:]) for r in attempt if r.message.startswith("tok")]
    return toks[0] if len(toks) == 1 else -7


def _meta_token(md):
    return 0 if md is None else int(md["verif"]["tok"])


def _present():
    """Stand-in for tokens when contents are real: position in the list if present."""
    n = iter(range(1, 1000))
    return lambda x: next(n) * (x is not None)


def task_metadata(tok, label, outs=NIL, outputs=(), cav=-1, fail=""):
    from lsst.pipe.base import TaskMetadata

    md = TaskMetadata()
    md["verif"] = TaskMetadata()
    md["verif"]["tok"] = tok
    md[label] = TaskMetadata()
    if fail:
        md[label]["failure"] = TaskMetadata()
        md[label]["failure"]["type"] = fail
        md[label]["failure"]["message"] = "m"
    if outs["has"] or cav != -1:
        q = TaskMetadata()
        for k in ("prep", "init", "start", "end"):
            q[f"{k}Utc"] = "2024-01-01T00:00:00+00:00"
            q[f"{k}CpuTime"] = 1.0
            q[f"{k}MaxResidentSetSize"] = 1000
        if cav != -1:
            q["caveats"] = cav
        if outs["has"]:
            q["outputs"] = [str(outputs[i - 1]) for i in outs["put"] if i <= len(outputs)]
        md["quantum"] = q
    return md


def leftovers(case, label, outputs):
    """The (metadata, logs) that a quantum described by the case left behind."""
    from lsst.daf.butler.logging import ButlerLogRecords

    n = len(case["prev"])
    logs = metadata = None
    if case["logs"]:
        extra = {}
        if case["lexc"]:
            extra["exception"] = {"type_name": case["lexc"], "message": "m", "metadata": {}}
        if case["lmeta"]["has"]:
            extra["metadata"] = task_metadata(n + 1, label, case["lmeta"]["outs"], outputs).model_dump()
        prev = []
        for i, p in enumerate(case["prev"]):
            e = {"logs": [r.model_dump(mode="json") for r in log_records(i + 1)]}
            if p["exc"]:
                e["exception"] = {"type_name": p["exc"], "message": "m", "metadata": {}}
            if p["meta"]:
                e["metadata"] = task_metadata(i + 1, label, {"has": True, "put": [1]}, outputs).model_dump()
            prev.append(e)
        if prev:
            extra["previous_attempts"] = prev
        logs = ButlerLogRecords.from_records(log_records(n + 1))
        logs.extra = extra
    if case["meta"]["has"]:
        m = case["meta"]
        metadata = task_metadata(n + 1, label, m["outs"], outputs, m["cav"], m["fail"])
    return metadata, logs


def attempts_view(attempts, logs, metas, tokens=True):
    log_token, meta_token = (_log_token, _meta_token) if tokens else (_present(), _present())
    res = []
    for i, a in enumerate(attempts):
        res.append({"n": a.attempt, "status": a.status.name, "exc": a.exception.type_name if a.exception else "",
                    "cav": -1 if a.caveats is None else int(a.caveats.value),
                    "logs": log_token(logs[i]) if i < len(logs) else -9,
                    "meta": meta_token(metas[i]) if i < len(metas) else -9})
    if len(logs) > len(attempts) or len(metas) > len(attempts):
        res.append({"n": -9, "status": "MISALIGNED"})
    return res


def observe_scan(predicted, outputs, case):
    from lsst.pipe.base.quantum_graph import ProvenanceQuantumScanModels

    metadata, logs = leftovers(case, predicted.task_label, outputs)
    (log_ds,) = predicted.outputs["_log"]
    (meta_ds,) = predicted.outputs["_metadata"]
    o = {"error": "", "status": "", "log": "", "metadata": "", "attempts": [], "known": []}
    try:
        s = ProvenanceQuantumScanModels.from_metadata_and_logs(predicted, metadata, logs, incomplete=case["incomplete"])
    except Exception as exc:
        o["error"] = exc_name(exc)
        return o

    def known(d):
        return {True: "yes", False: "no", None: "unset"}[s.output_existence.get(d)]

    o["status"] = s.status.name
    o["log"], o["metadata"] = known(log_ds.dataset_id), known(meta_ds.dataset_id)
    o["attempts"] = attempts_view(s.attempts, s.logs.attempts, s.metadata.attempts)
    o["known"] = [known(d) for d in outputs]
    return o


class Plan:
    """Numbering and abstract description of a predicted graph."""

    def __init__(self, comps):
        self.quanta = list(comps.quantum_datasets.values())
        self.inits = [q for q in comps.init_quanta.root if q.task_label]
        self.qn = {q.quantum_id: i + 1 for i, q in enumerate(self.quanta)}
        self.qn.update({q.quantum_id: len(self.quanta) + i + 1 for i, q in enumerate(self.inits)})
        self.dn, self.det = {}, {}
        for q in itertools.chain(self.inits, self.quanta):
            for ds in itertools.chain(*q.inputs.values(), *q.outputs.values()):
                self.dn.setdefault(ds.dataset_id, len(self.dn) + 1)
                self.det[ds.dataset_id] = (ds.dataset_type_name, tuple(ds.data_coordinate), ds.run)
        self.types = [self.det[d][0] for d in self.dn]

    def regular(self, q):
        return [d.dataset_id for c, ds in q.outputs.items() if c not in ("_log", "_metadata") for d in ds]

    def abstract(self, q):
        d = self.dn
        return {"task": q.task_label,
                "ins": sorted({d[x.dataset_id] for x in itertools.chain(*q.inputs.values())}),
                "outs": [d[x] for x in self.regular(q)], "log": d[q.outputs["_log"][0].dataset_id],
                "meta": d[q.outputs["_metadata"][0].dataset_id]}

    def abstract_init(self, q):
        d = self.dn
        return {"task": q.task_label, "ins": [d[x.dataset_id] for x in itertools.chain(*q.inputs.values())],
                "outs": [d[x.dataset_id] for x in itertools.chain(*q.outputs.values())]}


def graph_view(plan, reader, ops, report, rng, tokens=True):
    """Load from the reader as ops say; return what the graph shows."""
    from lsst.pipe.base import QuantumAttemptStatus, QuantumSuccessCaveats

    inv_q = {v: k for k, v in plan.qn.items()}
    inv_d = {v: k for k, v in plan.dn.items()}
    o = {"error": ""}
    for op in ops:
        match op["op"]:
            case "init":
                reader.read_init_quanta()
            case "full":
                reader.read_full_graph()
            case "quanta":
                reader.read_quanta(None if op["all"] else [inv_q[i] for i in op["ids"]])
            case "datasets":
                reader.read_datasets(None if op["all"] else [inv_d[i] for i in op["ids"]])
    g = reader.graph
    b, qo = g.bipartite_xgraph, g.quantum_only_xgraph
    Q, Dn = (lambda x: plan.qn.get(x, -1)), (lambda x: plan.dn.get(x, -1))
    loaded = [x for x in qo.nodes if qo.nodes[x]]
    logs = reader.fetch_logs(loaded)
    metas = reader.fetch_metadata(loaded)
    qnodes = []
    for x in loaded:
        i = qo.nodes[x]
        same = dict(b.nodes[x]) == dict(i)
        qnodes.append({"q": Q(x) if same else -5, "task": i["task_label"], "status": i["status"].name,
                       "exc": i["exception"].type_name if i["exception"] else "",
                       "cav": -1 if i["caveats"] is None else int(i["caveats"].value),
                       "logid": Dn(i["log_id"]), "metaid": Dn(i["metadata_id"]),
                       "atts": attempts_view(i["attempts"], logs.get(x, []), metas.get(x, []), tokens)})
    o["qnodes"] = qnodes
    dnodes = []
    for x in b.nodes:
        i = b.nodes[x]
        if x in plan.dn and i:
            want = plan.det[x]
            ok = (i["dataset_type_name"], tuple(i["data_id"].full_values), i["run"]) == want
            dnodes.append({"d": Dn(x), "type": i["dataset_type_name"], "produced": i["produced"], "ok": ok})
        elif x not in plan.qn and x not in plan.dn:
            dnodes.append({"d": -1, "type": "", "produced": False, "ok": False})
    o["dnodes"] = dnodes
    o["bytask"] = [[t, Q(x)] for t, m in g.quanta_by_task.items() for x in m.values()]
    o["bytype"] = [[t, Dn(x)] for t, m in g.datasets_by_type.items() for x in m.values()]
    o["biedges"] = [["w", Dn(y), Q(x)] if x in plan.qn else ["r", Dn(x), Q(y)] for x, y in b.edges]
    o["qedges"] = [[Q(x), Q(y)] for x, y in qo.edges]
    o["qonly"] = [Q(x) for x in qo.nodes]
    o["inits"] = list(g.init_quanta)
    o["logs"], o["metas"] = [], []
    log_token = _present if not tokens else lambda: _log_token
    meta_token = _present if not tokens else lambda: _meta_token
    for x in loaded:
        q = plan.quanta[plan.qn[x] - 1]
        by_ds = rng.random() < 0.5
        key = q.outputs["_log"][0].dataset_id if by_ds else x
        got = reader.fetch_logs([key])
        o["logs"].append({"q": Q(x), "toks": list(map(log_token(), got[key])) if key in got else [-1]})
        key = q.outputs["_metadata"][0].dataset_id if by_ds else x
        got = reader.fetch_metadata([key])
        o["metas"].append({"q": Q(x), "toks": list(map(meta_token(), got[key])) if key in got else [-1]})
    o["table"], o["exctable"] = [], []
    for row in g.make_quantum_table(as_table=False):
        o["table"].append({"task": row["Task"], "total": row["TOTAL"], "expected": row["EXPECTED"],
                           "counts": [{"s": s.name, "n": row[s.title]} for s in QuantumAttemptStatus]})
    for row in g.make_exception_table(as_table=False):
        o["exctable"].append({"task": row["Task"], "exc": row["Exception"], "good": row["Successes"],
                              "bad": row["Failures"]})
    rep = g.make_status_report(
        [QuantumAttemptStatus[s] for s in report["states"]],
        with_caveats=None if report["caveat"] == -1 else QuantumSuccessCaveats(report["caveat"]))
    rows = []
    for task, by_status in rep.root.items():
        for status, by_exc in by_status.items():
            for exc, items in by_exc.items():
                for it in items:
                    rows.append([task, status, exc or "", plan.qn.get(uuid.UUID(str(it.quantum_id)), -1)])
    o["report"] = {**report, "rows": rows}
    return o
