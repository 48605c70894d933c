"""Campaigns of several executed graphs, and the report the code makes of them."""
from __future__ import annotations

import datetime
import json
import logging
import random
import warnings

from lsst.daf.butler import CollectionType, DatasetRef
from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords
from lsst.pipe.base import TaskMetadata
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.quantum_provenance_graph import QuantumProvenanceGraph, Summary
from lsst.pipe.base.tests.mocks import DirectButlerRepo, MockDataset
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig as D

from .qgtasks import RuleConfig, RuleTask, short_id

logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)
I, F, DT = "instrument", "physical_filter", "detector"
ANY, ALL, NOWORK, ADJUST, UPSTREAM, UNPROC, PARTIAL = (1 << k for k in range(7))
FLAGS = [-1, 0, ANY, ANY | ALL | NOWORK, ANY | ALL | NOWORK | ADJUST, ANY | NOWORK | UPSTREAM, NOWORK | UNPROC, PARTIAL, ANY | PARTIAL]


def code(flags):
    """The documented two-character codes."""
    a = "*" if flags & ALL else "+" if flags & ANY else ""
    for f, c in ((ADJUST, "A"), (UNPROC, "D"), (UPSTREAM, "U"), (PARTIAL, "P"), (NOWORK, "N")):
        if flags & f:
            return a + c
    return a


def sid(data_id):
    return "/".join(short_id(data_id))


def record(level, text):
    return ButlerLogRecord(name="verif", asctime=datetime.datetime(2024, 1, 1, tzinfo=datetime.UTC), message=text, levelno=level,
                           levelname=logging.getLevelName(level), filename="f.py", pathname="/f.py", lineno=1, funcName="f",
                           process=1, processName="p", MDC={})


class Campaigns:
    """One repository for many campaigns."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self._ctx = DirectButlerRepo.make_temporary("base.yaml")
        self.helper, self.root = self._ctx.__enter__()
        self.butler = self.helper.butler

    def close(self):
        self._ctx.__exit__(None, None, None)

    def shape(self, p):
        """Tasks as [label, dims, ins, outs] with outs as [name, dims]."""
        rng = self.rng
        k = rng.choice(["chain", "chain", "gather", "fork", "filters"])
        d0, d1, d2 = f"{p}a", f"{p}b", f"{p}c"
        if rng.random() < 0.25:
            d0 += rng.choice(["_log", "_metadata"])
        if rng.random() < 0.15:
            d1 += rng.choice(["_log", "_metadata"])
        det = [I, DT]
        t = {
            "chain": [["t0", det, [f"{p}raw"], [[d0, det], [f"{p}x", det]]], ["t1", det, [d0], [[d1, det]]], ["t2", det, [d1, f"{p}x"], [[d2, det]]]],
            "gather": [["t0", det, [f"{p}raw"], [[d0, det]]], ["t1", [I], [d0], [[d1, [I]], [f"{p}x", det]]], ["t2", det, [f"{p}x"], [[d2, det]]]],
            "fork": [["t0", det, [f"{p}raw"], [[d0, det], [d1, det]]], ["t1", det, [d0], [[f"{p}x", det]]], ["t2", det, [d1], [[d2, det]]]],
            "filters": [["t0", [I, F, DT], [f"{p}raw"], [[d0, [I, F, DT]]]], ["t1", det, [d0], [[d1, det]]], ["t2", [I, F], [d0], [[d2, [I, F]]]]],
        }[k]
        if rng.random() < 0.3:
            t = t[:2]
        for x in t:
            x[0] = p + x[0]
        return t, [I, F, DT] if k == "filters" else det

    def pipeline(self, tasks, dims, p, rules):
        ds = {f"{p}raw": dims} | {n: d for t in tasks for n, d in t[3]}
        pg = PipelineGraph()
        for label, td, ins, outs in tasks:
            c = RuleConfig()
            c.dimensions = list(td)

            def conn(n, **kw):
                return D(dataset_type_name=n, dimensions=list(ds[n]), multiple=not set(ds[n]) <= set(td), **kw)

            for k, n in enumerate(ins):
                c.inputs[f"i{k}"] = conn(n, minimum=0 if k else 1)
            for k, (n, _) in enumerate(outs):
                c.outputs[f"o{k}"] = conn(n)
            c.rules = json.dumps({"nowork": [], "dropin": [], "dropout": rules.get(label, [])})
            pg.add_task(label, RuleTask, config=c)
        pg.resolve(self.butler.registry)
        return pg

    def graph(self, pg, run, where, skip, clobber, inputs):
        for n in pg.dataset_types.values():
            self.butler.registry.registerDatasetType(n.dataset_type)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = AllDimensionsQuantumGraphBuilder(pg, self.butler, input_collections=inputs, output_run=run, where=where,
                                                 skip_existing_in=skip, clobber=clobber)
            return b.build(metadata={"output_run": run}, attach_datastore_records=False)

    def put(self, obj, ref):
        self.butler.collections.register(ref.run, CollectionType.RUN)
        if self.butler.registry.getDataset(ref.id) is None:
            self.butler.put(obj, ref)

    def mock(self, ref):
        return MockDataset(dataset_id=ref.id, dataset_type=ref.datasetType.to_simple(), data_id=dict(ref.dataId.mapping), run=ref.run)

    def execute(self, qg, run, outcomes, facts):
        """Leave behind what a run of the graph leaves."""
        rng = self.rng
        bad: set = set()
        for node in qg:
            q, label = node.quantum, node.taskDef.label
            did = sid(q.dataId)
            ups = {r.id for refs in q.inputs.values() for r in refs}
            how = outcomes(label, did, bool(ups & bad))
            outs = [r for dt, refs in q.outputs.items() for r in refs if dt.name not in (f"{label}_metadata", f"{label}_log")]
            md, log = q.outputs[f"{label}_metadata"][0], q.outputs[f"{label}_log"][0]
            if how in ("failed", "none"):
                bad.update(r.id for r in outs)
            p = {"ok": 0.85, "all": 1, "logless": 0.85, "failed": 0.3, "none": 0.03}[how]
            if rng.random() < 0.4 and how == "ok":
                p = 1
            for r in outs:
                if rng.random() < p:
                    self.put(self.mock(r), r)
            if how in ("ok", "all", "logless") and self.butler.registry.getDataset(md.id) is None:
                m = TaskMetadata()
                flags = rng.choice(FLAGS)
                exc = ""
                if flags != -1:
                    m["quantum"] = TaskMetadata()
                    m["quantum"]["caveats"] = flags
                if flags != -1 and flags & PARTIAL and rng.random() < 0.85:
                    exc = rng.choice(["pkg.One", "pkg.Two"])
                    m[label] = TaskMetadata()
                    m[label]["failure"] = TaskMetadata()
                    m[label]["failure"]["type"] = exc
                    m[label]["failure"]["message"] = "m"
                self.put(m, md)
                facts["meta"].append({"run": run, "task": label, "id": did, "cav": flags, "exc": exc})
            if how in ("ok", "all", "failed") and self.butler.registry.getDataset(log.id) is None:
                texts = [f"ERR {run} {label} {did} {k}" for k in range(rng.choice([0, 1, 1, 2]))]
                recs = [record(logging.INFO, "fine")] + [record(rng.choice([logging.ERROR, logging.CRITICAL]), t) for t in texts]
                rng.shuffle(recs)
                self.put(ButlerLogRecords.from_records(recs), log)
                facts["logs"].append({"run": run, "task": label, "id": did,
                                      "errors": [r.message for r in recs if r.message.startswith("ERR")]})

    def campaign(self, plan=None):
        """Run a campaign; returns the record."""
        rng = self.rng
        self.n += 1
        p = f"c{self.n}_"
        if plan is None:
            tasks, dims = self.shape(p)
        else:
            det = [I, DT]
            tasks, dims = [[f"{p}t0", det, [f"{p}raw"], [[f"{p}a", det]]], [f"{p}t1", det, [f"{p}a"], [[f"{p}b", det]]]], det
        dets = [1, 2, 3][: rng.choice([1, 2, 2, 3])] if plan is None else [1, 2]
        filts = ["Cam1-G", "Cam1-R1"]
        inrun = f"{p}in"
        pg = self.pipeline(tasks, dims, p, {})
        self.butler.collections.register(inrun, CollectionType.RUN)
        raw = pg.dataset_types[f"{p}raw"].dataset_type
        self.butler.registry.registerDatasetType(raw)
        ids = [{I: "Cam1", DT: d} | ({F: f} if F in dims else {}) for d in dets for f in (filts if F in dims else filts[:1])]
        self.butler.registry.insertDatasets(raw, [self.butler.registry.expandDataId(i) for i in ids], run=inrun)
        sc = {"graphs": [], "exist": [], "colls": [], "hidden": [], "curse": False, "caveats": rng.choice(["lazy", "lazy", "exhaustive", "none"]),
              "meta": [], "codes": [[f, code(f)] for f in FLAGS if f > 0], "logs": []}
        qgs, runs = [], []
        style = rng.choice(["mostly", "mixed", "bad"])
        weights = {"mostly": [8, 4, 0.3, 2, 1], "mixed": [4, 2, 1, 4, 3], "bad": [1, 1, 0.5, 5, 4]}[style]
        for g in range(rng.choice([1, 2, 2, 3]) if plan is None else len(plan["rounds"])):
            rd = None if plan is None else plan["rounds"][g]
            same = bool(runs) and (rng.random() < 0.2 if rd is None else rd["same"])
            run = runs[-1] if same else f"{p}run{g}"
            use = [d for d in dets if rng.random() < 0.8] or dets[:1]
            if rd is not None:
                use = [int(d) for d in rd["dets"]]
            rules = {}
            if rd is None and rng.random() < 0.3:
                t = rng.choice(tasks)
                rules[t[0]] = [{"ds": n, "id": ["Cam1", f if F in nd else "", str(d) if DT in nd else ""]} for n, nd in t[3][-1:]
                               for d in dets for f in filts if rng.random() < 0.5]
            skip = list(dict.fromkeys(reversed(runs))) if same or (rng.random() < 0.5 if rd is None else rd["skip"]) else []
            where = f"instrument = 'Cam1' AND detector IN ({', '.join(map(str, use))})"
            if F in dims:
                where += " AND physical_filter IN ('Cam1-G', 'Cam1-R1')"
            try:
                qg = self.graph(self.pipeline(tasks, dims, p, rules), run, where, skip, bool(skip), [inrun])
            except Exception as exc:
                if "Empty" in type(exc).__name__ or "at least one quantum" in str(exc):
                    continue
                raise
            if not len(qg):
                continue
            runs.append(run)
            qgs.append(qg)
            self.butler.collections.register(run, CollectionType.RUN)

            def outcomes(label, did, blocked):
                if rd is not None:
                    return rd["out"][label[len(p):]][did.split("/")[-1]]
                if blocked and rng.random() < 0.85:
                    return "none"
                return rng.choices(["ok", "all", "logless", "failed", "none"], weights)[0]

            for td in qg.iterTaskGraph():
                for ref in qg.initOutputRefs(td) or []:
                    if not self.butler.registry.findDataset(ref.datasetType, collections=[run]):
                        self.butler.registry.insertDatasets(ref.datasetType, [ref.dataId], run=run)
            self.execute(qg, run, outcomes, sc)
            sc["graphs"].append({"run": run, "quanta": [
                {"task": n.taskDef.label, "id": sid(n.quantum.dataId),
                 "outs": [[r.datasetType.name, sid(r.dataId)] for refs in n.quantum.outputs.values() for r in refs],
                 "ins": [[r.datasetType.name, sid(r.dataId)] for refs in n.quantum.inputs.values() for r in refs]} for n in qg]})
        if not qgs:
            return None
        names = list(dict.fromkeys(d[0] for g in sc["graphs"] for q in g["quanta"] for d in q["outs"]))
        where = ""
        uruns = list(dict.fromkeys(runs))
        if plan is None and rng.random() < 0.5:
            colls = list(uruns)
            if rng.random() < 0.6:
                colls.reverse()
            else:
                rng.shuffle(colls)
            if rng.random() < 0.25 and len(colls) > 1:
                colls.pop(rng.randrange(len(colls)))
            if rng.random() < 0.25:
                # results of something else that happen to have the same data IDs
                other = f"{p}other"
                self.butler.collections.register(other, CollectionType.RUN)
                for node in qgs[0]:
                    for refs in node.quantum.outputs.values():
                        for r in refs:
                            if "Mock" in r.datasetType.storageClass_name and rng.random() < 0.4:
                                o = DatasetRef(r.datasetType, r.dataId, run=other)
                                self.put(self.mock(o), o)
                colls.insert(rng.randrange(len(colls) + 1), other)
                uruns.append(other)
            sc["colls"] = colls
            sc["curse"] = rng.random() < 0.4
        elif plan is not None:
            sc["colls"] = [runs[i] for i in dict.fromkeys(plan["colls"]) if i < len(runs)] if plan["colls"] else []
            sc["colls"] = list(dict.fromkeys(sc["colls"]))
        if all(DT in q[1] for q in tasks) and all(DT in n[1] for t in tasks for n in t[3]) and rng.random() < 0.15:
            where = "instrument = 'Cam1' AND detector = 1"
            sc["hidden"] = [d for g in sc["graphs"] for q in g["quanta"] for d in q["outs"] if d[1].split("/")[-1] != "1"]
        for run in uruns:
            for n in names:
                for r in self.butler.registry.queryDatasets(n, collections=[run]):
                    sc["exist"].append([run, n, sid(r.dataId)])
        return {"sc": sc, "obs": self.observe(sc, qgs, where)}

    def observe(self, sc, qgs, where):
        rng = self.rng
        obs = {"ok": True, "quanta": [], "datasets": [], "summary": {}, "badd": [], "badq": [], "part": []}
        kw = dict(collections=sc["colls"] or None, where=where, curse_failed_logs=sc["curse"],
                  read_caveats=None if sc["caveats"] == "none" else sc["caveats"], use_qbb=rng.random() < 0.5, n_cores=rng.choice([1, 1, 3]))
        try:
            qpg = QuantumProvenanceGraph(self.butler, qgs, **kw)
            summary = qpg.to_summary(do_store_logs=True, n_cores=rng.choice([1, 2]))
            if rng.random() < 0.5:
                summary = Summary.model_validate_json(summary.model_dump_json())
            for label, keys in qpg.quanta.items():
                for k in keys:
                    i = qpg.get_quantum_info(k)
                    obs["quanta"].append({
                        "task": label, "id": sid(i["data_id"]), "status": i["status"].name, "recovered": i["recovered"],
                        "runs": [{"run": r, "status": q.status.name, "cav": -1 if q.caveats is None else q.caveats.value,
                                  "exc": q.exception.type_name if q.exception else ""} for r, q in i["runs"].items()]})
            for name, keys in qpg.datasets.items():
                for k in keys:
                    i = qpg.get_dataset_info(k)
                    prod = qpg.get_producer_of(k)
                    obs["datasets"].append({
                        "ds": name, "id": sid(i["data_id"]), "task": prod.task_label, "qid": sid(qpg.get_quantum_info(prod)["data_id"]),
                        "status": i["status"].name, "runs": [[r, d.produced, d.visible] for r, d in i["runs"].items()]})
            obs["summary"] = self.view(summary)
            for name, table in summary.make_bad_dataset_tables().items():
                obs["badd"] += [[name, self.row_id(r), r["Status"]] for r in table]
            for name, table in summary.make_bad_quantum_tables().items():
                obs["badq"] += [[name, self.row_id(r), r["Status(Caveats)"]] for r in table]
            if rng.random() < 0.4:
                part = QuantumProvenanceGraph(self.butler, qgs[:1], read_caveats="exhaustive").to_summary(do_store_logs=False)
                obs["part"] = [self.view(part), self.view(Summary.aggregate([summary, part]))]
                if self.view(summary) != obs["summary"]:
                    obs["part"][1] = obs["part"][0]
        except Exception as exc:
            obs["ok"] = False
            obs["msg"] = f"{type(exc).__name__}: {exc}"[:300]
        return obs

    @staticmethod
    def row_id(r):
        return "/".join(str(r[d]) if d in r.colnames else "" for d in (I, F, DT))

    @staticmethod
    def view(s):
        def did(d):
            return "/".join(str(d.get(k, "")) for k in (I, F, DT))

        def runs(d):
            return [[k, v] for k, v in d.items()]

        tasks, datasets = {}, {}
        for n, t in s.tasks.items():
            tasks[n] = {k: getattr(t, k) for k in ("n_successful", "n_blocked", "n_unknown", "n_failed", "n_wonky", "n_expected")}
            tasks[n] |= {
                "recovered": [did(d) for d in t.recovered_quanta],
                "wonky": [[did(w.data_id), runs(w.runs)] for w in t.wonky_quanta],
                "failed": [[did(w.data_id), runs(w.runs), [m for m in w.messages if m.startswith("ERR")],
                            len([m for m in w.messages if not m.startswith("ERR")])] for w in t.failed_quanta],
                "caveats": [[c, did(d)] for c, ds in t.caveats.items() for d in ds],
                "exceptions": [[c, did(e.data_id), e.run] for c, es in t.exceptions.items() for e in es]}
        for n, d in s.datasets.items():
            datasets[n] = {k: getattr(d, k) for k in ("n_visible", "n_shadowed", "n_predicted_only", "n_unsuccessful", "n_cursed", "n_expected")}
            datasets[n] |= {
                "producer": [d.producer], "unsuccessful": [did(x) for x in d.unsuccessful_datasets],
                "cursed": [[did(c.data_id), did(c.producer_data_id), runs(c.runs_produced), [c.run_visible] if c.run_visible else []]
                           for c in d.cursed_datasets]}
        return {"tasks": tasks, "datasets": datasets}


def campaign_batch(args):
    seed, count, given = args
    rng = random.Random(seed)
    w = Campaigns(rng)
    recs = []
    for i in range(count if given is None else len(given)):
        r = w.campaign(None if given is None else given[i])
        if r is not None:
            recs.append(r)
    w.close()
    return recs
