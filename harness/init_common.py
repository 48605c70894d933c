"""Histories of initialisations of output runs."""
from __future__ import annotations

import contextlib
import json
import logging
import random
from unittest import mock

from lsst.daf.butler import Butler, CollectionType, DatasetType, QuantumBackedButler
from lsst.daf.butler.direct_butler import DirectButler
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.separable_pipeline_executor import SeparablePipelineExecutor
from lsst.pipe.base.tests.mocks import DirectButlerRepo
from lsst.utils.packages import Packages

from . import inittasks as it

logging.getLogger("lsst").setLevel(logging.CRITICAL)


class Broken(Exception):
    pass


def mro(exc):
    return [c.__name__ for c in type(exc).__mro__]


class Repo:
    def __init__(self, rng):
        self.rng = rng
        self._ctx = DirectButlerRepo.make_temporary("base.yaml")
        self.helper, self.root = self._ctx.__enter__()
        self.butler = self.helper.butler
        self.n = 0
        raw = DatasetType("ir_raw", ["instrument", "detector"], "StructuredDataDict", universe=self.butler.dimensions)
        self.butler.registry.registerDatasetType(raw)
        self.butler.collections.register("ir_in", CollectionType.RUN)
        self.butler.put({"r": 1}, raw, instrument="Cam1", detector=1, run="ir_in")

    def close(self):
        self._ctx.__exit__(None, None, None)

    # ------------------------------------------------------------- problem
    def problem(self, plan):
        rng = self.rng
        self.n += 1
        n = self.n
        k = rng.randint(1, 4) if plan is None else 2
        kinds, specs, avail = {}, {}, []
        over = []
        for j in range(rng.randint(0, 2)):
            ds = f"x{n}_{j}"
            kinds[ds] = rng.choice(list(it.SC))
            over.append(ds)
        labels = [f"t{n}_{i}" for i in range(k)]
        tasks = []
        for i, l in enumerate(labels):
            ins, outs = [], []
            for ds in rng.sample(over + avail, min(len(over + avail), rng.randint(0, 3))):
                how = rng.choice(it.HOW[kinds[ds]])
                if kinds[ds] == "tab" and how == "columns" and rng.random() < 0.3:
                    how = "full"
                ins.append({"ds": ds, "kind": kinds[ds], "how": how})
            for j in range(rng.choice([0, 1, 1, 2]) if plan is None else 1):
                ds = f"d{n}_{i}{j}"
                kinds[ds] = rng.choice(list(it.SC))
                outs.append({"ds": ds, "kind": kinds[ds]})
                avail.append(ds)
            specs[l] = {"ins": ins, "outs": outs, "after": [], "out": f"out_{l}", "spoil": rng.random() < 0.3}
            tasks.append({"label": l, "ins": [{"ds": x["ds"]} for x in ins], "outs": [x["ds"] for x in outs]})
        if rng.random() < 0.4:  # run-time order of its own
            order = rng.sample(labels, k)
            for a, b in zip(order, order[1:]):
                if rng.random() < 0.7:
                    specs[b]["after"].append(f"out_{a}")
        given = [{}, {}]
        for ds in over:
            w = rng.choice([0, 1, 2])
            for c in (0, 1):
                if w in (c, 2):
                    given[c][ds] = f"{ds}@{c}"
        if plan is None and over and rng.random() < 0.05:
            for g in given:
                g.pop(over[0], None)
        self.kinds, self.specs, self.labels = kinds, specs, labels
        self.vals = dict.fromkeys(labels, 1)
        self.sys = {"a": "1", "b": "1"}
        self.p = {"tasks": tasks, "given": given}
        colls = [f"in{n}_0", f"in{n}_1"]
        for c in colls:
            self.butler.collections.register(c, CollectionType.RUN)
        dts = {}
        for ds, kind in kinds.items():
            if ds in over or rng.random() < 0.3:
                sc = it.SC[kind]
                readers = {x["how"] for s in specs.values() for x in s["ins"] if x["ds"] == ds}
                if kind == "md" and readers <= {"asdict"} and ds not in over and rng.random() < 0.5:
                    sc = "StructuredDataDict"
                dts[ds] = DatasetType(ds, [], sc, universe=self.butler.dimensions)
                self.butler.registry.registerDatasetType(dts[ds])
        for c, g in zip(colls, given):
            for ds, content in g.items():
                self.butler.put(it.build(kinds[ds], content), dts[ds], run=c)
        self.over = over
        self.inputs = [*colls, "ir_in"]
        self.run = f"run{n}"
        self.butler.collections.register(self.run, CollectionType.RUN)
        self.prev = []
        pg = self.pipeline()
        pg.register_dataset_types(self.butler)
        if rng.random() < 0.5:  # an earlier run among the inputs, with contents of its own
            prev = f"prev{n}"
            self.butler.collections.register(prev, CollectionType.RUN)
            for ds in kinds:
                if ds not in over and rng.random() < 0.5:
                    sc = pg.dataset_types[ds].storage_class_name
                    kind = "dict" if kinds[ds] == "md" and sc == "StructuredDataDict" else kinds[ds]
                    self.butler.put(it.build(kind, "previous"), pg.dataset_types[ds].dataset_type, run=prev)
            for l in labels:
                if rng.random() < 0.5:
                    cfg = it.InitConfig(val=9)
                    self.butler.put(cfg, f"{l}_config", run=prev)
            if rng.random() < 0.7:
                self.butler.put(Packages(rng.choice([{"a": "0"}, {"a": "1"}, {"a": "1", "b": "1", "z": "3"}])), "packages", run=prev)
            self.inputs.insert(rng.choice([0, 2]), prev)
            self.prev = [prev]
        self.others = self.snapshot([c for c in self.inputs])
        self.full = Butler.from_config(butler=self.butler, collections=[self.run, *self.inputs], run=self.run)
        self.qbb = None
        self.graph = None
        self.held_graph = None
        # the earlier run takes part in the search for what this pipeline does not make
        return {"p": self.p, "events": [], "extra": {"specs": specs, "prev": self.prev, "inputs": self.inputs}}

    def pipeline(self):
        pg = PipelineGraph()
        for l in self.rng.sample(self.labels, len(self.labels)):
            cfg = it.InitConfig(val=self.vals[l], spec=json.dumps(self.specs[l]))
            pg.add_task(l, it.InitTask, cfg)
        pg.resolve(self.butler.registry)
        return pg

    def make_graph(self, records=False):
        builder = AllDimensionsQuantumGraphBuilder(
            self.pipeline(), self.butler, input_collections=self.inputs, output_run=self.run, clobber=True)
        return builder.finish(attach_datastore_records=records).assemble()

    # -------------------------------------------------------------- views
    def snapshot(self, colls):
        refs = self.butler.query_all_datasets(list(colls), name=[*self.names(), *self.over, "packages"], find_first=False)
        have = self.butler.stored_many(refs)
        return sorted((str(r.id), r.datasetType.name, r.run, have[r]) for r in refs)

    def names(self):
        out = {}
        for t in self.p["tasks"]:
            out[f"{t['label']}_config"] = "cfg:" + t["label"]
            for ds in t["outs"]:
                out[ds] = ds
        return out

    def content(self, name, obj):
        if name.startswith("cfg:"):
            return str(obj.val) if obj.spec == json.dumps(self.specs[name[4:]]) else "?"
        kind = self.kinds[name]
        if kind == "md" and type(obj) is dict:
            kind = "dict"
        return it.read(kind, "full", obj)

    def view(self):
        run, pk = {}, {"on": False, "s": False, "m": {}}
        if self.qbb is not None:
            refs = {r.datasetType.name: r for l in [*self.labels, ""] for r in self.graph.get_init_outputs(l).values()}
            for dtn, name in self.names().items():
                if self.qbb.stored(refs[dtn]):
                    run[name] = {"c": self.content(name, self.qbb.get(refs[dtn], storageClass=self.graph.pipeline_graph.dataset_types[dtn].storage_class)), "s": True}
            if self.qbb.stored(refs["packages"]):
                pk = {"on": True, "s": True, "m": dict(self.qbb.get(refs["packages"]))}
            return run, pk
        for dtn, name in self.names().items():
            ref = self.butler.find_dataset(dtn, collections=self.run)
            if ref is not None:
                s = self.butler.stored(ref)
                run[name] = {"c": self.content(name, self.butler.get(ref)) if s else "", "s": s}
        ref = self.butler.find_dataset("packages", collections=self.run)
        if ref is not None:
            s = self.butler.stored(ref)
            pk = {"on": True, "s": s, "m": dict(self.butler.get(ref)) if s else {}}
        return run, pk

    # ---------------------------------------------------------------- ops
    @contextlib.contextmanager
    def faults(self, crash):
        count = [0]

        def wrap(orig):
            def put(me, *args, **kwargs):
                count[0] += 1
                if count[0] == crash:
                    raise Broken()
                return orig(me, *args, **kwargs)
            return put
        packages = Packages(dict(self.sys))
        with mock.patch.object(DirectButler, "put", wrap(DirectButler.put)), \
                mock.patch.object(QuantumBackedButler, "put", wrap(QuantumBackedButler.put)), \
                mock.patch.object(Packages, "fromSystem", classmethod(lambda cls: Packages(dict(packages)))):
            yield

    def event(self, given, ways):
        rng = self.rng
        missing = any(not any(x["ds"] in g for g in self.p["given"]) and x["ds"].startswith("x")
                      for s in self.specs.values() for x in s["ins"])
        e = {"op": "", "way": "pg", "existing": True, "skip": False, "saveinit": True, "savepack": True, "crash": 0, "ok": True, "err": [],
             "saw": {}, "others": True, "idok": True, "labels": [], "made": [], "order": [], "outs": [], "held": []}
        e.update(given or {})
        if given is None:
            e["op"] = rng.choices(["init", "configs", "packages", "outputs", "make", "edit"], [6, 2, 2, 2, 2, 3])[0]
            e["way"] = "pg" if missing else rng.choice(ways)
            if e["way"] == "exec":
                e["op"] = "init" if e["op"] in ("configs", "packages", "outputs") else e["op"]
                e["skip"], e["saveinit"], e["savepack"] = rng.random() < 0.5, rng.random() < 0.8, rng.random() < 0.8
            elif e["way"] != "pg":
                e["existing"] = rng.random() < 0.7
            if rng.random() < 0.15:
                e["crash"] = rng.randint(1, 5)
            if rng.random() < 0.2 and self.qbb is None and "qbb" not in ways:
                self.vals[rng.choice(self.labels)] = rng.choice([1, 2])
            if rng.random() < 0.2:
                self.sys = rng.choice([{"a": "1"}, {"a": "1", "b": "1"}, {"a": "1", "b": "1", "c": "1"}, {"a": "2", "b": "1"}, {"b": "1", "d": "4"}])
        if e["op"] in ("edit", "make"):
            e["crash"] = 0
        e["vals"], e["sys"] = dict(self.vals), dict(self.sys)
        if e["way"] == "qbb" and self.qbb is None:
            self.graph = self.make_graph(True)
            self.qbb = self.graph.make_init_qbb(self.root)
        it.SAW.clear()
        before = None
        try:
            if e["op"] == "edit":
                self.edit(given)
            elif e["op"] == "make":
                self.make(e)
            else:
                if e["way"] != "pg":
                    if e["way"] != "qbb":
                        self.graph = self.make_graph()
                    target = self.graph
                    if e["way"] == "old":
                        target = self.graph.to_old_quantum_graph()
                    before = {r.datasetType.name: r.id for l in [*self.labels, ""] for r in self.graph.get_init_outputs(l).values()}
                with self.faults(e["crash"]):
                    if e["way"] == "pg":
                        pg = self.pipeline()
                        {"init": pg.init_output_run, "configs": pg.write_configs, "packages": pg.write_packages,
                         "outputs": pg.write_init_outputs}[e["op"]](self.full)
                    elif e["way"] == "exec":
                        ex = SeparablePipelineExecutor(self.full, skip_existing_in=[self.run] if e["skip"] else rng.choice([None, self.inputs]))
                        ex.pre_execute_qgraph(rng.choice([target, target.to_old_quantum_graph()]), register_dataset_types=rng.random() < 0.3,
                                              save_init_outputs=e["saveinit"], save_versions=e["savepack"])
                    else:
                        b = self.qbb if e["way"] == "qbb" else self.full
                        if e["op"] == "init":
                            target.init_output_run(b, existing=e["existing"])
                        elif e["op"] == "configs":
                            target.write_configs(b, compare_existing=e["existing"])
                        elif e["op"] == "packages":
                            target.write_packages(b, compare_existing=e["existing"])
                        else:
                            target.write_init_outputs(b, skip_existing=e["existing"])
        except Exception as exc:
            e["ok"] = False
            e["err"] = mro(exc)
            e["text"] = f"{exc!r}"[:300]
        e["saw"] = dict(it.SAW)
        e["run"], e["pk"] = self.view()
        if e["op"] != "make":
            e["others"] = self.snapshot(self.inputs) == self.others
            if before is not None and e["ok"] and e["way"] != "qbb":
                now = {dtn: ref.id for dtn in before if (ref := self.butler.find_dataset(dtn, collections=self.run)) is not None}
                e["idok"] = all(before[d] == now[d] for d in now)
        return e

    def edit(self, given):
        rng = self.rng
        if given is not None and given.get("set"):
            return
        names = [*self.names(), "packages", "packages"]
        dtn = rng.choice(names)
        purge = rng.random() < 0.5
        if given is not None:
            dtn = {"cfg": f"{self.labels[0]}_config", "out": self.p["tasks"][0]["outs"][0], "pk": "packages"}[given["what"]]
            purge = given["purge"]
        if self.qbb is not None:
            refs = {r.datasetType.name: r for l in [*self.labels, ""] for r in self.graph.get_init_outputs(l).values()}
            if self.qbb.stored(refs[dtn]):
                self.qbb.pruneDatasets([refs[dtn]], disassociate=purge, unstore=True, purge=purge)
            return
        ref = self.butler.find_dataset(dtn, collections=self.run)
        if ref is not None:
            if not purge:
                self.butler.pruneDatasets([ref], disassociate=False, unstore=True, purge=False)
            else:
                self.butler.pruneDatasets([ref], unstore=True, purge=True)

    def make(self, e):
        rng = self.rng
        pg = self.pipeline()
        missing = {x["ds"] for s in self.specs.values() for x in s["ins"]
                   if x["ds"].startswith("x") and not any(x["ds"] in g for g in self.p["given"])}
        labels = [l for l in self.labels if not any(x["ds"] in missing for x in self.specs[l]["ins"])]
        everything = len(labels) == len(self.labels) and rng.random() < 0.5
        if not everything:
            labels = [l for l in labels if rng.random() < 0.6]
        e["labels"] = labels
        full = [*self.p["given"], {ds: "made-before" for ds in self.kinds if not ds.startswith("x")}]

        def get(dataset_type):
            name, comp = dataset_type.nameAndComponent()
            c = next(g[name] for g in full if name in g)
            how = "columns" if comp else next(h for (k, h), sc in it.READ_SC.items() if k == self.kinds[name] and sc == dataset_type.storageClass_name)
            return it.build(self.kinds[name], c, how)
        outs = []
        kw = {} if everything else {"labels": labels}
        tasks = pg.instantiate_tasks(get, outs if rng.random() < 0.8 else None, **kw)
        e["order"] = list(pg.tasks)
        e["made"] = [t.getName() for t in tasks]
        if not outs:
            outs = [(getattr(t, f"o{k}"), DatasetType(x["ds"], [], it.SC[x["kind"]], universe=self.butler.dimensions))
                    for t in tasks for k, x in enumerate(self.specs[t.getName()]["outs"])]
        e["outs"] = [[dt.name, it.read(self.kinds[dt.name], "full", o) if dt.storageClass_name == it.SC[self.kinds[dt.name]] else "?"] for o, dt in outs]
        e["held"] = [[x["ds"], it.read(x["kind"], "full", getattr(t, f"o{k}"))] for t in tasks for k, x in enumerate(self.specs[t.getName()]["outs"])]
        e["vals"] = dict(self.vals)

    def history(self, plan=None):
        rec = self.problem(plan)
        # "make" is given what no task made by a callback
        rec["p"] = {**self.p, "given": [*self.p["given"], {ds: "made-before" for ds in self.kinds if not ds.startswith("x")}]}
        ways = self.rng.choice([["pg"], ["pred"], ["old"], ["pg", "pred", "old", "exec"], ["pg", "exec"], ["qbb"], ["pg", "pred"]])
        try:
            for op in (plan if plan is not None else [None] * self.rng.choice([2, 3, 5])):
                if op is not None:
                    self.vals = {l: op["vals"][i] for i, l in enumerate(self.labels)}
                    self.sys = dict(op["sys"])
                    op = {k: v for k, v in op.items() if k not in ("vals", "sys")}
                rec["events"].append(self.event(op, ways))
        finally:
            if self.qbb is not None:
                self.qbb.close()
        return rec


def init_batch(args):
    seed, n, plans = args
    rng = random.Random(seed)
    repo = Repo(rng)
    try:
        return [repo.history(p) for p in plans] if plans is not None else [repo.history() for _ in range(n)]
    finally:
        repo.close()
