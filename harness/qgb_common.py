"""Quantum graph builds: scenarios, running the real builder, observations."""
from __future__ import annotations

import fnmatch
import json
import logging
import warnings

from lsst.daf.butler import CollectionType, DataCoordinate, DatasetIdGenEnum, DatasetRef, DatasetType
from lsst.pipe.base.all_dimensions_quantum_graph_builder import (
    AllDimensionsQuantumGraphBuilder,
    DatasetQueryConstraintVariant,
)
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig as D
from lsst.pipe.base.tests.mocks import InMemoryRepo, MockStorageClass
from lsst.pipe.base.trivial_quantum_graph_builder import TrivialQuantumGraphBuilder

from .qgtasks import SEEN, RuleConfig, RuleTask, short_id

logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)
FILTERS = ["Cam1-G", "Cam1-R1", "Cam1-R2"]
DETS = ["1", "2", "3", "4"]
I, F, DT = "instrument", "physical_filter", "detector"
DIMSETS = [[], [I], [I, F], [I, DT], [I, F, DT]]
EMPTY = ["", "", ""]


def proj(c, dims):
    return [c[i] if d in dims else "" for i, d in enumerate((I, F, DT))]


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def form_of(sc, ds, form):
    """Name and storage class under which a task asks for a dataset."""
    stored = "ArrowTable" if ds in sc.get("arrow", ()) else "StructuredDataDict"
    return {"": (ds, stored), "columns": (ds + ".columns", "ArrowColumnList"), "DataFrame": (ds, "DataFrame")}[form]


class Bench:
    """One in-memory registry reused for many scenarios."""

    def __init__(self):
        self.repo = InMemoryRepo("base.yaml")
        self.n = 0
        self.butler = self.repo.butler

    def close(self):
        self.repo.close()

    # ------------------------------------------------------------ scenarios
    def scenario(self, rng, *, focus: str) -> dict:
        """A random pipeline, repository state and set of options."""
        self.n += 1
        p = f"x{self.n}"
        dets = DETS[: rng.choice([1, 2, 2, 3])]
        filts = FILTERS[: rng.choice([1, 2, 2])]
        # all rows of the real universe; "where" restricts to the small part
        univ = [["Cam1", f, d] for f in FILTERS for d in DETS]
        rows = [["Cam1", f, d] for f in filts for d in dets]
        nt = rng.choice([2, 3, 3, 4, 4, 5])
        labels = [f"{p}t{i}" for i in range(nt)]
        rng.shuffle(labels)
        dsdims: dict[str, list] = {}
        tasks = []
        avail: list[str] = []
        initavail: list[str] = []
        overall: list[str] = []
        for i in range(nt):
            dims = rng.choice(DIMSETS[1:] if rng.random() < 0.8 else DIMSETS)
            ins = []
            for ds in avail:
                if rng.random() < (0.55 if ds.startswith(f"{p}d{i - 1}") else 0.25 if focus == "structure" else 0.45):
                    ins.append(ds)
            if not ins or rng.random() < 0.3:
                if overall and rng.random() < 0.4:
                    ds = rng.choice(overall)
                else:
                    ds = f"{p}r{i}"
                    dsdims[ds] = rng.choice(DIMSETS)
                    overall.append(ds)
                if ds not in ins:
                    ins.append(ds)
            if rng.random() < 0.1 and tasks:
                t0 = rng.choice(tasks)
                dsdims[t0["label"] + "_metadata"] = t0["dims"]
                ins.append(t0["label"] + "_metadata")
            t = {"label": labels[i], "dims": dims,
                 "ins": [{"ds": ds, "min": rng.choices([1, 0, 2], [8, 2, 0 if set(dsdims[ds]) <= set(dims) else 2])[0]}
                         for ds in ins],
                 "pre": [], "outs": [], "initin": [], "initout": [], "nowork": [], "dropout": [], "dropin": [], "kill": [], "addin": []}
            for k in range(rng.choice([1, 1, 2])):
                ds = f"{p}d{i}{'abc'[k]}"
                # output dims: a superset of the task's so producers are unique
                dsdims[ds] = rng.choice([d for d in DIMSETS if set(dims) <= set(d)] + [dims] * 3)
                t["outs"].append(ds)
                avail.append(ds)
            dsdims.setdefault(t["label"] + "_metadata", dims)
            dsdims[t["label"] + "_log"] = dims
            if rng.random() < 0.3:
                ds = f"{p}p{i}"
                dsdims[ds] = rng.choice(DIMSETS)
                t["pre"].append({"ds": ds, "min": rng.choice([0, 0, 1])})
            if rng.random() < 0.3:
                ds = f"{p}io{i}"
                t["initout"].append(ds)
                initavail.append(ds)
            for ds in initavail:
                if ds not in t["initout"] and rng.random() < 0.25:
                    t["initin"].append(ds)
            if rng.random() < 0.12:
                t["initin"].append(f"{p}ii")
            tasks.append(t)
        for t in tasks:
            for ds in t["initin"] + t["initout"] + [t["label"] + "_config"]:
                dsdims[ds] = []
        # some datasets are tables, which tasks may read in part or converted
        arrow = sorted(ds for ds in dsdims if ds[len(p):][0] in "rdp" and rng.random() < 0.4)
        for t in tasks:
            for e in t["ins"] + t["pre"]:
                e["form"] = rng.choice(["", "", "columns", "columns", "DataFrame"]) if e["ds"] in arrow else ""
        where = list(rows)
        if rng.random() < 0.25:
            where = [r for r in where if rng.random() < 0.7] or where
        sc = {"tasks": tasks, "dsdims": dsdims, "univ": univ, "where": where, "store": [],
              "incolls": [], "skipin": [], "outrun": f"{p}out", "outexists": False, "clobber": False,
              "retain_on": False, "retained": [], "prune": [], "cons": [], "arrow": arrow}
        # input collections: one or two runs, found in order
        runs = [f"{p}in{k}" for k in range(rng.choice([1, 1, 2]))]
        sc["incolls"] = runs
        variant = rng.choices(["ALL", "OFF", "LIST"], [6, 2, 1])[0] if focus == "structure" else "ALL"
        holes = rng.random() < (0.5 if variant == "ALL" else 0.8)
        for ds in overall:
            for id_ in uniq([proj(c, dsdims[ds]) for c in univ]):
                for r in runs:
                    if rng.random() < (0.6 if holes else 1.0) or (r == runs[0] and not holes):
                        sc["store"].append({"run": r, "ds": ds, "id": id_})
        for t in tasks:
            for e in t["pre"]:
                for id_ in uniq([proj(c, dsdims[e["ds"]]) for c in univ]):
                    if rng.random() < 0.85 or (e["min"] and rng.random() < 0.9):
                        sc["store"].append({"run": rng.choice(runs), "ds": e["ds"], "id": id_})
        if f"{p}ii" in dsdims and rng.random() < 0.9:
            sc["store"].append({"run": rng.choice(runs), "ds": f"{p}ii", "id": EMPTY})
        sc["variant"] = variant
        if variant == "ALL":
            sc["cons"] = list(overall)
        elif variant == "LIST":
            sc["cons"] = [ds for ds in overall if rng.random() < 0.8]
        sc["list"] = variant == "LIST"
        sc["overall"] = overall
        sc["where_on"] = True
        self._rules(rng, sc, focus)
        return sc

    def _rules(self, rng, sc, focus):
        tasks, dsdims, rows = sc["tasks"], sc["dsdims"], sc["where"]
        pr = 0.35 if focus == "structure" else 0.12
        for t in tasks:
            qids = uniq([proj(c, t["dims"]) for c in rows])
            if rng.random() < pr:
                t["nowork"] = [q for q in qids if rng.random() < 0.4]
            if rng.random() < pr:
                t["dropout"] = [{"ds": ds, "id": id_} for ds in t["outs"]
                                for id_ in uniq([proj(c, dsdims[ds]) for c in rows]) if rng.random() < 0.35]
            if rng.random() < pr * 1.6:
                t["dropin"] = [{"q": q, "ds": e["ds"], "id": id_} for q in qids for e in t["ins"]
                               for id_ in uniq([proj(c, dsdims[e["ds"]]) for c in rows]) if rng.random() < 0.2]
            if rng.random() < pr:
                t["kill"] = [q for q in qids if rng.random() < 0.3]
            if rng.random() < pr:
                t["addin"] = [{"q": q, "ds": e["ds"], "id": id_} for q in qids for e in t["ins"] if not set(dsdims[e["ds"]]) <= set(t["dims"])
                              for id_ in uniq([proj(c, dsdims[e["ds"]]) for c in rows]) if rng.random() < 0.3]
        if focus == "structure" and rng.random() < 0.3 and len(tasks) > 1:
            a, b = rng.sample([t["label"] for t in tasks], 2)
            if rng.random() < 0.8 and [t["label"] for t in tasks].index(a) > [t["label"] for t in tasks].index(b):
                a, b = b, a
            sc["prune"] = [a, b]

    # ----------------------------------------------------------- real build
    def pipeline(self, sc) -> PipelineGraph:
        pg = PipelineGraph()
        for t in sc["tasks"]:
            c = RuleConfig()
            c.dimensions = list(t["dims"])
            td = set(t["dims"])

            def conn(ds, form="", **kw):
                dims = sc["dsdims"][ds]
                special = ds.endswith("_metadata")
                name, stored = form_of(sc, ds, form)
                return D(dataset_type_name=name, dimensions=list(dims), multiple=not set(dims) <= td,
                         storage_class="TaskMetadata" if special else stored,
                         mock_storage_class=not special, **kw)

            for k, e in enumerate(t["ins"]):
                c.inputs[f"i{k}"] = conn(e["ds"], e.get("form", ""), minimum=e["min"])
            for k, e in enumerate(t["pre"]):
                c.prerequisite_inputs[f"p{k}"] = conn(e["ds"], e.get("form", ""), minimum=e["min"])
            for k, ds in enumerate(t["outs"]):
                c.outputs[f"o{k}"] = conn(ds)
            for k, ds in enumerate(t["initin"]):
                c.init_inputs[f"ii{k}"] = D(dataset_type_name=ds)
            for k, ds in enumerate(t["initout"]):
                c.init_outputs[f"io{k}"] = D(dataset_type_name=ds)
            c.rules = json.dumps({k: t.get(k, []) for k in ("nowork", "dropin", "dropout", "kill", "addin")})
            pg.add_task(t["label"], RuleTask, config=c)
        return pg

    def populate(self, sc, pg, done: list) -> dict:
        """Insert the datasets of ``sc["store"]`` not in ``done`` yet."""
        reg = self.butler.registry
        for e in sc["store"]:
            if e in done:
                continue
            done.append(e)
            self.butler.collections.register(e["run"], CollectionType.RUN)
            dt = pg.dataset_types[e["ds"]].dataset_type
            reg.registerDatasetType(dt)
            kw = {}
            if e["id"][0]:
                kw[I] = e["id"][0]
            if e["id"][1]:
                kw[F] = e["id"][1]
            if e["id"][2]:
                kw[DT] = int(e["id"][2])
            did = DataCoordinate.standardize(kw, universe=self.butler.dimensions)
            reg.insertDatasets(dt, [did], run=e["run"])
        for r in sc["incolls"] + sc["skipin"]:
            self.butler.collections.register(r, CollectionType.RUN)
        if sc["outexists"]:
            self.butler.collections.register(sc["outrun"], CollectionType.RUN)

    def prepare(self, sc):
        pg = self.pipeline(sc)
        for ds in sc.get("arrow", []):
            if ds in sc["overall"] or any(e["ds"] == ds for t in sc["tasks"] for e in t["pre"]):
                self.butler.registry.registerDatasetType(DatasetType(
                    ds, self.butler.dimensions.conform(sc["dsdims"][ds]), MockStorageClass.get_or_register_mock("ArrowTable")))
        pg.resolve(self.butler.registry)
        for n in pg.dataset_types.values():
            if n.name in sc["overall"] or n.is_prerequisite:
                self.butler.registry.registerDatasetType(n.dataset_type)
        return pg

    def known_refs(self, sc) -> dict:
        """uuid -> run for everything in the repository of this scenario."""
        out = {}
        for run in uniq([e["run"] for e in sc["store"]]):
            for ds in uniq([e["ds"] for e in sc["store"] if e["run"] == run]):
                for ref in self.butler.registry.queryDatasets(ds, collections=[run]):
                    out[ref.id] = ref.run
        return out

    def where_expr(self, sc, rng):
        if not sc["where_on"]:
            return ""
        filts, dets = uniq([r[1] for r in sc["where"]]), uniq([r[2] for r in sc["where"]])
        if len(filts) * len(dets) != len(sc["where"]):
            pairs = " OR ".join(f"(physical_filter = '{r[1]}' AND detector = {r[2]})" for r in sc["where"])
            return f"instrument = 'Cam1' AND ({pairs})"
        f = ", ".join(f"'{x}'" for x in filts)
        d = ", ".join(dets)
        return f"instrument = 'Cam1' AND physical_filter IN ({f}) AND detector IN ({d})"

    def options(self, sc, rng) -> dict:
        v = DatasetQueryConstraintVariant
        kw = dict(
            input_collections=list(sc["incolls"]), output_run=sc["outrun"], clobber=sc["clobber"],
            where=self.where_expr(sc, rng),
            dataset_query_constraint={"ALL": v.ALL, "OFF": v.OFF}.get(sc["variant"]) or v.LIST(list(sc["cons"])),
        )
        if sc["skipin"]:
            kw["skip_existing_in"] = list(sc.get("skip_expr") or sc["skipin"])
        if sc["retain_on"] or sc.get("retain_patterns") is not None:
            kw["retained_dataset_types"] = list(sc["retain_patterns"])
        if sc["prune"]:
            kw["prune_unanchored_quanta"] = tuple(sc["prune"])
        return kw

    def trivial(self, sc, pg, rng):
        """A builder that is told the data IDs: those of one row."""
        row = dict(zip((I, F, DT), sc["where"][0], strict=True))
        row[DT] = int(row[DT])
        u = self.butler.dimensions
        ids = {}
        for dims in DIMSETS:
            g = u.conform(dims)
            ids[g] = self.butler.registry.expandDataId({d: row[d] for d in dims})
        opts = self.options(sc, rng)
        kw = {k: opts[k] for k in ("input_collections", "output_run", "clobber", "prune_unanchored_quanta") if k in opts}
        if rng.random() < 0.5:
            names = [ds for t in sc["tasks"] for ds in t["outs"] + [t["label"] + "_log"]]
            kw["dataset_id_modes"] = {ds: DatasetIdGenEnum.DATAID_TYPE_RUN for ds in names if rng.random() < 0.5}
            sc["modes"] = sorted(kw["dataset_id_modes"])
        return TrivialQuantumGraphBuilder(pg, self.butler, data_ids=ids, **kw)

    def run(self, sc, pg, rng, *, old=False, trivial=False) -> dict:
        known = self.known_refs(sc)
        num: dict = {}

        def ref_rec(r):
            if trivial and r.datasetType.name in sc.get("modes", ()):
                fixed = DatasetRef(r.datasetType, r.dataId, run=sc["outrun"], id_generation_mode=DatasetIdGenEnum.DATAID_TYPE_RUN)
                if fixed.id != r.id:
                    return [r.datasetType.name, short_id(r.dataId), "not the promised ID", num.setdefault(r.id, len(num))]
            return [r.datasetType.name, short_id(r.dataId), known.get(r.id, "new"), num.setdefault(r.id, len(num))]

        obs = {"ok": True, "errs": [], "quanta": [], "inits": [], "edges": [], "has_edges": not old, "seen": {}}
        SEEN.clear()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if trivial:
                    b = self.trivial(sc, pg, rng)
                else:
                    b = AllDimensionsQuantumGraphBuilder(pg, self.butler, **self.options(sc, rng))
                if old:
                    qg = b.build(attach_datastore_records=False)
                else:
                    qg = b.finish(attach_datastore_records=False).assemble()
        except Exception as exc:
            obs["ok"] = False
            obs["errs"] = [c.__name__ for c in type(exc).__mro__]
            obs["msg"] = str(exc)[:300]
            return obs

        obs["seen"] = dict(SEEN)

        def as_asked(label, r):
            """A task gets its inputs in the form it declared."""
            t = next(t for t in sc["tasks"] if t["label"] == label)
            forms = {n: (e["ds"], sc_name) for e in t["ins"] + t["pre"] for n, sc_name in [form_of(sc, e["ds"], e.get("form", ""))]}
            rec = ref_rec(r)
            ds, stored = forms.get(r.datasetType.name, ("", ""))
            if not ds.endswith("_metadata"):
                stored = MockStorageClass.get_or_register_mock(stored or "StructuredDataDict").name
            else:
                stored = "TaskMetadata"
            return [ds, *rec[1:]] if ds and r.datasetType.storageClass_name == stored else ["?" + rec[0], *rec[1:]]

        def quantum(label, did, q):
            return {
                "task": label, "id": short_id(did),
                "ins": [as_asked(label, r) for refs in q.inputs.values() for r in refs],
                "outs": [ref_rec(r) for refs in q.outputs.values() for r in refs],
                "initins": [[r.datasetType.name, known.get(r.id, "new")] for r in q.initInputs.values()],
            }

        if old:
            for td in qg.iterTaskGraph():
                obs["inits"].append({
                    "task": td.label,
                    "outs": [[r.datasetType.name, known.get(r.id, "new")] for r in qg.initOutputRefs(td) or []]})
                for node in qg.getNodesForTask(td):
                    obs["quanta"].append(quantum(td.label, node.quantum.dataId, node.quantum))
            return obs
        quanta = qg.build_execution_quanta()
        key = {}
        for label, by_id in qg.quanta_by_task.items():
            for did, qid in by_id.items():
                q = quanta[qid]
                key[qid] = [label, short_id(did)]
                obs["quanta"].append(quantum(label, did, q))
        for label in [t["label"] for t in sc["tasks"]]:
            if qg.quanta_by_task.get(label):
                obs["inits"].append({
                    "task": label,
                    "outs": [[r.datasetType.name, known.get(r.id, "new")]
                             for r in qg.get_init_outputs(label).values()]})
        obs["edges"] = [[key[a], key[b]] for a, b in qg.quantum_only_xgraph.edges]
        self.last_qg = qg
        return obs


def strip(sc):
    return {k: sc[k] for k in ("tasks", "dsdims", "univ", "where", "cons", "store", "incolls", "skipin", "outrun",
                               "outexists", "clobber", "retain_on", "retained", "prune", "list")}


def expand_retained(patterns, names):
    """Independent reading of what a set of retained patterns means."""
    if patterns is None or not patterns or "*" in patterns:
        return False, []
    out = []
    for pat in patterns:
        if any(ch in pat for ch in "*?["):
            out += [n for n in names if fnmatch.fnmatchcase(n, pat)]
        else:
            out.append(pat)
    return True, sorted(set(out))


def prefixed(sc, p):
    """The same scenario with all names prefixed (so registries can be shared)."""
    sc = json.loads(json.dumps(sc))
    for t in sc["tasks"]:
        t["label"] = p + t["label"]
        for e in t["ins"] + t["pre"] + t["dropin"] + t["dropout"] + t.get("addin", []):
            e["ds"] = p + e["ds"]
        for k in ("outs", "initin", "initout"):
            t[k] = [p + x for x in t[k]]
    sc["dsdims"] = {p + k: v for k, v in sc["dsdims"].items()}
    for e in sc["store"]:
        e["run"] = p + e["run"]
        e["ds"] = p + e["ds"]
    for k in ("incolls", "skipin", "cons", "retained", "prune"):
        sc[k] = [p + x for x in sc[k]]
    sc["outrun"] = p + sc["outrun"]
    return sc


def add_history(rng, sc):
    """Give the scenario earlier runs in which some of it was executed."""
    dsdims = sc["dsdims"]
    p = sc["outrun"][:-3]
    runs = [f"{p}run{k}" for k in range(rng.choice([1, 1, 2]))]
    same = rng.random() < 0.5  # extend the last run, or start a new one
    producer = {ds: t for t in sc["tasks"] for ds in t["outs"]}
    trimmed = set()
    if rng.random() < 0.5:
        trimmed = {ds for ds in producer if rng.random() < 0.35}
    p_done = rng.choice([0.4, 0.7, 0.9, 1.0])
    # often everything was done up to some task, and tasks have been added since
    tail = rng.random() < 0.5
    late = {t["label"] for t in sc["tasks"][-rng.choice([1, 1, 2]):]} if tail else set()
    if tail:
        p_done = 1.0
    for run in runs:
        failed: set = set()
        for t in sc["tasks"]:
            any_done = False
            for q in uniq([proj(c, t["dims"]) for c in sc["where"]]):
                rows = [c for c in sc["where"] if proj(c, t["dims"]) == q]
                key = (t["label"], tuple(q))
                state = rng.choices(["done", "partial", "none"],
                                    [p_done, (1 - p_done) * 0.4, (1 - p_done) * 0.6])[0]
                ups = {(producer[e["ds"]]["label"], tuple(proj(c, producer[e["ds"]]["dims"])))
                       for e in t["ins"] if e["ds"] in producer for c in rows}
                if ups & failed and rng.random() < 0.85:
                    state = "none"
                if t["label"] in late:
                    state = "none"
                if state != "done":
                    failed.add(key)
                if state == "none":
                    continue
                any_done = True
                for ds in t["outs"]:
                    for id_ in uniq([proj(c, dsdims[ds]) for c in rows]):
                        if ds not in trimmed and rng.random() < (0.9 if state == "done" else 0.5):
                            sc["store"].append({"run": run, "ds": ds, "id": id_})
                if state == "done":
                    sc["store"].append({"run": run, "ds": t["label"] + "_metadata", "id": q})
                if rng.random() < 0.9:
                    sc["store"].append({"run": run, "ds": t["label"] + "_log", "id": q})
            if any_done:
                for ds in [*t["initout"], t["label"] + "_config"]:
                    if rng.random() < 0.97:
                        sc["store"].append({"run": run, "ds": ds, "id": EMPTY})
    sc["store"] = uniq(sc["store"])
    if same:
        sc["outrun"] = runs[-1]
        sc["outexists"] = True
    elif rng.random() < 0.2:
        sc["outexists"] = True  # an empty output run
    sc["clobber"] = rng.random() < 0.6
    if rng.random() < 0.9:
        skip = list(runs)
        rng.shuffle(skip)
        if same and rng.random() < 0.25 and len(skip) > 1:
            skip.remove(sc["outrun"])
        if not same and sc["outexists"] and rng.random() < 0.5:
            skip.insert(rng.randrange(len(skip) + 1), sc["outrun"])
        sc["skipin"] = skip
        r = rng.random()
        names = list(dsdims)
        if r < (0.75 if tail else 0.55):
            pats = []
            for ds in producer:
                if ds not in trimmed and rng.random() < (0.5 if tail else 0.7):
                    pats.append(ds)
            if rng.random() < 0.3:
                pats.append(f"{p}d{rng.randrange(5)}?")
            if rng.random() < 0.1:
                pats.append("*_metadata")
            if rng.random() < 0.08:
                pats = rng.choice([["*"], [*pats, "*"], []])
            sc["retain_patterns"] = pats
            sc["retain_on"], sc["retained"] = expand_retained(pats, names)


def build_batch(args):
    """Worker: build many scenarios; returns records."""
    import random

    seed, count, focus, given = args
    rng = random.Random(seed)
    bench = Bench()
    recs = []
    for i in range(count if given is None else len(given)):
        if i % 50 == 49:
            bench.close()
            bench = Bench()
        if given is None:
            sc = bench.scenario(rng, focus=focus)
            if focus == "history":
                add_history(rng, sc)
        else:
            bench.n += 1
            sc = prefixed(given[i], f"y{bench.n}")
            outs = {ds for t in sc["tasks"] for ds in t["outs"]}
            sc.update(variant="ALL" if sc["cons"] else "OFF", where_on=True,
                      overall=uniq([e["ds"] for t in sc["tasks"] for e in t["ins"] if e["ds"] not in outs]))
            if sc["retain_on"]:
                sc["retain_patterns"] = sc["retained"]
        pg = bench.prepare(sc)
        bench.populate(sc, pg, [])
        if sc["skipin"] and rng.random() < 0.3:
            chain = f"chain{i}_{sc['outrun']}"
            bench.butler.collections.register(chain, CollectionType.CHAINED)
            bench.butler.collections.redefine_chain(chain, sc["skipin"])
            sc["skip_expr"] = [chain]
        obs = bench.run(sc, pg, rng)
        recs.append({"sc": strip(sc), "obs": obs})
        if i % 5 == 0:
            recs.append({"sc": strip(sc), "obs": bench.run(sc, bench.prepare(sc), rng, old=True)})
        if focus == "structure" and i % 2 == 0:
            one = json.loads(json.dumps(sc))
            one.update(where=[rng.choice(sc["where"])], cons=[], list=False, variant="OFF")
            recs.append({"sc": strip(one), "obs": bench.run(one, bench.prepare(one), rng, trivial=True)})
    bench.close()
    return recs


def summarize(check, recs):
    kinds = [(r["obs"]["errs"] or ["graph" if r["obs"]["quanta"] else "empty graph"])[0] for r in recs]
    check.notes["outcomes"] = {k: kinds.count(k) for k in sorted(set(kinds))}
    check.notes["quanta"] = sum(len(r["obs"]["quanta"]) for r in recs)
