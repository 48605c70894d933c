"""P16: the definition of a dataset type in a pipeline graph."""
from __future__ import annotations

import random
import warnings

from .vlib import Check

CFG = "SPECIFICATION MSpec\nCONSTANTS Emitting=FALSE NReaders={n}\nINVARIANTS OrderFree\nCHECK_DEADLOCK FALSE\n"
PLAIN = ["DataFrame", "ArrowAstropy", "StructuredDataDict", "TaskMetadata"]
COMPSC = ["DataFrameIndex", "ArrowColumnList", "StructuredDataList", "int", "ArrowAstropySchema", "DataFrameSchema"]
_ENV: dict = {}


def env():
    """Which storage classes can be converted into which (taken from the butler)."""
    if not _ENV:
        from lsst.daf.butler import StorageClassConfig, StorageClassFactory

        f = StorageClassFactory()
        f.addFromConfig(StorageClassConfig())
        conv, comps = [], []
        for group in (PLAIN, COMPSC):
            for a in group:
                for b in group:
                    if a != b and f.getStorageClass(b).can_convert(f.getStorageClass(a)):
                        conv.append([a, b])
        for a in PLAIN:
            for name, sc in f.getStorageClass(a).allComponents().items():
                comps.append({"sc": a, "name": name, "of": sc.name})
                if sc.name not in COMPSC:
                    raise RuntimeError(sc.name)
        _ENV.update(conv=conv, comps=comps)
    return _ENV


class StubRegistry:
    def __init__(self, universe, types=()):
        self.dimensions = universe
        self.types = {t.name: t for t in types}

    def getDatasetType(self, name):
        from lsst.daf.butler import MissingDatasetTypeError

        try:
            return self.types[name]
        except KeyError:
            raise MissingDatasetTypeError(name) from None

    def registerDatasetType(self, t):
        if t.name in self.types:
            if self.types[t.name] != t:
                from lsst.daf.butler.registry import ConflictingDefinitionError

                raise ConflictingDefinitionError(t.name)
            return False
        self.types[t.name] = t
        return True


class StubButler:
    def __init__(self, registry):
        self.registry = registry
        self.dimensions = registry.dimensions


def attempt(f, *args, **kw):
    try:
        f(*args, **kw)
    except Exception as exc:
        return type(exc).__name__
    return ""


def observe(pg, case, reg, flags, how, universe):
    """Resolve the graph and record everything said about dataset type d."""
    from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType

    regs = [DatasetType("d", r["dims"], r["sc"], universe=universe, isCalibration=r["cal"]) for r in reg]
    if how == "registry":
        outcome = attempt(pg.resolve, StubRegistry(universe, regs))
    else:
        outcome = attempt(pg.resolve, dimensions=universe, dataset_types={t.name: t for t in regs})
    rec = {**env(), "reg": reg, "writers": case["writers"], "readers": case["readers"], "flags": flags, "tasks": case["tasks"],
           "outcome": outcome}
    if outcome:
        return rec
    n = pg.dataset_types["d"]

    def edge(e):
        return e.task_label + "." + e.connection_name

    rec["def"] = {"sc": n.dataset_type.storageClass_name, "dims": sorted(n.dataset_type.dimensions.names),
                  "cal": n.dataset_type.isCalibration()}
    rec["prereq"] = n.is_prerequisite
    rec["constraint"] = n.is_initial_query_constraint
    rec["producer"] = [edge(n.producing_edge)] if n.producing_edge is not None else []
    rec["consumers"] = [edge(e) for e in n.consuming_edges]
    edges = [*([n.producing_edge] if n.producing_edge else []), *n.consuming_edges]
    values = {"instrument": "I", "detector": 1, "htm7": 140000, "htm3": 512}
    data_id = DataCoordinate.standardize({k: values[k] for k in n.dimensions.required}, universe=universe)
    ref = DatasetRef(n.dataset_type, data_id, run="r")
    rec["adapted"] = []
    rec["general"] = []
    for e in edges:
        t = e.adapt_dataset_type(n.dataset_type)
        rec["adapted"].append([edge(e), t.name, t.storageClass_name])
        r2 = e.adapt_dataset_ref(ref)
        if (r2.datasetType, r2.id, r2.dataId, r2.run) != (t, ref.id, ref.dataId, ref.run):
            rec["adapted"].append([edge(e), "ref", "differs"])
        back = n.generalize_ref(r2)
        rec["general"].append(f"{back.datasetType.name}:{back.datasetType.storageClass_name}"
                              if (back.id, back.dataId) == (ref.id, ref.dataId) else "other")
    # registrations
    known = [t for t in regs if flags["inputs"]]
    butler = StubButler(StubRegistry(universe, known))
    pg.register_dataset_types(butler, include_packages=flags["packages"], include_inputs=flags["inputs"],
                              include_configs=flags["configs"], include_logs=flags["logs"])
    types = butler.registry.types
    rec["registered"] = sorted(types)
    d = types.get("d", n.dataset_type)
    rec["regdef"] = {"sc": d.storageClass_name, "dims": sorted(d.dimensions.names), "cal": d.isCalibration()}
    full = StubButler(StubRegistry(universe, []))
    pg.register_dataset_types(full)
    t = full.registry.types
    other = DatasetType("d", n.dimensions, "Packages" if flags["logs"] else n.storage_class_name,
                        isCalibration=n.is_calibration ^ (not flags["logs"]))
    rec["check"] = {
        "full": attempt(pg.check_dataset_type_registrations, full),
        "other": attempt(pg.check_dataset_type_registrations,
                         StubButler(StubRegistry(universe, [x for x in t.values() if x.name != "d"] + [other]))),
        "missing": attempt(pg.check_dataset_type_registrations,
                           StubButler(StubRegistry(universe, [x for x in t.values() if x.name != "d"]))),
        "nopackages": attempt(pg.check_dataset_type_registrations,
                              StubButler(StubRegistry(universe, [x for x in t.values() if x.name != "packages"]))),
    }
    rec["overall"] = [name for name, _ in pg.iter_overall_inputs()]
    rec["group"], rec["groupnp"] = ["-"], ["-"]
    for prereq, key in ((True, "group"), (False, "groupnp")):
        for dims, (_, datasets) in pg.group_by_dimensions(prerequisites=prereq).items():
            if "d" in datasets:
                rec[key] = sorted(dims.names)
    return rec


def build(rng, case, universe):
    """The tasks of a case, added in random order (some after a first resolution)."""
    from lsst.pipe.base.pipeline_graph import PipelineGraph
    from lsst.pipe.base.tests.mocks import DynamicConnectionConfig as D
    from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask, DynamicTestPipelineTaskConfig

    cfgs: dict = {}
    for kind in ("writers", "readers"):
        for e in case[kind]:
            label, conn = e["edge"].split(".")
            cfg = cfgs.setdefault(label, DynamicTestPipelineTaskConfig())
            cfg.dimensions = ["instrument"]
            where = {(True, True): "init_outputs", (True, False): "outputs", (False, True): "init_inputs",
                     (False, False): "prerequisite_inputs" if e.get("pre") else "inputs"}[kind == "writers", e["init"]]
            getattr(cfg, where)[conn] = D(
                dataset_type_name="d" + ("." + e["comp"] if e.get("comp") else ""), dimensions=e["dims"],
                storage_class=e["sc"], mock_storage_class=False, is_calibration=e["cal"], multiple=not e["init"],
                minimum=0 if e.get("defer") else 1)
    labels = sorted(cfgs)
    rng.shuffle(labels)
    pg = PipelineGraph()
    cut = rng.choice([len(labels), len(labels), rng.randint(0, len(labels))])
    for i, label in enumerate(labels):
        if i == cut and i:
            attempt(pg.resolve, dimensions=universe)
        pg.add_task(label, DynamicTestPipelineTask, cfgs[label])
    return pg, labels


DIMS = [[], ["instrument"], ["detector"], ["instrument", "detector"], ["instrument", "htm7"], ["htm7"]]


def random_case(rng):
    focus = {"sc": rng.choice(PLAIN), "dims": rng.choice(DIMS), "cal": rng.random() < 0.15}
    allinit = rng.random() < 0.12
    stray = rng.choice([0.03, 0.03, 0.2])

    def close(**kw):
        e = dict(focus)
        if rng.random() < 0.3:
            e["sc"] = rng.choice(PLAIN)
        if rng.random() < stray:
            e["dims"] = rng.choice(DIMS)
        if rng.random() < stray:
            e["cal"] = not e["cal"]
        if e["dims"] == ["detector"] and rng.random() < 0.5:
            e["dims"] = ["instrument", "detector"]
        e["init"] = False
        if allinit or rng.random() < 0.03:
            e.update(init=True, dims=[], cal=False)
        return {**e, **kw}

    writers = [close(edge=f"w{i}.out") for i in range(rng.choice([0, 0, 1, 1, 1, 2] if stray > 0.1 else [0, 1]))]
    readers = []
    pre = not writers and rng.random() < 0.3
    comps = env()["comps"]
    for i in range(rng.choice([1, 1, 2, 2, 3]) if writers or rng.random() < 0.9 else 2):
        label = f"r{rng.randint(0, 3)}"
        e = close(edge=f"{label}.in{i}", comp="", pre=pre if rng.random() > stray else not pre, defer=rng.random() < 0.2)
        x = rng.random()
        if x < 0.3 and not e["init"]:
            options = [c for c in comps if c["sc"] == focus["sc"]] or comps
            c = rng.choice(options if rng.random() < 0.85 else comps)
            e["comp"] = c["name"]
            e["sc"] = c["of"] if rng.random() < 0.6 else rng.choice(COMPSC)
        if "htm7" in e["dims"] and rng.random() < 0.5 and not e["init"]:
            e["dims"] = ["skypix" if d == "htm7" else d for d in e["dims"]]
        if e["init"]:
            e.update(pre=False, defer=False, comp="")
        readers.append(e)
    if writers and rng.random() < 0.1:
        readers = []
    for e in readers:
        # what the task says about whether it can do without
        e["optional"] = e["defer"] and not e["init"]
    regs = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            regs.append([])
        else:
            r = close()
            regs.append([{"sc": r["sc"], "dims": r["dims"], "cal": r["cal"]}])
    for r in regs:
        for x in r:
            x["dims"] = sorted({*x["dims"], *(["instrument"] if "detector" in x["dims"] else [])})
    return {"writers": writers, "readers": readers}, regs


def job(args):
    seed, n = args
    warnings.simplefilter("ignore")
    import logging

    from lsst.daf.butler import DimensionUniverse

    logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)
    env()
    rng = random.Random(seed)
    universe = DimensionUniverse()
    recs = []
    for _ in range(n):
        case, regs = random_case(rng)
        pg, labels = build(rng, case, universe)
        case["tasks"] = labels
        for reg in regs:
            flags = {k: rng.random() < 0.6 for k in ("inputs", "configs", "logs", "packages")}
            recs.append(observe(pg, case, reg, flags, rng.choice(["registry", "mapping"]), universe))
    return recs


def run(c: Check) -> None:
    c.model("MCResolve", CFG.format(n=c.scale(2, 3)), name="all definitions and connections, one at a time in any order")
    recs = [r for rs in c.pmap(job, [(f"{c.seed}:{i}", c.scale(220, 4000)) for i in range(16)]) for r in rs]
    kinds: dict = {}
    for r in recs:
        kinds[r["outcome"] or "ok"] = kinds.get(r["outcome"] or "ok", 0) + 1
    c.notes["outcomes"] = kinds
    c.judge("Resolve", recs, op="ResolveVerdict", kind="resolutions", chunk=300)
