"""Histories of operations on caching and blocking butlers."""
from __future__ import annotations

import logging
import random
import time
import types
from unittest import mock

from astropy.table import Table

from lsst.daf.butler import CollectionType, DatasetRef, DatasetType, LimitedButler
from lsst.pipe.base import TaskMetadata
from lsst.pipe.base.blocking_limited_butler import BlockingLimitedButler
from lsst.pipe.base.caching_limited_butler import CachingLimitedButler
from lsst.pipe.base.tests.mocks import DirectButlerRepo

logging.getLogger("lsst.daf.butler").setLevel(logging.CRITICAL)

VIEWS = {"dict": ["full"], "md": ["full", "asdict"], "tab": ["full", "columns", "rowcount", "param", "asdict"]}
SC = {"dict": "StructuredDataDict", "md": "TaskMetadata", "tab": "ArrowAstropy"}


class Broken(Exception):
    pass


class Inner(LimitedButler):
    """What is wrapped: a real butler that can be told to fail, and to which
    datasets are added when their time comes."""

    def __init__(self, butler):
        self.b = butler
        self.storageClasses = butler.storageClasses
        self.fail = False
        self.due = []
        self.now = lambda: 0.0

    def _arrive(self):
        for item in list(self.due):
            if self.now() >= item[0]:
                self.due.remove(item)
                item[1]()

    @property
    def _metrics(self):
        return self.b._metrics

    @_metrics.setter
    def _metrics(self, m):
        self.b._metrics = m

    @property
    def _datastore(self):
        return self.b._datastore

    @_datastore.setter
    def _datastore(self, v):
        self.b._datastore = v

    @property
    def dimensions(self):
        return self.b.dimensions

    def close(self):
        pass

    def isWriteable(self):
        return self.b.isWriteable()

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self._arrive()
        if self.fail:
            raise Broken()
        return self.b.get(ref, parameters=parameters, storageClass=storageClass)

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        self._arrive()
        return self.b.getDeferred(ref, parameters=parameters, storageClass=storageClass)

    def stored_many(self, refs):
        self._arrive()
        return self.b.stored_many(refs)

    def put(self, obj, ref, /, *, provenance=None):
        if self.fail:
            raise Broken()
        return self.b.put(obj, ref, provenance=provenance)

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        return self.b.pruneDatasets(refs, disassociate=disassociate, unstore=unstore, tags=tags, purge=purge)


def make(kind, v):
    if kind == "tab":
        return Table({"a": [v] * v, "b": list(range(v)), f"x{v}": [0.5] * v})
    d = {"v": v, "l": [v, {"k": v}]}
    if kind == "dict":
        return d
    m = TaskMetadata()
    m["v"] = v
    m["l"] = [v, v]
    return m


def spoil(kind, obj):
    """Change an object in place, deeply."""
    if kind == "tab" and isinstance(obj, Table):
        obj["a"][:] = 9
        obj["zz"] = [7] * len(obj)
    elif isinstance(obj, list):
        obj.append("zz")
    elif isinstance(obj, TaskMetadata):
        obj["v"] = 9
        obj.add("l", 9)
    elif isinstance(obj, dict):
        for k in list(obj):
            if hasattr(obj[k], "fill") and obj[k].flags.writeable:
                obj[k].fill(9)
        obj["v"] = 9
        if "l" in obj and isinstance(obj["l"][-1], dict):
            obj["l"][-1]["k"] = 9
        obj["zz"] = 1


def read(kind, view, obj):
    """Which version an object shows; -1 if none."""
    try:
        if kind == "tab":
            if view in ("rowcount",):
                return obj if isinstance(obj, int) else -1
            if view == "columns":
                names = list(obj)
                return int(names[2][1:]) if len(names) == 3 and names[:2] == ["a", "b"] else -1
            if view == "asdict":
                v = len(obj["a"])
                return v if type(obj) is dict and set(obj) == {"a", "b", f"x{v}"} and set(obj["a"].tolist()) == {v} else -1
            v = len(obj)
            want = ["a"] if view == "param" else ["a", "b", f"x{v}"]
            return v if isinstance(obj, Table) and obj.colnames == want and set(obj["a"].tolist()) == {v} else -1
        if kind == "dict":
            v = obj["v"]
            return v if obj == make("dict", v) else -1
        if view == "asdict":
            v = obj["v"]
            return v if type(obj) is dict and obj == {"v": v, "l": [v, v]} else -1
        v = obj["v"]
        return v if isinstance(obj, TaskMetadata) and obj.getArray("l") == [v, v] and set(obj) == {"v", "l"} else -1
    except Exception:
        return -1


class Butlers:
    def __init__(self, rng):
        self.rng = rng
        self._ctx = DirectButlerRepo.make_temporary("base.yaml")
        self.helper, self.root = self._ctx.__enter__()
        self.butler = self.helper.butler
        self.types = {}
        for k, s in SC.items():
            self.types[k] = DatasetType(f"pb_{k}", ["instrument", "detector"], s, universe=self.butler.dimensions)
            self.butler.registry.registerDatasetType(self.types[k])
        self.n = 0

    def close(self):
        self._ctx.__exit__(None, None, None)

    def refs(self, run, things):
        """things: name -> [kind, detector]."""
        self.butler.collections.register(run, CollectionType.RUN)
        return {n: DatasetRef(self.types[k], self.butler.registry.expandDataId(instrument="Cam1", detector=d), run=run)
                for n, (k, d) in things.items()}

    # ------------------------------------------------------------- caching
    def caching(self, plan=None):
        rng = self.rng
        self.n += 1
        things = {"d0": [rng.choice(list(SC)), 1], "d1": [rng.choice(list(SC)), 2]}
        if rng.random() < 0.6:
            things["d1"][0] = things["d0"][0]
        if plan is not None:
            things = {"d0": [rng.choice(["md", "tab", "tab", "dict"]), 1], "d1": ["dict", 2]}
            things["d1"][0] = things["d0"][0]
        refs = self.refs(f"run{self.n}", things)
        inner = Inner(self.butler)
        names = [f"pb_{k}" for k in SC] + ["pb_tab.columns", "pb_tab.rowcount"]
        sets = [frozenset(x for x in names if rng.random() < p) for p in (0.7, 0.7, 0.2)]
        b = CachingLimitedButler(inner, cache_on_put=sets[0], cache_on_get=sets[1], no_copy_on_cache=sets[2])
        how = rng.random()
        if how < 0.15:
            b = BlockingLimitedButler(b, {})
        elif how < 0.3:
            b = CachingLimitedButler(BlockingLimitedButler(inner, {"pb_dict": 0.0}), cache_on_put=sets[0], cache_on_get=sets[1],
                                     no_copy_on_cache=sets[2])
        alive = []
        events = []
        for op in (plan if plan is not None else [None] * rng.choice([5, 8, 12])):
            events.append(self.op(b, inner, refs, things, sets, alive, op))
        inner.fail = False
        return {"kind": "caching", "things": {n: k for n, (k, _) in things.items()}, "events": events, "extra": {"put": sorted(sets[0]), "get": sorted(sets[1]),
                                                                                                         "nocopy": sorted(sets[2])}}

    def op(self, b, inner, refs, things, sets, alive, given):
        rng = self.rng
        if given is None:
            given = {"op": rng.choices(["put", "get", "spoil", "prune", "stored"], [4, 9, 3, 2, 2])[0], "d": rng.choice(sorted(refs)),
                     "fail": rng.random() < 0.15}
        name = given["d"]
        kind = things[name][0]
        op = given["op"]
        e = {"op": op, "d": name, "fail": bool(given.get("fail")), "v": 0, "view": "full", "ok": True, "err": [], "got": -2, "set": [], "asked": []}
        inner.fail = e["fail"]
        try:
            if op == "put":
                e["v"] = given.get("v") or rng.choice([2, 3, 4, 5, 6])
                obj = make(kind, e["v"])
                b.put(obj, refs[name])
                if f"pb_{kind}" not in sets[2]:
                    alive.append((kind, obj))
            elif op == "get":
                view = given.get("view") or rng.choice(VIEWS[kind])
                if view not in VIEWS[kind]:
                    view = "asdict" if "asdict" in VIEWS[kind] else "full"
                e["view"] = view
                ref = refs[name]
                kw = {}
                tname = f"pb_{kind}"
                if view in ("columns", "rowcount"):
                    ref = ref.makeComponentRef(view)
                    tname += "." + view
                elif view == "param":
                    kw["parameters"] = {"columns": ["a"]}
                elif view == "asdict":
                    sc = "StructuredDataDict" if kind == "md" else "ArrowNumpyDict"
                    if rng.random() < 0.3:
                        ref = ref.overrideStorageClass(sc)
                    else:
                        kw["storageClass"] = sc
                elif rng.random() < 0.2:
                    kw["storageClass"] = rng.choice([SC[kind], ref.datasetType.storageClass])
                if rng.random() < 0.15 and not e["fail"] and "parameters" not in kw:
                    obj = b.getDeferred(ref, **kw).get()
                else:
                    obj = b.get(ref, **kw)
                e["got"] = read(kind, view, obj)
                if not {tname, f"pb_{kind}"} & sets[2] and view != "rowcount":
                    alive.append((kind, obj))
            elif op == "spoil":
                inner.fail = e["fail"] = False
                for k, obj in alive:
                    spoil(k, obj)
                alive.clear()
            elif op == "prune":
                inner.fail = e["fail"] = False
                b.pruneDatasets(iter([refs[name]]) if rng.random() < 0.5 else [refs[name]], disassociate=True, unstore=True, purge=True)
            elif op == "stored":
                inner.fail = e["fail"] = False
                ask = [n for n in sorted(refs) if n == name or rng.random() < 0.6]
                if rng.random() < 0.3:
                    res = {refs[n]: b.stored(refs[n]) for n in ask}
                else:
                    res = b.stored_many(refs[n] for n in ask)
                e["asked"] = ask
                e["set"] = [n for n in sorted(refs) if res.get(refs[n])]
                e["got"] = len(res)
        except Exception as exc:
            e["ok"] = False
            e["err"] = [c.__name__ for c in type(exc).__mro__]
        return e

    # ------------------------------------------------------------ blocking
    def blocking(self):
        """One call on a blocking butler while datasets arrive, in virtual time."""
        rng = self.rng
        self.n += 1
        things = {f"d{i}": [rng.choice(list(SC)), i + 1] for i in range(rng.choice([1, 2, 3]))}
        refs = self.refs(f"run{self.n}", things)
        # whole numbers of seconds, arrivals in between timeouts
        timeouts = {k: rng.choice([0.0, 2.0, 4.0, 6.0, None]) for k in SC if rng.random() < 0.75}
        inner = Inner(self.butler)
        arrive = {}
        for n, (k, _) in things.items():
            t = rng.choice([-1.0, -1.0, 1.0, 3.0, 5.0, 7.0, 99.0])
            if timeouts.get(k, 0.0) is None and t == 99.0:
                t = 9.0
            arrive[n] = t
        b = BlockingLimitedButler(inner, {f"pb_{k}": v for k, v in timeouts.items()})
        if rng.random() < 0.3:
            b = CachingLimitedButler(b, cache_on_get=frozenset(f"pb_{k}" for k in SC))
        offset = [0.0]
        t0 = time.time()
        inner.now = lambda: offset[0]

        def clock():
            # time passes while something sleeps, and a little whenever somebody looks
            offset[0] += 1e-4
            return t0 + offset[0]

        for n, (k, _) in things.items():
            inner.due.append((arrive[n], lambda n=n, k=k: self.butler.put(make(k, 3), refs[n])))
        inner._arrive()

        def sleep(s):
            offset[0] += s

        name = rng.choice(sorted(things))
        kind = things[name][0]
        op = rng.choice(["get", "get", "stored", "stored", "deferred"])
        view = rng.choice(["full"] + (["columns"] if kind == "tab" else []))
        ref = refs[name] if view == "full" else refs[name].makeComponentRef(view)
        ask = sorted(things) if rng.random() < 0.7 else [name]
        rec = {"kind": "blocking", "op": op, "d": name, "asked": ask, "ok": True, "err": [], "got": -2, "set": [],
               "things": {n: {"at": arrive[n], "wait": -1.0 if timeouts.get(k, 0.0) is None else timeouts.get(k, 0.0)} for n, (k, _) in things.items()}}
        with mock.patch.object(time, "sleep", sleep), mock.patch.object(time, "time", clock), \
                mock.patch.object(time, "monotonic", clock), mock.patch.object(time, "perf_counter", clock):
            try:
                if op == "get":
                    rec["got"] = read(kind, view, b.get(ref))
                elif op == "deferred":
                    b.getDeferred(ref)
                else:
                    # a component is there when its dataset is
                    part = {n: refs[n].makeComponentRef("columns") if things[n][0] == "tab" and rng.random() < 0.5 else refs[n]
                            for n in ask}
                    res = b.stored_many([part[n] for n in ask])
                    rec["set"] = [n for n in ask if res.get(part[n])]
                    rec["got"] = len(res)
            except Exception as exc:
                rec["ok"] = False
                rec["err"] = [c.__name__ for c in type(exc).__mro__]
        # in tenths of seconds
        rec["took"] = int((inner.now()) * 10)
        for t in rec["things"].values():
            t["at"] = int(t["at"] * 10)
            t["wait"] = int(t["wait"] * 10)
        return rec


def butler_batch(args):
    seed, nc, nb, given = args
    rng = random.Random(seed)
    w = Butlers(rng)
    recs = [w.caching(p) for p in given or []] + [w.caching() for _ in range(nc)] + [w.blocking() for _ in range(nb)]
    w.close()
    return recs
