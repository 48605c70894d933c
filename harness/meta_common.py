"""Filling the metadata of tasks, and reading it back."""
from __future__ import annotations

import math
import random
import types
from fractions import Fraction

import numpy as np

from lsst.pex.config import Config, ConfigurableField
from lsst.pipe.base import Task, TaskMetadata

SCALARS = [0, 1, -3, 2**70, 1.0, -0.0, 2.5, math.nan, math.inf, -math.inf, 1e-300, 1e300, True, False, "", "a", "1", "nan", "x.y", "é\n\"", "None", "true"]
NAMES = ["x", "y", "z", "deep name", "a:b", ""]


class LeafConfig(Config):
    pass


class Leaf(Task):
    ConfigClass = LeafConfig
    _DefaultName = "leaf"


class MidConfig(Config):
    x = ConfigurableField(target=Leaf, doc="d")
    y = ConfigurableField(target=Leaf, doc="d")


class Mid(Task):
    ConfigClass = MidConfig
    _DefaultName = "mid"

    def __init__(self, **kw):
        super().__init__(**kw)
        self.makeSubtask("x")
        self.makeSubtask("y")


class TopConfig(Config):
    x = ConfigurableField(target=Mid, doc="d")
    y = ConfigurableField(target=Leaf, doc="d")


class Top(Task):
    ConfigClass = TopConfig
    _DefaultName = "top"

    def __init__(self, **kw):
        super().__init__(**kw)
        self.makeSubtask("x")
        self.makeSubtask("y")


def tok(v):
    return {"t": type(v).__name__, "v": repr(v)}


def node(v, depth=0):
    """Describe a value by what can be seen of it."""
    if depth > 8:
        return {"k": "too deep"}
    if isinstance(v, (TaskMetadata, dict)):
        return {"k": "m", "c": {("'" + k): node(x, depth + 1) for k, x in v.items()}}
    if isinstance(v, list):
        return {"k": "a", "a": [tok(x) for x in v]}
    if isinstance(v, (str, int, float)):
        return {"k": "s", "s": tok(v)}
    return {"k": "other"}


def err(exc):
    return [c.__name__ for c in type(exc).__mro__]


def attempt(f):
    try:
        return node(f()), []
    except Exception as exc:
        return {"k": "none"}, err(exc)


class Weird:
    pass


def value(rng, depth=0):
    """Return a value and what it stands for."""
    r = rng.random()
    if r < 0.36:
        v = rng.choice(SCALARS)
        if type(v) is int and abs(v) < 2**60 and rng.random() < 0.3:
            return rng.choice([np.int64, np.int32])(v), {"k": "s", "s": tok(v)}
        if type(v) is float and rng.random() < 0.3:
            return np.float64(v), {"k": "s", "s": tok(v)}
        if rng.random() < 0.05:
            return Fraction(5, 2), {"k": "s", "s": tok(2.5)}
        return v, {"k": "s", "s": tok(v)}
    if r < 0.66:
        n = rng.choice([0, 0, 1, 1, 2, 3])
        t = rng.choice([int, float, bool, str])
        vs = [rng.choice([s for s in SCALARS if type(s) is t]) for _ in range(n)]
        if n > 1 and rng.random() < 0.15:
            vs[-1] = rng.choice([s for s in SCALARS if type(s) is not t])
        d = {"k": "a", "a": [tok(v) for v in vs]}
        same = len({type(v) for v in vs}) < 2
        q = rng.random()
        if q < 0.2:
            return tuple(vs), d
        if q < 0.35 and t is float and same:
            return [np.float64(v) for v in vs], d
        if q < 0.4 and same:
            return range(2, 4), {"k": "a", "a": [tok(2), tok(3)]}
        return vs, d
    if r < 0.86 and depth < 2:
        out, d, heads = {}, [], []
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            path = [rng.choice(NAMES[:3]) for _ in range(rng.choice([1, 1, 1, 2]))]
            if ".".join(path) in out:
                continue
            v, m = value(rng, depth + 1)
            out[".".join(path)] = v
            d.append({"path": path, "val": m})
        m = {"k": "d", "d": d}
        q = rng.random()
        if q < 0.2:
            return types.MappingProxyType(out), m
        if q < 0.4:
            try:
                return TaskMetadata.from_dict(out), m
            except ValueError:
                pass
        return out, m
    bad = rng.choice([None, Weird(), {1, 2}, np.zeros(3), 1j, [None], [[1]], [{"a": 1}], [Weird()], np.bool_(True), object])
    return bad, {"k": "bad"}


def unmodel(m):
    """A plain value for a value of the specification."""
    if m["k"] == "bad":
        return Weird()
    if m["k"] == "s":
        return eval(m["s"]["v"], {})
    if m["k"] == "a":
        return [eval(x["v"], {}) for x in m["a"]]
    return {".".join(x["path"]): unmodel(x["val"]) for x in m["d"]}


def see(meta, paths):
    looks = []
    for path in paths:
        key = ".".join(path)
        one, oneerr = attempt(lambda: meta[key])
        sc, _ = attempt(lambda: meta.getScalar(key))
        got = meta.get(key, ...)
        allv, allerr = attempt(lambda: meta.getArray(key))
        if allv["k"] == "other" or (isinstance(allv.get("a"), list) and not allerr and len(x := meta.getArray(key)) == 1 and isinstance(x[0], TaskMetadata)):
            allv = node(meta.getArray(key)[0])
        try:
            asdict = node(meta.get_dict(key))
        except Exception:
            asdict = {"k": "none"}
        looks.append({"path": path, "known": key in meta, "one": one, "oneerr": oneerr, "scalar": sc,
                      "dflt": {"k": "default"} if got is ... else node(got), "all": allv, "allerr": allerr, "asdict": asdict})
    return {"tree": node(meta), "keys": list(meta.keys()), "iter": list(meta), "len": len(meta), "names": sorted(meta.names()),
            "params": sorted(meta.paramNames(topLevelOnly=False)), "top": sorted(meta.paramNames(topLevelOnly=True)), "looks": looks}


def spoil(v):
    """Change everything in a copy."""
    if isinstance(v, TaskMetadata):
        for k in list(v.keys()):
            if isinstance(v.get(k), TaskMetadata):
                spoil(v[k])
            else:
                arr = v.getArray(k)
                arr.append(arr[0] if arr else 1)
        v["spoilt"] = 1
    elif isinstance(v, dict):
        for x in v.values():
            if isinstance(x, dict):
                spoil(x)
            elif isinstance(x, list):
                x.append(1)
        v["spoilt"] = 1


def copies(meta, name):
    out = []

    def take(how, make):
        try:
            c = make()
            tree, e = node(c), []
        except Exception as exc:
            c, tree, e = None, {"k": "none"}, err(exc)
        spoil(c)
        out.append({"how": how, "task": name, "tree": tree, "err": e, "after": node(meta)})

    take("json", lambda: TaskMetadata.model_validate_json(meta.model_dump_json()))
    take("dump", lambda: TaskMetadata.model_validate(meta.model_dump()))
    take("dictionary", meta.to_dict)
    take("dictionary-and-back", lambda: TaskMetadata.from_dict(meta.to_dict()))
    take("metadata", lambda: TaskMetadata.from_metadata(meta))
    take("deep-copy", lambda: meta.model_copy(deep=True))
    return out


def clean(x):
    if isinstance(x, dict):
        if x.get("k") == "m":
            return {"k": "m", "c": {k[1:]: clean(v) for k, v in x["c"].items()}}
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


def history(rng, plan):
    top = Top()
    tasks = {"top": top, "top.x": top.x, "top.y": top.y, "top.x.x": top.x.x, "top.x.y": top.x.y}
    steps = []
    used = [["x"], ["x", "y"]]
    n = rng.randint(2, 7) if plan is None else len(plan)
    favourite = rng.sample(sorted(tasks), 2)
    for i in range(n):
        if plan is None:
            t = favourite[rng.random() < 0.3]
            if rng.random() < 0.6:
                path = list(rng.choice(used))
                if rng.random() < 0.3:
                    path.append(rng.choice(NAMES))
            else:
                path = [rng.choice(NAMES[:3] if rng.random() < 0.9 else NAMES) for _ in range(rng.choice([1, 1, 2, 3]))]
            op = rng.choice(["set", "set", "set", "add", "add", "add", "add", "del", "setdict"])
            v, m = value(rng)
            if op == "setdict":
                path = path[:1]
                if not isinstance(v, dict):
                    op = "set"
        else:
            t, op, path, m = favourite[0], plan[i]["op"], plan[i]["path"], plan[i]["val"]
            v = unmodel(m)
        if path not in used:
            used.append(path)
        meta = tasks[t].metadata
        key = ".".join(path)
        e = []
        try:
            if op == "set":
                meta[key] = v
            elif op == "setdict":
                meta.set_dict(key, v)
            elif op == "add":
                meta.add(key, v)
            else:
                del meta[key]
        except Exception as exc:
            e = err(exc)
        if op != "del" and isinstance(v, list):
            v.append(7)  # what was given is the user's to change
        elif op != "del" and type(v) is dict:
            spoil(v)
        steps.append({"task": t, "op": op, "path": path, "val": m, "err": e, "see": see(meta, rng.sample(used, min(len(used), 4)))})
    if plan is None and rng.random() < 0.3:
        cp = [c for t in sorted(tasks) for c in copies(tasks[t].metadata, t)]
    else:
        cp = copies(tasks[favourite[0]].metadata, favourite[0])
    asking = rng.choice(sorted(tasks))
    whole = tasks[asking].getFullMetadata()
    tree = node(whole)
    top.emptyMetadata()
    return clean({"tasks": sorted(tasks), "steps": steps, "copies": cp, "full": [{"key": t.replace(".", ":"), "task": t} for t in sorted(tasks)],
                  "whole": tree, "kept": node(whole), "emptied": [node(t.metadata) for _, t in sorted(tasks.items())]})


def meta_batch(arg):
    seed, n, plans = arg
    rng = random.Random(seed)
    if plans is not None:
        return [history(rng, p) for p in plans]
    return [history(rng, None) for _ in range(n)]
