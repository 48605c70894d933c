"""Connections classes, their configuration and what they make of it."""
from __future__ import annotations

import random

from lsst.pipe.base import PipelineTaskConfig, PipelineTaskConnections, iterConnections
from lsst.pipe.base import connectionTypes as cT

KINDS = {"inputs": cT.Input, "prerequisiteInputs": cT.PrerequisiteInput, "outputs": cT.Output, "initInputs": cT.InitInput, "initOutputs": cT.InitOutput}


def pattern(parts):
    return "".join("{" + p["v"] + "}" if p["t"] else p["v"] for p in parts)


def conn(c):
    kw = dict(name=pattern(c["parts"]), storageClass="StructuredDataDict", multiple=c["multiple"], doc="d")
    if not c["kind"].startswith("init"):
        kw["dimensions"] = tuple(c["dims"])
    return KINDS[c["kind"]](**kw)


def show(c):
    kind = [k for k, t in KINDS.items() if type(c) is t]
    return {"kind": kind[0] if kind else "?", "ds": c.name, "multiple": c.multiple, "dims": sorted(getattr(c, "dimensions", ()))}


def err(exc):
    return [c.__name__ for c in type(exc).__mro__]


def declare(plan):
    """Run a plan; see Decls.tla."""
    obs = {"failed": 0, "err": [], "classconns": {}, "classdims": [], "made": False, "makeerr": [], "conns": {}, "sets": {}, "all": [], "attrs": [],
           "dims": [], "frozen": True, "iter": [], "steps": [], "plain": {}, "plaindims": [], "after": {}}
    meta = type(PipelineTaskConnections)
    classes = []
    script = {"on": False}

    def init(this, *, config=None):
        if not script["on"]:
            return
        for st in plan["edits"]:
            res = "ok"
            try:
                if st["op"] == "del":
                    delattr(this, st["n"])
                elif st["op"] == "set":
                    setattr(this, st["n"], conn(st["c"]))
                elif st["op"] == "discard":
                    getattr(this, st["set"]).discard(st["n"])
                elif st["op"] == "dim+":
                    this.dimensions.add(st["n"])
                elif st["op"] == "dim=":
                    this.dimensions = {st["n"]}
                elif st["op"] == "look":
                    res = getattr(this, st["n"]).name
            except Exception as exc:
                res = type(exc).__name__
            obs["steps"].append(res)

    for k, c in enumerate(plan["classes"]):
        try:
            bases = tuple(classes[b - 1] for b in c["bases"]) or (PipelineTaskConnections,)
            kw = {}
            if c["dims"]["on"]:
                kw["dimensions"] = set(c["dims"]["v"])
            if c["templates"]:
                kw["defaultTemplates"] = dict(c["templates"])
            ns = meta.__prepare__(f"C{k}", bases, **kw)
            ns["__module__"] = __name__
            for n in c["order"]:
                ns[n] = conn(c["conns"][n])
            ns["__init__"] = init
            classes.append(meta(f"C{k}", bases, ns, **kw))
        except Exception as exc:
            obs["failed"] = k + 1
            obs["err"] = err(exc)
            return obs
    cls = classes[-1]

    def class_state(c):
        return ({n: show(x) for n, x in c.allConnections.items()}, {s: sorted(getattr(c, s)) for s in KINDS}, sorted(c.dimensions))

    before = [class_state(c) for c in classes]
    obs["classconns"] = before[-1][0]
    obs["classdims"] = before[-1][2]
    if {n: v["kind"] for n, v in before[-1][0].items()} != {n: s for s, ns in before[-1][1].items() for n in ns}:
        obs["classconns"]["?"] = {"kind": "?", "ds": "?", "multiple": False, "dims": []}
    cfgs = []
    try:
        for k, c in enumerate(classes):
            b = plan["classes"][k]["bases"]
            base = (cfgs[b[0] - 1],) if b and plan["cfgchain"] else (PipelineTaskConfig,)
            cfgs.append(type(PipelineTaskConfig)(f"K{k}", base, {"__module__": __name__}, pipelineConnections=c))
        config = cfgs[-1]()
        for f, v in plan["config"].items():
            setattr(config.connections, f, v["num"] if v["isnum"] else pattern(v["parts"]))
        if plan["frozen"]:
            config.freeze()
    except Exception as exc:
        obs["makeerr"] = "config " + err(exc)
        return obs
    script["on"] = True
    try:
        inst = cls(config=config)
    except Exception as exc:
        obs["makeerr"] = err(exc)
        return obs
    finally:
        script["on"] = False
    obs["made"] = True

    def state(inst):
        conns = {n: show(c) for n, c in inst.allConnections.items()}
        return conns, {s: sorted(getattr(inst, s)) for s in KINDS}, sorted(inst.dimensions)

    obs["conns"], obs["sets"], obs["dims"] = state(inst)
    obs["all"] = sorted(inst.allConnections)
    names = {n for c in plan["classes"] for n in c["conns"]} | {e["n"] for e in plan["edits"] if e["op"] == "set"}
    for n in sorted(names):
        try:
            if show(getattr(inst, n)) == obs["conns"].get(n):
                obs["attrs"].append(n)
            else:
                obs["attrs"].append("?" + n)
        except AttributeError:
            pass
    obs["frozen"] = all(isinstance(getattr(inst, s), frozenset) for s in [*KINDS, "dimensions"])
    obs["iter"] = sorted(c.name for c in iterConnections(inst, plan["iter"] if len(plan["iter"]) > 1 else plan["iter"][0]))
    # no way back
    after = {}
    snap = state(inst)
    for n in [*sorted(inst.allConnections)[:2], "fresh"]:
        for what in ("set", "del") if n != "fresh" else ("set",):
            try:
                if what == "set":
                    setattr(inst, n, cT.Output(name="late", storageClass="StructuredDataDict", dimensions=("instrument",)))
                else:
                    delattr(inst, n)
                after[f"{what} {n}"] = "ok"
            except Exception as exc:
                after[f"{what} {n}"] = type(exc).__name__
    try:
        inst.allConnections["fresh"] = cT.Output(name="late", storageClass="StructuredDataDict")
        after["item"] = "ok"
    except Exception as exc:
        after["item"] = type(exc).__name__
    obs["after"] = {"results": sorted(set(after.values())), "same": state(inst) == snap}
    plain = cls(config=cfgs[-1]())
    obs["plain"], _, obs["plaindims"] = state(plain)
    obs["after"]["classes"] = [class_state(c) for c in classes] == before
    return obs


def random_parts(rng, tmpl, n):
    parts = [{"t": False, "v": f"d{n}"}]
    for _ in range(rng.choice([0, 0, 1, 2])):
        if tmpl and rng.random() < 0.7:
            parts.append({"t": True, "v": rng.choice(tmpl)})
        else:
            parts.append({"t": False, "v": rng.choice(["_a", "B", "_"])})
    if rng.random() < 0.3:
        rng.shuffle(parts)
    return parts


def random_conn(rng, tmpl, n):
    kind = rng.choice(list(KINDS))
    return {"kind": kind, "parts": random_parts(rng, tmpl, n), "multiple": rng.random() < 0.5,
            "dims": [] if kind.startswith("init") else rng.choice([["instrument"], ["instrument", "detector"], ["visit"]])}


def random_decl(rng):
    classes = []
    pool = ["t1", "t2", "t3"]
    own = {}
    for k in range(rng.choice([1, 1, 2, 3])):
        bases = []
        if k and rng.random() < 0.85:
            bases = [rng.randrange(1, k + 1)]
            if k == 2 and rng.random() < 0.4:
                bases = [1, 2] if rng.random() < 0.5 else [2, 1]
                if 1 in classes[1]["bases"]:
                    bases = [2, 1]
        conns = {}
        have = sorted({n for b in bases for n in own[b]})
        tm = {t: rng.choice(["x", "yy", "z_"]) for t in pool if rng.random() < (0.7 if not bases else 0.25)}
        known = sorted(set(tm) | {t for b in bases for t in classes[b - 1]["alltm"]})
        usable = known if rng.random() < 0.93 else pool
        for j in range(rng.choice([0, 1, 2, 3])):
            if have and rng.random() < 0.4:
                n = rng.choice(have)
            else:
                n = f"c{k}{j}"
            conns[n] = random_conn(rng, usable, f"{k}{j}")
        if rng.random() < 0.03:
            conns["inputs"] = random_conn(rng, usable, "r")
        if rng.random() < 0.04 and known:
            # a template with the name of a connection, used
            t = rng.choice(known)
            conns[t] = random_conn(rng, [], "q")
            conns["useit"] = {**random_conn(rng, [], "u"), "parts": [{"t": True, "v": t}, {"t": False, "v": "zz"}]}
        order = list(conns)
        rng.shuffle(order)
        dims = {"on": rng.random() < (0.93 if not bases else 0.5), "v": rng.sample(["instrument", "visit", "detector"], rng.choice([1, 2]))}
        classes.append({"bases": bases, "conns": conns, "order": order, "dims": dims if dims["on"] else {"on": False, "v": []}, "templates": tm,
                        "alltm": known})
        own[k + 1] = set(conns) | set(have)
    # bases that both declare a connection of their own under one name: which one wins is not documented
    for c in classes:
        if len(c["bases"]) == 2:
            a, b = (classes[i - 1] for i in c["bases"])
            clash = set(a["conns"]) & (set(b["conns"]) | {n for x in b["bases"] for n in classes[x - 1]["conns"]})
            clash |= set(b["conns"]) & {n for x in a["bases"] for n in classes[x - 1]["conns"]}
            for n in clash:
                a["conns"].pop(n, None)
                a["order"] = [x for x in a["order"] if x != n]
                b["conns"].pop(n, None)
                b["order"] = [x for x in b["order"] if x != n]
    for c in classes:
        c.pop("alltm")
    names = set()

    def gather(i):
        c = classes[i - 1]
        res = set(c["conns"])
        tms = set(c["templates"])
        for b in c["bases"]:
            r, t = gather(b)
            res |= r
            tms |= t
        return res, tms

    names, tms = gather(len(classes))
    # an unused template with the name of a connection: not documented
    config = {}
    for n in sorted(names - {"inputs"} - tms):
        if rng.random() < 0.3:
            config[n] = {"isnum": False, "num": 0, "parts": random_parts(rng, sorted(tms), "o" + n)}
    for t in sorted(tms):
        if rng.random() < 0.35:
            num = rng.random() < 0.3
            config[t] = {"isnum": num, "num": rng.randrange(9), "parts": [{"t": False, "v": rng.choice(["q", "R1", ""])}]}
    edits = []
    pool = sorted(names) + ["n1", "n2"]
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        op = rng.choice(["del", "set", "set", "discard", "dim+", "dim=", "look"])
        n = rng.choice(pool)
        e = {"op": op, "n": n, "set": rng.choice(list(KINDS)), "c": random_conn(rng, [], "s" + str(rng.randrange(9)))}
        if op == "discard" and n in ("n1", "n2"):
            continue
        if op.startswith("dim"):
            e["n"] = rng.choice(["visit", "physical_filter", "detector"])
        edits.append(e)
    return {"classes": classes, "config": config, "edits": edits, "cfgchain": rng.random() < 0.5, "frozen": rng.random() < 0.5,
            "iter": rng.sample(list(KINDS), rng.choice([1, 2, 3]))}


def decl_batch(args):
    seed, n, given = args
    rng = random.Random(seed)
    plans = given if given is not None else [random_decl(rng) for _ in range(n)]
    return [{"plan": p, "obs": declare(p)} for p in plans]
