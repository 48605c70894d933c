"""What a running task is given, and what it may read and write."""
from __future__ import annotations

import copy
import pickle
import logging
import random
import uuid

from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, NamedKeyDict, Quantum
from lsst.pipe.base import (
    NoWorkFound,
    InputQuantizedConnection,
    OutputQuantizedConnection,
    PipelineTask,
    PipelineTaskConfig,
    PipelineTaskConnections,
    QuantumContext,
    Struct,
)
from lsst.pipe.base import connectionTypes as cT
from lsst.pipe.base.connections import AdjustQuantumHelper, DeferredDatasetRef

logging.getLogger("lsst").setLevel(logging.CRITICAL)
U = DimensionUniverse()
QID = uuid.UUID(int=77)


class Broken(Exception):
    pass


class Value(dict):
    """What is read: the dataset's name, and whether it came as a handle."""

    def __init__(self, i, h):
        super().__init__(i=i, h=h)


class FakeButler:
    """Records what reaches it; the call numbered ``fail`` fails."""

    def __init__(self, names):
        self.names = names
        self.calls = []
        self.fail = 0
        self.n = 0
        self.dimensions = U

    def _call(self, c, ref, obj="", prov=()):
        self.n += 1
        ok = self.n != self.fail
        self.calls.append({"c": c, "id": self.names.get(ref.id, "?"), "val": str(obj), "prov": sorted(prov), "ok": ok})
        if not ok:
            raise Broken()
        return self.names.get(ref.id, "?")

    def get(self, ref, /, *, parameters=None, storageClass=None):
        return Value(self._call("get", ref), "v")

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        return Value(self._call("defer", ref), "h")

    def put(self, obj, ref, /, *, provenance=None):
        good = provenance is not None and provenance.quantum_id == QID
        prov = [self.names.get(r.id, "?") for r in provenance.inputs] if good else ["no provenance"]
        self._call("put", ref, obj, prov)
        return ref


class Quanta:
    """A task's connections and one quantum of it."""

    def __init__(self, rng, plan):
        self.plan = plan
        conns = plan["conns"]
        cls_ns = {}
        kinds = {"in": cT.Input, "pre": cT.PrerequisiteInput, "out": cT.Output}

        def adjust(this, inputs, outputs, label, data_id):
            a = plan["adjust"]
            if not a["on"]:
                return PipelineTaskConnections.adjustQuantum(this, inputs, outputs, label, data_id)
            self.seen = {"ins": {n: [self.name(r) for r in rs] for n, (c, rs) in inputs.items()},
                         "outs": {n: [self.name(r) for r in rs] for n, (c, rs) in outputs.items()}}
            new_in = {n: (inputs[n][0], [self.ref(i) for i in a["ins"][n]]) for n in a["ins"]}
            new_out = {n: (outputs[n][0], tuple(self.ref(i) for i in a["outs"][n])) for n in a["outs"]}
            if a["super"]:
                inputs.update(new_in)
                outputs.update(new_out)
                PipelineTaskConnections.adjustQuantum(this, inputs, outputs, label, data_id)
            return new_in, new_out

        cls = type(PipelineTaskConnections)
        ns = cls.__prepare__("C", (PipelineTaskConnections,))
        ns["__module__"] = __name__
        for n, c in conns.items():
            kw = dict(name=c["ds"], storageClass="StructuredDataDict", dimensions=("instrument", "detector"), multiple=c["multiple"])
            if c["kind"] != "out":
                kw |= dict(deferLoad=c["defer"], minimum=c["minimum"])
            ns[n] = kinds[c["kind"]](**kw)
        ns["adjustQuantum"] = adjust
        self.cls = cls("C", (PipelineTaskConnections,), ns, dimensions={"instrument"})

        class Config(PipelineTaskConfig, pipelineConnections=self.cls):
            pass

        self.config = Config()
        self.connections = self.cls(config=self.config)
        self.names = {}
        self.refs = {}
        self.types = {}
        self.seen = {}

    def name(self, ref):
        return self.names.get(getattr(ref, "id", None), "?")

    def ref(self, i):
        """"a3": dataset 3 of type a; "a3x": the same data in another run."""
        if i not in self.refs:
            ds, rest = i.rsplit(":", 1)
            t = self.types.setdefault(ds, DatasetType(ds, ("instrument", "detector"), "StructuredDataDict", universe=U))
            ref = DatasetRef(t, DataCoordinate.standardize(instrument="I", detector=int(rest.rstrip("x")), universe=U),
                             run="other" if rest.endswith("x") else "run", id=uuid.uuid4())
            self.refs[i] = ref
            self.names[ref.id] = i
        return self.refs[i]

    def run(self):
        plan = self.plan
        types = {}

        def mapping(m):
            d = NamedKeyDict()
            for ds in m:
                t = self.types.setdefault(ds, DatasetType(ds, ("instrument", "detector"), "StructuredDataDict", universe=U))
                d[t] = [self.ref(i) for i in m[ds]]
            return d

        ins, outs = mapping(plan["ins"]), mapping(plan["outs"])
        helper = AdjustQuantumHelper(inputs=ins, outputs=outs)
        data_id = DataCoordinate.standardize(instrument="I", universe=U)
        obs = {"adjust": "ok", "ins": {}, "outs": {}, "inadj": False, "outadj": False, "build": "none", "given_in": {}, "given_out": {},
               "seen": {}, "ops": []}
        try:
            helper.adjust_in_place(self.connections, "t", data_id)
        except (Exception, NoWorkFound) as exc:
            obs["adjust"] = type(exc).__name__
        obs["seen"] = self.seen
        obs["inadj"], obs["outadj"] = bool(helper.inputs_adjusted), bool(helper.outputs_adjusted)
        if obs["adjust"] != "ok":
            return obs
        obs["ins"] = {t.name: [self.name(r) for r in rs] for t, rs in helper.inputs.items()}
        obs["outs"] = {t.name: [self.name(r) for r in rs] for t, rs in helper.outputs.items()}
        quantum = Quantum(taskName="t", dataId=data_id, inputs=helper.inputs, outputs=helper.outputs)
        try:
            in_refs, out_refs = self.connections.buildDatasetRefs(quantum)
        except (Exception, NoWorkFound) as exc:
            obs["build"] = type(exc).__name__
            return obs
        obs["build"] = "ok"

        def given(q, cls):
            if not isinstance(q, cls):
                return {}
            res = {}
            for n, v in q:
                many = isinstance(v, list | tuple)
                vs = list(v) if many else [v]
                res[n] = {"many": many, "ids": [self.name(r.datasetRef) if isinstance(r, DeferredDatasetRef) else self.name(r) for r in vs],
                          "defer": sorted({isinstance(r, DeferredDatasetRef) for r in vs})}
            if set(q.keys()) != set(res) or len(q) != len(res):
                res["?"] = {"many": False, "ids": [], "defer": []}
            return res

        obs["given_in"] = given(in_refs, InputQuantizedConnection)
        obs["given_out"] = given(out_refs, OutputQuantizedConnection)
        fake = FakeButler(self.names)
        qc = QuantumContext(fake, quantum, quantum_id=QID)
        for op in plan["ops"]:
            obs["ops"].append(self.op(qc, fake, op, in_refs, out_refs))
        return obs

    def op(self, qc, fake, op, in_refs, out_refs):
        fake.calls, fake.n, fake.fail = [], 0, op["fail"]
        e = {"outcome": "ok", "got": {}, "calls": [], "put": [], "used": []}

        def token(i):
            if i["i"] == "none":
                return None
            if not i["d"]:
                return self.ref(i["i"])
            # copies of a deferred reference are as good as the original
            r = DeferredDatasetRef(self.ref(i["i"]))
            r = copy.deepcopy(r) if op["fail"] else pickle.loads(pickle.dumps(r))
            return r if r.id == self.ref(i["i"]).id and r.datasetType == self.ref(i["i"]).datasetType else None

        def conns(cls, m, source):
            q = cls()
            for n, c in m.items():
                vals = [token(i) for i in c["ids"]]
                setattr(q, n, vals if c["many"] else vals[0])
            # entries that a task removes again are gone
            q.dropped = self.ref(next(iter(self.names.values())))
            del q.dropped
            return q

        def shown(v):
            return [x if isinstance(x, Value) else Value("none", "none") for x in (v if isinstance(v, list | tuple) else [v])]

        try:
            if op["op"] == "get":
                if op["form"] == "conns":
                    got = qc.get(conns(InputQuantizedConnection, op["req"], in_refs))
                    e["got"] = {n: {"many": isinstance(v, list), "vals": shown(v)} for n, v in got.items()}
                elif op["form"] == "given":
                    got = qc.get(in_refs)
                    e["got"] = {n: {"many": isinstance(v, list), "vals": shown(v)} for n, v in got.items()}
                else:
                    r = op["req"]["x"]
                    if op["form"] == "bad":
                        arg = {"not": "allowed"}
                    elif op["form"] == "list":
                        arg = [token(i) for i in r["ids"]]
                        arg = arg if r["many"] else tuple(arg)
                    else:
                        arg = token(r["ids"][0])
                    got = qc.get(arg)
                    e["got"] = {"x": {"many": isinstance(got, list), "vals": shown(got)}}
            elif op["op"] == "put":
                vals = {n: (v["vals"] if v["many"] else v["vals"][0]) for n, v in op["vals"].items()}
                vals = {n: (None if v == "none" else v) for n, v in vals.items()}
                if op["form"] in ("conns", "given"):
                    q = out_refs if op["form"] == "given" else conns(OutputQuantizedConnection, op["req"], out_refs)
                    qc.put(vals if op["odd"] else Struct(**vals), q)
                elif op["form"] == "bad":
                    qc.put("x", {"not": "allowed"})
                elif op["form"] == "list":
                    refs = [token(i) for i in op["req"]["x"]["ids"]]
                    v = vals["x"]
                    qc.put(iter(v) if op["odd"] else v, refs if op["req"]["x"]["many"] else tuple(refs))
                else:
                    qc.put(vals["x"], token(op["req"]["x"]["ids"][0]))
            elif op["op"] == "run":
                vals = {n: (v["vals"] if v["many"] else v["vals"][0]) for n, v in op["vals"].items()}
                vals = {n: (None if v == "none" else v) for n, v in vals.items()}
                got = {}

                class Task(PipelineTask):
                    ConfigClass = type(self.config)
                    _DefaultName = "t"

                    def run(this, **kw):
                        got.update(kw)
                        return Struct(**vals)

                try:
                    Task(config=self.config).runQuantum(qc, in_refs, out_refs)
                finally:
                    e["got"] = {n: {"many": isinstance(v, list), "vals": shown(v)} for n, v in got.items()}
        except (Exception, NoWorkFound) as exc:
            e["outcome"] = type(exc).__name__
        e["calls"] = fake.calls
        e["put"] = sorted(self.names.get(x[2], "?") for x in qc.outputsPut)
        e["used"] = sorted(self.name(r) for r in qc.dataset_provenance.inputs)
        return e


def random_plan(rng):
    conns = {}
    ins, outs = {}, {}
    kinds = ["in"] * rng.choice([0, 1, 2, 2]) + ["pre"] * rng.choice([0, 0, 1]) + ["out"] * rng.choice([1, 1, 2, 3])
    for k, kind in enumerate(kinds):
        multiple = rng.random() < 0.5
        n = f"{kind}{k}"
        ds = f"{kind}_{k}"
        same = [c for c in conns.values() if c["kind"] == kind and kind != "out"]
        if same and rng.random() < 0.15:
            ds = same[0]["ds"]
        conns[n] = {"ds": ds, "kind": kind, "multiple": multiple, "defer": kind != "out" and rng.random() < 0.35,
                    "minimum": 0 if kind == "out" else rng.choice([0, 1] if kind == "pre" and not multiple else [1, 1, 2] if multiple else [1])
                    if kind != "pre" or not multiple else rng.choice([0, 1, 2])}
        m = outs if kind == "out" else ins
        if ds not in m:
            num = rng.choice([0, 1, 2, 3]) if multiple else rng.choice([0, 1, 1, 1, 1, 1, 2] if kind != "out" else [1, 1, 1, 1, 0])
            dets = rng.sample(range(5), num)
            m[ds] = [f"{ds}:{d}" for d in dets]
    outs["t_log"] = ["t_log:0"]
    outs["t_metadata"] = ["t_metadata:0"]
    plan = {"conns": conns, "ins": ins, "outs": outs, "adjust": {"on": False, "super": False, "ins": {}, "outs": {}}, "ops": []}
    if rng.random() < 0.5:
        a = plan["adjust"]
        a["on"], a["super"] = True, rng.random() < 0.6
        for n, c in conns.items():
            if rng.random() < 0.5:
                m, res = (outs, a["outs"]) if c["kind"] == "out" else (ins, a["ins"])
                have = m[c["ds"]]
                if any(conns[o]["ds"] == c["ds"] for o in res):
                    continue   # two connections of one type: what each asks for is the other's
                keep = [i for i in have if rng.random() < 0.75]
                if rng.random() < 0.3:
                    rng.shuffle(keep)
                if rng.random() < 0.08:
                    keep.append(rng.choice([have[0] + "x" if have else c["ds"] + ":9", c["ds"] + ":7"]))
                res[n] = keep
    plan["ops"] = random_ops(rng, plan)
    return plan


def ref(i, d=False):
    return {"i": i, "d": d}


def current(plan):
    """Datasets of the quantum once adjusted."""
    ins, outs = dict(plan["ins"]), dict(plan["outs"])
    for n, r in plan["adjust"]["ins"].items():
        ins[plan["conns"][n]["ds"]] = r
    for n, r in plan["adjust"]["outs"].items():
        outs[plan["conns"][n]["ds"]] = r
    return ins, outs


def random_ops(rng, plan, n=None):
    ins, outs = current(plan)
    all_in = [i for r in ins.values() for i in r]
    all_out = [i for ds, r in outs.items() for i in r if ds.split("_")[0] == "out"]
    odd = ["t_log:0", "t_metadata:0", "alien:0"] + [i + "x" for i in all_in[:1] + all_out[:1] if not i.endswith("x")]
    dropped = [i for r in list(plan["ins"].values()) + list(plan["outs"].values()) for i in r if i not in all_in + all_out]

    def pick(good, bad, k):
        res = []
        for _ in range(k):
            x = rng.random()
            if x < 0.1:
                res.append(rng.choice(bad))
            elif good:
                res.append(rng.choice(good))
        return res

    ops = []
    for _ in range(n if n is not None else rng.choice([1, 2, 3, 4])):
        kind = rng.choice(["get", "get", "put", "put", "run"])
        op = {"op": kind, "form": "given", "req": {}, "vals": {}, "odd": False, "fail": rng.choice([0, 0, 0, 0, 1, 2, 3])}
        bad = odd + dropped
        if kind == "get":
            bad = bad + all_out
            op["form"] = rng.choice(["given", "given", "conns", "list", "one", "bad"] if rng.random() < 0.5 else ["list", "one", "given"])
            star = lambda i: ref(i, rng.random() < 0.3)
            if op["form"] == "conns":
                for c in rng.sample(sorted(plan["conns"]) or ["q"], min(2, len(plan["conns"]))):
                    many = rng.random() < 0.6
                    ids = [star(i) for i in pick(all_in, bad, rng.choice([0, 1, 2, 3]) if many else 1)]
                    if not many and not ids:
                        ids = [ref("none")]
                    elif ids and rng.random() < 0.15:
                        ids[rng.randrange(len(ids))] = ref("none")
                    op["req"][c] = {"many": many, "ids": ids}
            elif op["form"] == "list":
                ids = [star(i) for i in pick(all_in, bad, rng.choice([0, 1, 2, 3]))]
                if ids and rng.random() < 0.2:
                    ids[0] = ref("none")
                op["req"]["x"] = {"many": rng.random() < 0.7, "ids": ids}
            elif op["form"] == "one":
                op["req"]["x"] = {"many": False, "ids": [star(i) for i in pick(all_in, bad, 1)] or [ref("none")]}
            else:
                op["req"]["x"] = {"many": False, "ids": []}
        elif kind == "put":
            bad = bad + all_in
            op["form"] = rng.choice(["given", "given", "list", "one", "conns", "bad"] if rng.random() < 0.5 else ["list", "one", "given"])
            if op["form"] == "conns":
                for c in rng.sample(sorted(plan["conns"]), min(2, len(plan["conns"]))):
                    many = rng.random() < 0.6
                    ids = [ref(i) for i in pick(all_out, bad, rng.choice([0, 1, 2, 3]) if many else 1)]
                    if many or ids:
                        op["req"][c] = {"many": many, "ids": ids}
            elif op["form"] == "list":
                op["req"]["x"] = {"many": rng.random() < 0.7, "ids": [ref(i) for i in pick(all_out, bad, rng.choice([0, 1, 2, 3]))]}
            elif op["form"] == "one":
                op["req"]["x"] = {"many": False, "ids": [ref(i) for i in pick(all_out, bad, 1) or ["alien:0"]]}
            if op["form"] in ("list", "one"):
                k = len(op["req"]["x"]["ids"])
                if op["form"] == "list" and rng.random() < 0.15:
                    k = max(0, k + rng.choice([-1, 1]))
                op["vals"]["x"] = {"many": op["form"] == "list", "vals": [f"w{rng.randrange(1000)}" for _ in range(k)]}
            op["odd"] = op["form"] in ("list", "conns", "given") and rng.random() < 0.1
        if op["form"] in ("given", "conns") and kind in ("put", "run"):
            src = op["req"] if op["form"] == "conns" else {
                n: {"many": c["multiple"], "ids": outs[c["ds"]] if c["multiple"] else outs[c["ds"]][:1]} for n, c in plan["conns"].items() if c["kind"] == "out"}
            for n, c in src.items():
                x = rng.random()
                if x < 0.12:
                    continue
                if x < 0.2 or (not c["many"] and not c["ids"]):
                    op["vals"][n] = {"many": False, "vals": ["none"]}
                    continue
                k = len(c["ids"])
                if c["many"] and rng.random() < 0.12:
                    k = max(0, k + rng.choice([-1, 1]))
                op["vals"][n] = {"many": c["many"], "vals": [f"w{rng.randrange(1000)}" for _ in range(k)]}
            if rng.random() < 0.2:
                op["vals"]["unrelated"] = {"many": False, "vals": ["w0"]}
        ops.append(op)
    return ops


def io_batch(args):
    seed, n, given = args
    rng = random.Random(seed)
    plans = given if given is not None else [random_plan(rng) for _ in range(n)]
    return [{"plan": p, "obs": Quanta(rng, p).run()} for p in plans]
