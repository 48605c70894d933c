"""Pipeline definitions: documents as data, their files, and what the code makes of them."""
from __future__ import annotations

import copy
import os
import tempfile

import yaml

MOD = "harness.pipetasks."
FIELDS = ["a", "b", "c", "s", "sub.x", "connections.inp", "connections.out"]
TEXTS = ["foo", "a-b", "x/y", "two words", "-foo", "calexp", "x:y", "*", "~q", "it's"]
LABELS = ["a", "b", "ab", "ba", "t1", "xt1", "t"]


# ---------------------------------------------------------------- generation
def assignment(rng, params, python, conns=False):
    x = rng.random()
    k = rng.choice(["a", "b", "c", "sub.x"])
    if conns:
        n = rng.randint(0, 5)
        if rng.random() < 0.5:
            return {"k": "connections.out", "kind": "set", "v": f"d{n}"}
        return {"k": "connections.inp", "kind": "set", "v": f"d{n}"}
    if x < 0.12 and not python:
        return {"k": "s", "kind": "set", "v": rng.choice(TEXTS)}
    if x < 0.35 and python:
        return {"k": k, "kind": "copy", "v": rng.choice(["a", "b", "c", "sub.x"])}
    if x < 0.5 and params:
        return {"k": k, "kind": "par", "v": rng.choice(params)}
    return {"k": k, "kind": "set", "v": str(rng.randint(-2, 5))}


def block(rng, params):
    b = {"files": [], "python": [], "rest": []}
    if rng.random() < 0.3:
        b["files"] = [[assignment(rng, params, True) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.3:
        b["python"] = [assignment(rng, params, True) for _ in range(rng.randint(1, 3))]
    seen = set()
    for _ in range(rng.randint(0, 3)):
        a = assignment(rng, params, False)
        if a["k"] not in seen:
            seen.add(a["k"])
            b["rest"].append(a)
    return b


def contract(rng, cid, labels):
    lab = rng.choice(labels)
    f = rng.choice(["a", "b", "c", "sub.x"])
    c = {"id": cid, "refs": [lab], "l": lab, "f": f, "neq": rng.random() < 0.6, "rl": "", "rf": "", "c": str(rng.randint(0, 3))}
    if rng.random() < 0.4:
        c["rl"], c["rf"] = rng.choice(labels), rng.choice(["a", "b", "c", "sub.x"])
        c["refs"] = sorted({lab, c["rl"]})
    c["form"] = rng.randrange(4)
    return c


def contract_text(c):
    left = f"{c['l']}.{c['f']}"
    right = f"{c['rl']}.{c['rf']}" if c["rl"] else c["c"]
    op = "!=" if c["neq"] else "=="
    return {0: f"{left} {op} {right}", 1: f"({right} {op} {left})", 2: f"not (({left}) {'==' if c['neq'] else '!='} {right})",
            3: f"(\n  {left}\n  {op} {right})"}[c["form"]]


def document(rng, i, ndocs, chained):
    """Document i; it may import the later ones."""
    labels = rng.sample(LABELS, rng.randint(0 if i + 1 < ndocs else 1, 4))
    d = {"tasks": [], "subsets": [], "steps": [], "contracts": [], "params": [], "imports": [],
         "instr": rng.choice(["", "", "", "X", "Y"])}
    for j in range(rng.choice([0, 0, 1, 2])):
        d["params"].append({"k": f"p{rng.choice([i, i, j + i])}", "v": str(rng.randint(10, 19))})
    d["params"] = list({p["k"]: p for p in d["params"]}.values())
    params = [p["k"] for p in d["params"]]
    for label in labels:
        blocks = [block(rng, params) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if chained or rng.random() < 0.3:
            # data flows from lower numbers to higher ones
            n = rng.randint(0, 4)
            blocks.insert(0, {"files": [], "python": [], "rest": [
                {"k": "connections.inp", "kind": "set", "v": f"d{n}"},
                {"k": "connections.out", "kind": "set", "v": f"d{n + rng.randint(1, 2)}"}]})
        d["tasks"].append({"label": label, "klass": rng.choice("AAB"), "blocks": blocks})
    names = rng.sample(["s", "r", "q", "b", "sub_1"], rng.choice([0, 1, 1, 2]))
    for s in names:
        pool = labels if rng.random() < 0.9 else LABELS
        if s in labels and rng.random() < 0.95:
            continue
        members = rng.sample(pool, rng.randint(0, len(pool))) if pool else []
        d["subsets"].append({"label": s, "members": sorted(members), "desc": rng.choice(["", "about " + s])})
    for s in d["subsets"]:
        if rng.random() < 0.5:
            d["steps"].append({"label": s["label"], "dims": rng.choice([[], ["instrument"]])})
    if d["steps"] and rng.random() < 0.04:
        d["steps"].append(rng.choice([{"label": "nowhere", "dims": []}, dict(d["steps"][0])]))
    if labels:
        for j in range(rng.choice([0, 0, 1, 2])):
            d["contracts"].append(contract(rng, f"c{i}_{j}", labels))
    return d


def add_imports(rng, docs, i):
    d = docs[i]
    later = list(range(i + 1, len(docs)))
    rng.shuffle(later)
    for j in later[:rng.choice([0, 1, 1, 2])] if later else []:
        src = docs[j]
        im = {"doc": j + 1, "include": [], "hasinc": False, "exclude": [], "hasexc": False, "rename": [],
              "contracts": rng.random() < 0.8, "steps": rng.random() < 0.8, "mode": rng.choice(["DROP", "DROP", "EDIT"]),
              "instr": rng.choice(["keep"] * 5 + ["None", "X"])}
        known = sorted({*reach(docs, j)})
        x = rng.random()
        if x < 0.35 and known:
            im["include"], im["hasinc"] = rng.sample(known, rng.randint(1, len(known))), True
        elif x < 0.6:
            im["exclude"], im["hasexc"] = rng.sample(known, rng.randint(0, len(known))), True
            if im["exclude"] and rng.random() < 0.05:
                im["include"], im["hasinc"] = list(im["exclude"]), True
        mentioned = {l for k in range(j, len(docs)) for c in docs[k]["contracts"] for l in c["refs"]}
        for label in known:
            if rng.random() < 0.2 and (label not in mentioned or not im["contracts"]) and label not in {
                    s["label"] for k in docs for s in k["subsets"]}:
                im["rename"].append({"old": label, "new": label + "_n" if rng.random() < 0.9 else rng.choice(LABELS)})
        if len({r["old"] for r in im["rename"]} & {r["new"] for r in im["rename"]}) and rng.random() < 0.7:
            im["rename"] = []
        d["imports"].append(im)


def reach(docs, j):
    out = {t["label"] for t in docs[j]["tasks"]} | {s["label"] for s in docs[j]["subsets"]}
    for im in docs[j]["imports"]:
        out |= reach(docs, im["doc"] - 1)
    return out


def random_docs(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    chained = rng.random() < 0.4
    docs = [document(rng, i, n, chained) for i in range(n)]
    for i in reversed(range(n)):
        add_imports(rng, docs, i)
    # labels declared by different documents have to be different, mostly
    if rng.random() < 0.75:
        for i in range(n):
            ims = docs[i]["imports"]
            if len(ims) == 2 and reach(docs, ims[0]["doc"] - 1) & reach(docs, ims[1]["doc"] - 1):
                ims.pop()
    return docs


# -------------------------------------------------------------------- files
def pyvalue(a):
    if a["kind"] == "copy":
        return "config." + a["v"]
    if a["kind"] == "par":
        return "parameters." + a["v"]
    return a["v"] if a["k"] not in ("s", "connections.inp", "connections.out") else repr(a["v"])


def yamlvalue(rng, a):
    if a["kind"] == "par":
        return "parameters." + a["v"]
    if a["k"] in ("s", "connections.inp", "connections.out") or rng.random() < 0.3:
        return a["v"]
    return int(a["v"])


class Files:
    """Writes documents (and the files they name) into a directory."""

    def __init__(self, rng, root):
        self.rng = rng
        self.root = root
        self.n = 0

    def config_file(self, asg):
        self.n += 1
        path = os.path.join(self.root, f"conf{self.n}.py")
        with open(path, "w") as f:
            f.write("".join(f"config.{a['k']} = {pyvalue(a)}\n" for a in asg))
        if self.rng.random() < 0.3:
            return path.replace(self.root, "$VERIF_PL_ROOT")
        return path

    def task(self, t):
        rng = self.rng
        cls = MOD + t["klass"]
        if not t["blocks"]:
            return cls if rng.random() < 0.5 else {"class": cls}
        blocks = []
        for b in t["blocks"]:
            y = {}
            if b["files"]:
                names = [self.config_file(f) for f in b["files"]]
                y["file"] = names if len(names) > 1 or rng.random() < 0.5 else names[0]
            if b["python"]:
                y["python"] = "".join(f"config.{a['k']} = {pyvalue(a)}\n" for a in b["python"])
            for a in b["rest"]:
                y[a["k"]] = yamlvalue(rng, a)
            blocks.append(y)
        return {"class": cls, "config": blocks if len(blocks) > 1 or rng.random() < 0.5 else blocks[0]}

    def doc(self, docs, i):
        rng = self.rng
        d = docs[i]
        y = {"description": f"document {i}"}
        if d["imports"]:
            ims = []
            for im in d["imports"]:
                m = {"location": os.path.join(self.root if rng.random() < 0.7 else "$VERIF_PL_ROOT", f"doc{im['doc']}.yaml")}
                for key in ("include", "exclude"):
                    if im["has" + key[:3]]:
                        m[key] = im[key] if len(im[key]) != 1 or rng.random() < 0.5 else im[key][0]
                if im["rename"]:
                    m["rename"] = {r["old"]: r["new"] for r in im["rename"]}
                if not im["contracts"] or rng.random() < 0.2:
                    m["importContracts"] = im["contracts"]
                if not im["steps"] or rng.random() < 0.2:
                    m["importSteps"] = im["steps"]
                if im["mode"] != "DROP" or rng.random() < 0.2:
                    m["labeledSubsetModifyMode"] = im["mode"]
                if im["instr"] != "keep":
                    m["instrument"] = None if im["instr"] == "None" and rng.random() < 0.5 else (
                        "None" if im["instr"] == "None" else MOD + im["instr"])
                ims.append(m if len(m) > 1 or rng.random() < 0.5 else m["location"])
            y["imports"] = ims if len(ims) > 1 or rng.random() < 0.6 else ims[0]
        if d["instr"]:
            y["instrument"] = MOD + d["instr"]
        if d["params"]:
            y["parameters"] = {p["k"]: int(p["v"]) for p in d["params"]}
        if d["tasks"] or not d["imports"]:
            y["tasks"] = {t["label"]: self.task(t) for t in d["tasks"]}
        if d["contracts"]:
            y["contracts"] = [{"contract": contract_text(c), "msg": c["id"]} for c in d["contracts"]]
        if d["subsets"]:
            y["subsets"] = {
                s["label"]: {"subset": s["members"], "description": s["desc"]} if s["desc"] else
                ({"subset": s["members"]} if rng.random() < 0.5 else s["members"]) for s in d["subsets"]}
        if d["steps"]:
            y["steps"] = [{"label": s["label"], "dimensions": s["dims"]} for s in d["steps"]]
        path = os.path.join(self.root, f"doc{i + 1}.yaml")
        with open(path, "w") as f:
            yaml.safe_dump(y, f, sort_keys=False)
        return path


# -------------------------------------------------------------------- views
def errors(exc):
    return [c.__name__ for c in type(exc).__mro__ if c is not object]


def short(name):
    return name.removeprefix(MOD) if name else ""


def values(config):
    out = []
    for f in FIELDS:
        x = config
        for part in f.split("."):
            x = getattr(x, part)
        out.append({"k": f, "v": str(x)})
    return out


def view(p):
    from lsst.pipe.base import Pipeline
    from lsst.pipe.base.pipelineIR import ContractError, PipelineIR

    try:
        ir = PipelineIR.from_string(str(p))
    except Exception as exc:
        return {**EMPTY, "labels": list(p.task_labels), "instr": "unreadable: " + str(exc)[:200]}
    v = {"labels": list(p.task_labels), "instr": short(p.getInstrument()), "graph": "",
         "contracts": [c.msg for c in ir.contracts], "params": [{"k": k, "v": str(x)} for k, x in ir.parameters.mapping.items()],
         "subsets": [{"label": s, "members": sorted(m), "desc": ir.labeled_subsets[s].description or ""
                      if s in ir.labeled_subsets else "?"} for s, m in p.subsets.items()],
         "steps": [{"label": s.label, "dims": sorted(s.dimensions)} for s in ir.steps],
         "gtasks": [], "gsubsets": [], "gsteps": [], "tasks": []}
    try:
        g = p.to_graph()
    except ContractError:
        v["graph"] = "ContractError"
    except Exception as exc:
        v["graph"] = type(exc).__name__
    else:
        from .pg_common import step_dims

        v["gtasks"] = [[t, short(n.task_class_name)] for t, n in g.tasks.items()]
        v["gsubsets"] = [{"label": s, "members": sorted(m), "desc": m.description} for s, m in g.task_subsets.items()]
        v["gsteps"] = step_dims(g)
        # the steps as the pipeline knows them
        v["steps"] = v["gsteps"]
    # the configuration, whatever the contracts and steps say
    plain = copy.deepcopy(ir)
    plain.contracts = []
    plain.steps = []
    try:
        h = Pipeline.fromIR(plain).to_graph()
    except Exception as exc:
        v["graph"] = v["graph"] or type(exc).__name__
        v["tasks"] = [{"label": t, "klass": short(k.klass), "values": []} for t, k in ir.tasks.items()]
    else:
        v["tasks"] = [{"label": t, "klass": short(n.task_class_name), "values": values(n.config)} for t, n in h.tasks.items()]
    return v


EMPTY = {"labels": [], "instr": "", "graph": "", "contracts": [], "params": [], "subsets": [], "steps": [], "gtasks": [],
         "gsubsets": [], "gsteps": [], "tasks": []}


# --------------------------------------------------------------- operations
def random_op(rng, docs, p, cids):
    """An operation on real pipeline p."""
    labels = sorted(p.task_labels)
    subs = sorted(p.subsets)
    anyl = labels + subs
    k = rng.choices(["sub", "range", "merge", "addtask", "rmtask", "config", "addsub", "rmsub", "subadd", "subdel", "instr",
                     "copy", "roundtrip"], [4, 2, 3, 1, 1, 6, 2, 1, 1.5, 1, 1, 1, 2])[0]
    if k == "sub":
        ls = rng.sample(anyl, rng.randint(1, len(anyl))) if anyl else ["nope"]
        if rng.random() < 0.06:
            ls.append("nope")
        return {"op": k, "labels": sorted(ls), "mode": rng.choice(["DROP", "EDIT"])}
    if k == "range":
        return {"op": k, "first": rng.choice(["", *labels, *(["nope"] if rng.random() < 0.1 else [])]),
                "last": rng.choice(["", *labels]), "mode": rng.choice(["DROP", "EDIT"])}
    if k == "merge":
        return {"op": k, "doc": rng.randint(1, len(docs))}
    if k == "addtask":
        label = rng.choice([x for x in LABELS if x not in subs] or ["w"])
        return {"op": k, "label": label, "klass": rng.choice("AB")}
    if k == "rmtask":
        inuse = {x for m in p.subsets.values() for x in m}
        ok = [x for x in labels if x not in inuse and x not in cids]
        return {"op": k, "label": rng.choice(ok) if ok and rng.random() < 0.9 else "nope"}
    if k == "config":
        how = rng.choice(["value", "value", "file", "python"])
        label = rng.choice(labels) if labels and rng.random() < 0.85 else rng.choice(["nope", "parameters"])
        asg = [assignment(rng, [], how != "value") for _ in range(1 if how == "value" else rng.randint(1, 2))]
        if label == "parameters":
            asg = [{"k": f"p{rng.randint(0, 3)}", "kind": "set", "v": str(rng.randint(20, 29))}]
        return {"op": k, "label": label, "how": how, "asg": asg}
    if k == "addsub":
        return {"op": k, "label": rng.choice(["s", "r", "q", "new", *labels[:1]]), "desc": rng.choice(["", "text"]),
                "members": sorted({*rng.sample(labels, rng.randint(0, len(labels))), *(["nope"] if rng.random() < 0.1 else [])})}
    if k == "rmsub":
        steps = {s["label"] for s in view_steps(p)}
        ok = [s for s in subs if s not in steps]
        return {"op": k, "label": rng.choice(ok) if ok and rng.random() < 0.8 else "nope"}
    if k in ("subadd", "subdel"):
        s = rng.choice(subs) if subs and rng.random() < 0.9 else "nope"
        pool = labels if k == "subadd" or s == "nope" else sorted(p.subsets[s])
        return {"op": k, "label": s, "task": rng.choice(pool) if pool and rng.random() < 0.9 else "nope"}
    if k == "instr":
        return {"op": k, "instr": rng.choice("XY")}
    return {"op": k}


def view_steps(p):
    from lsst.pipe.base.pipelineIR import PipelineIR

    try:
        return [{"label": s.label} for s in PipelineIR.from_string(str(p)).steps]
    except ValueError:
        return []


class Player:
    def __init__(self, rng, docs, root):
        self.rng = rng
        self.docs = docs
        self.root = root
        self.files = Files(rng, root)
        self.paths = [self.files.doc(docs, i) for i in range(len(docs))]
        self.others: list = []
        self.count = 0

    def load(self, i, fragment=""):
        from lsst.pipe.base import Pipeline

        return Pipeline.from_uri(self.paths[i] + fragment) if self.rng.random() < 0.7 or fragment else \
            Pipeline.fromFile(self.paths[i])

    def remember(self, p):
        self.others.append((p, view(p)))

    def apply(self, p, o):
        """Returns the pipeline after the operation; whatever else exists is remembered."""
        from lsst.pipe.base import LabelSpecifier, Pipeline

        rng = self.rng
        k = o["op"]
        mode = getattr(Pipeline.PipelineSubsetCtrl, o["mode"]) if "mode" in o else None
        if k in ("sub", "range"):
            spec = LabelSpecifier(labels=set(o["labels"])) if k == "sub" else \
                LabelSpecifier(begin=o["first"] or None, end=o["last"] or None)
            keep = copy.deepcopy(spec)
            if o["mode"] == "DROP" and rng.random() < 0.3 and not (k == "range" and not (o["first"] or o["last"])):
                # the same, asked for in the name of a file
                path = os.path.join(self.root, "tmp.yaml")
                p.write_to_uri(path)
                q = Pipeline.from_uri(path + "#" + (",".join(o["labels"]) if k == "sub" else f"{o['first']}..{o['last']}"))
            else:
                self.remember(p)
                q = p.subsetFromLabels(spec, mode)
                if spec != keep:
                    self.changed = True
            return q
        if k == "merge":
            try:
                other = self.load(o["doc"] - 1)
            except ValueError:
                raise Skip() from None
            self.remember(other)
            p.mergePipeline(other)
            return p
        if k == "addtask":
            from . import pipetasks

            p.addTask(getattr(pipetasks, o["klass"]) if rng.random() < 0.5 else MOD + o["klass"], o["label"])
        elif k == "rmtask":
            p.removeTask(o["label"])
        elif k == "config":
            if o["how"] == "value":
                a = o["asg"][0]
                p.addConfigOverride(o["label"], a["k"], int(a["v"]) if o["label"] == "parameters" else yamlvalue(rng, a))
            elif o["how"] == "file":
                p.addConfigFile(o["label"], self.files.config_file(o["asg"]) if o["label"] != "parameters" else "x.py")
            else:
                p.addConfigPython(o["label"], "".join(f"config.{a['k']} = {pyvalue(a)}\n" for a in o["asg"]))
        elif k == "addsub":
            members = set(o["members"])
            p.addLabeledSubset(o["label"], o["desc"], members)
            members.add("intruder")
        elif k == "rmsub":
            p.removeLabeledSubset(o["label"])
        elif k == "subadd":
            p.addLabelToSubset(o["label"], o["task"])
        elif k == "subdel":
            p.removeLabelFromSubset(o["label"], o["task"])
        elif k == "instr":
            from . import pipetasks

            p.addInstrument(getattr(pipetasks, o["instr"]) if rng.random() < 0.5 else MOD + o["instr"])
        elif k == "copy":
            self.remember(p)
            return Pipeline.fromPipeline(p)
        elif k == "roundtrip":
            if rng.random() < 0.5:
                return Pipeline.fromString(str(p))
            self.count += 1
            path = os.path.join(self.root, f"saved{self.count}.yaml")
            p.write_to_uri(path)
            return Pipeline.from_uri(path)
        return p

    def run(self, nops):
        rec = {"docs": self.docs, "root": 1, "ops": [], "hist": [], "shared": False,
               "loaded": {"outcome": [], "view": EMPTY}}
        self.changed = False
        try:
            p = self.load(0)
        except Exception as exc:
            rec["loaded"]["outcome"] = errors(exc)
            return rec
        rec["loaded"]["view"] = view(p)
        mentioned = {x for d in self.docs for c in d["contracts"] for x in c["refs"]}
        for _ in range(nops):
            o = random_op(self.rng, self.docs, p, mentioned)
            h = {"outcome": [], "view": EMPTY}
            before = p
            try:
                p = self.apply(p, o)
            except Skip:
                continue
            except Exception as exc:
                h["outcome"] = errors(exc)
                # the pipeline itself goes on being edited
                self.others = [x for x in self.others if x[0] is not before]
                if not isinstance(exc, ValueError | LookupError):
                    rec["ops"].append(o)
                    rec["hist"].append(h)
                    break
                # nothing must have changed
                rec["ops"].append(o)
                rec["hist"].append(h)
                o = {"op": "look"}
                h = {"outcome": [], "view": EMPTY}
            h["view"] = view(p)
            rec["ops"].append(o)
            rec["hist"].append(h)
        rec["shared"] = self.changed or any(view(q) != v for q, v in self.others)
        return rec


class Skip(Exception):
    pass


def play(rng, nops):
    docs = random_docs(rng)
    with tempfile.TemporaryDirectory(prefix="verif-pl-") as root:
        os.environ["VERIF_PL_ROOT"] = root
        return Player(rng, docs, root).run(nops)
