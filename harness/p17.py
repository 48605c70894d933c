"""P17: selecting tasks with expressions, and questions about the structure of a pipeline."""
from __future__ import annotations

import itertools
import random
import warnings

from .vlib import Check

CFG = ("SPECIFICATION Spec\nCONSTANTS MaxLen={n}\nINVARIANTS RoundTrip Within Laws Opposite\nCHECK_DEADLOCK FALSE\n")
OPS = ["(", ")", "~", "|", "&", "<", "<=", ">", ">="]


def T(label, ins=(), outs=(), iin=(), iout=(), pre=()):
    return {"label": label, "dims": ["instrument"], "ins": list(ins), "pre": list(pre), "outs": list(outs),
            "iin": list(iin), "iout": list(iout)}


# the pipeline of MCSelect
FIXED = ([T("a", ["x"], ["y"], iout=["i"]), T("b", ["y"], ["z"]), T("c", ["x"], ["w"], iin=["i"]), T("d", ["z", "w"])],
         [("s", ["a", "c"])])
FIXED_TOKENS = [{"t": "id", "q": "", "v": "b"}, {"t": "id", "q": "D", "v": "y"}, {"t": "id", "q": "", "v": "s"},
                *({"t": "op", "q": "", "v": v} for v in ("(", ")", "~", "|", "&", "<=", ">"))]


def build(tasks, subsets, rng=None):
    from lsst.daf.butler import DimensionUniverse
    from lsst.pipe.base.pipeline_graph import PipelineGraph
    from lsst.pipe.base.tests.mocks import DynamicTestPipelineTask

    from . import pg_common as G

    # a data ID the whole pipeline is bound to
    pg = PipelineGraph(data_id={"instrument": "Cam"} if rng and rng.random() < 0.5 else None, universe=DimensionUniverse())
    tasks = list(tasks)
    if rng:
        rng.shuffle(tasks)
    for t in tasks:
        pg.add_task(t["label"], DynamicTestPipelineTask, G.make_config(t, {}))
    for label, members in subsets:
        pg.add_task_subset(label, members)
    return pg


def render(rng, tokens):
    out = ""
    last = ""
    for tok in tokens:
        text = (tok["q"] + ":" if tok["q"] else "") + tok["v"]
        # things that would run together need a separator
        sep = (last == "id" and tok["t"] == "id") or (last in ("<", ">"))
        out += " " * rng.randint(1 if sep else 0, 2) if rng.random() < 0.9 or not sep else "\t"
        if last in ("<", ">") and tok["t"] == "id" and rng.random() < 0.5:
            out = out.rstrip()
        out += text
        last = "id" if tok["t"] == "id" else tok["v"]
    return out + " " * rng.randint(0, 1)


def select(rng, pg, before, tokens, full):
    from . import pg_common as G

    text = render(rng, tokens)
    rec = {"pg": before, "tokens": tokens, "outcome": "", "tasks": [], "full": False, "graph": before, "unchanged": True}
    try:
        rec["tasks"] = sorted(pg.select_tasks(text))
    except Exception as exc:
        rec["outcome"] = type(exc).__name__
    else:
        if full:
            rec["graph"] = G.view(pg.select(text))
            rec["full"] = True
    rec["unchanged"] = not full or G.view(pg) == before
    rec["text"] = text
    return rec


def structure(rng, pg, before):
    from lsst.pipe.base.pipeline_graph import DuplicateOutputError, NodeType

    from . import pg_common as G

    def plain(x):
        return {"nodes": sorted(n.name for n in x.nodes), "edges": sorted([a.name, b.name] for a, b in x.edges)}

    def full(x):
        return {"nodes": sorted(G.PREFIX[n.node_type] + n.name for n in x.nodes),
                "edges": sorted({(G.PREFIX[a.node_type] + a.name, G.PREFIX[b.node_type] + b.name) for a, b in x.edges()})}

    def edges(init):
        res = []
        for e in pg.iter_edges(init=init):
            a, b = e.nodes
            res.append((G.PREFIX[a.node_type] + a.name, G.PREFIX[b.node_type] + b.name))
        return sorted(set(res))

    labels = list(pg.tasks)
    rec = {
        "pg": before,
        "taskgraph": plain(pg.make_task_xgraph()), "inittaskgraph": plain(pg.make_task_xgraph(init=True)),
        "dsgraph": plain(pg.make_dataset_type_xgraph()), "initdsgraph": plain(pg.make_dataset_type_xgraph(init=True)),
        "bigraph": full(pg.make_bipartite_xgraph()), "initbigraph": full(pg.make_bipartite_xgraph(init=True)),
        "independent": [
            {"tasks": sorted(g.tasks), "datasets": sorted(g.dataset_types),
             "resolved": sorted(n for n in g.dataset_types if g.dataset_types.is_resolved(n)), "sorted": g.has_been_sorted,
             "bound": "instrument" in g.data_id,
             "edges": sorted([G.PREFIX[a.node_type] + a.name, G.PREFIX[b.node_type] + b.name]
                             for a, b in {(a, b) for a, b in g.make_xgraph().edges()})}
            for g in pg.split_independent()],
        "overall": [name for name, _ in pg.iter_overall_inputs()],
        "bound": "instrument" in pg.data_id, "between": [], "io": [], "pc": [], "edges": edges(False), "initedges": edges(True), "absent": [],
    }
    for first, last in itertools.product([None, *labels], repeat=2):
        rec["between"].append({"first": first or "", "last": last or "", "got": sorted(pg.tasks.between(first, last))})
    for label in labels:
        rec["io"].append({
            "task": label, "ins": sorted(pg.inputs_of(label)), "iins": sorted(pg.inputs_of(label, init=True)),
            "outs": sorted(pg.outputs_of(label)), "iouts": sorted(pg.outputs_of(label, init=True)),
            "plain": sorted(pg.outputs_of(label, include_automatic_connections=False)),
            "iplain": sorted(pg.outputs_of(label, init=True, include_automatic_connections=False))})
    for ds in pg.dataset_types:
        entry = {"ds": ds, "error": "", "producer": [], "consumers": [], "initcons": [], "pedge": []}
        try:
            p = pg.producer_of(ds)
            e = pg.producing_edge_of(ds)
        except DuplicateOutputError:
            entry["error"] = "DuplicateOutputError"
        else:
            if p is not None:
                entry["producer"] = [("I:" if p.key.node_type is NodeType.TASK_INIT else "T:") + p.label]
            if e is not None:
                entry["pedge"] = [("I:" if e.is_init else "T:") + e.task_label]
        entry["consumers"] = sorted({("I:" if n.key.node_type is NodeType.TASK_INIT else "T:") + n.label
                                     for n in pg.consumers_of(ds)})
        entry["cedges"] = sorted({("I:" if n.is_init else "T:") + n.task_label for n in pg.consuming_edges_of(ds)})
        rec["pc"].append(entry)
    return rec


def random_pipeline(rng):
    n = rng.randint(1, 7)
    labels = rng.sample(["a", "b", "c", "g_h", "T1", "u", "v", "D", "S"], n)
    dss = [f"d{i}" for i in range(rng.randint(1, 8))]
    inits = [f"i{i}" for i in range(rng.randint(0, 3))]
    subs = rng.sample(["s", "r", "sub-1", "d0", "i0", "q"], rng.randint(0, 3))
    if rng.random() < 0.4:
        dss.append(rng.choice(labels))  # a dataset type called like a task
    owner = {}
    density = rng.choice([0.15, 0.3, 0.5])
    tasks = []
    made, imade = [], []
    unmade = [d for d in dss if rng.random() < 0.4]
    free = [d for d in dss if d not in unmade]
    ifree = [d for d in inits if rng.random() < 0.7]
    iun = [d for d in inits if d not in ifree]
    rng.shuffle(free)
    dup = rng.random() < 0.12
    for label in labels:
        outs = [free.pop() for _ in range(rng.randint(0, 2)) if free]
        iout = [ifree.pop()] if ifree and rng.random() < 0.4 else []
        ins = [d for d in [*made, *unmade] if rng.random() < density]
        iin = [d for d in [*imade, *iun] if rng.random() < density]
        if tasks and rng.random() < 0.15:
            ins.append(rng.choice(tasks)["label"] + "_metadata")
        if dup and made and rng.random() < 0.4:
            d = rng.choice(made)
            if d not in ins and d not in outs:
                outs.append(d)
        tasks.append(T(label, ins, outs, iin, iout, ["p"] if rng.random() < 0.2 else ()))
        made += outs
        imade += iout
        for d in outs:
            owner[d] = owner.get(d, 0) + 1
    subsets = [(s, rng.sample(labels, rng.randint(0, n))) for s in subs]
    # two writers of one dataset type: the order of datasets above keeps the graph acyclic only by chance
    return tasks, subsets, any(v > 1 for v in owner.values())


def random_tokens(rng, names, wild):
    def ident():
        return {"t": "id", "q": rng.choice(["", "", "", "T", "D", "S"]) if rng.random() < 0.4 else "",
                "v": rng.choice(names) if rng.random() < 0.97 else rng.choice(["nope", "T", "b_", "x-y"])}

    def op(v):
        return {"t": "op", "q": "", "v": v}

    def expr(depth):
        x = rng.random()
        if depth == 0 or x < 0.2:
            return [ident()]
        if x < 0.45:
            return [op(rng.choice(["<", "<=", ">", ">="])), ident()]
        if x < 0.57:
            return [op("~"), *expr(depth - 1)]
        if x < 0.72:
            return [op("("), *expr(depth - 1), op(")")]
        return [*expr(depth - 1), op(rng.choice("|&")), *expr(depth - 1)]

    toks = expr(rng.randint(0, 4))
    if wild:
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(toks) + 1)
            y = rng.random()
            if y < 0.4 and toks:
                del toks[min(i, len(toks) - 1)]
            elif y < 0.9:
                toks.insert(i, rng.choice([op(rng.choice(OPS)), ident()]))
            else:
                toks.insert(i, {"t": "junk", "q": "", "v": rng.choice(["@", "=", "!", "'", "*"])})
    return toks[:24]


def quiet():
    import logging

    warnings.simplefilter("ignore")
    logging.getLogger("lsst").setLevel(logging.CRITICAL + 1)


def fixed_job(args):
    seed, length, resolve = args
    quiet()
    from . import pg_common as G

    rng = random.Random(seed)
    pg = build(*FIXED)
    if resolve:
        pg.resolve()
    before = G.view(pg)
    recs = []
    for n in range(length + 1):
        for toks in itertools.product(FIXED_TOKENS, repeat=n):
            recs.append(select(rng, pg, before, list(toks), False))
    return recs


def job(args):
    seed, n = args
    quiet()
    from . import pg_common as G

    rng = random.Random(seed)
    sel, struct = [], []
    for _ in range(n):
        tasks, subsets, dup = random_pipeline(rng)
        try:
            pg = build(tasks, subsets, rng)
        except Exception as exc:
            if dup and type(exc).__name__ == "PipelineDataCycleError":
                continue
            raise
        x = rng.random()
        if x < 0.5 and not dup:
            pg.resolve()
        elif x < 0.7:
            pg.sort()
        before = G.view(pg)
        struct.append(structure(rng, pg, before))
        if dup:
            continue
        names = [*pg.tasks, *pg.task_subsets, *pg.task_subsets]
        names += rng.sample([*pg.dataset_types], min(len(names) + 2, len(pg.dataset_types)))
        for i in range(8):
            sel.append(select(rng, pg, before, random_tokens(rng, names, i == 0), rng.random() < 0.5))
    return sel, struct


def run(c: Check) -> None:
    c.model("MCSelect", CFG.format(n=c.scale(5, 6)), name="all token sequences on one pipeline")
    # one record for each sequence: the pipeline is the same in all of them
    fixed = [r for rs in c.pmap(fixed_job, [(f"{c.seed}:f", 3, False), (f"{c.seed}:g", c.scale(3, 4), True)]) for r in rs]
    c.judge("Select", fixed, op="SelectVerdict", kind="all short expressions", chunk=600)
    res = c.pmap(job, [(f"{c.seed}:{i}", c.scale(45, 700)) for i in range(16)])
    sel = [r for s, _ in res for r in s]
    kinds: dict = {}
    for r in sel:
        kinds[r["outcome"] or "ok"] = kinds.get(r["outcome"] or "ok", 0) + 1
    c.notes["outcomes"] = kinds
    c.judge("Select", sel, op="SelectVerdict", kind="expressions", chunk=300)
    c.judge("Select", [r for _, s in res for r in s], op="StructVerdict", kind="structures", chunk=60)
