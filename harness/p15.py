"""P15: edits of a pipeline graph."""
from __future__ import annotations

import random
import warnings

from .vlib import Check

CFG = ("SPECIFICATION MSpec\nCONSTANTS MaxLen={n} Emitting={e}\nINVARIANTS Consistent Verified Full Emit\n{view}\n"
       "CHECK_DEADLOCK FALSE\n")


def play(ops, dsdims):
    from . import pg_common as G

    ed = G.Editor(dsdims)
    recs = []
    before = G.view(ed.pg)
    for op in ops:
        outcome = ed.apply(op)
        after = G.view(ed.pg)
        shared = any(G.view(g) != v for g, v in ed.others)
        recs.append({"op": op, "before": before, "outcome": outcome, "after": after, "shared": shared})
        before = after
    return recs


def fix(op):
    """Bring an operation printed by TLC into the form the driver and the judge use."""
    for key in ("items", "labels", "members"):
        if key in op:
            op[key] = [
                {**x, **{k: sorted(x[k]) for k in ("dims", "ins", "pre", "outs", "iin", "iout")}} if isinstance(x, dict)
                else x for x in op[key]]
    if "dims" in op:
        op["dims"] = sorted(op["dims"])
    return op


def random_task(rng, label, dss, inits, labels):
    def pick(p, xs):
        return sorted(x for x in xs if rng.random() < p)

    outs = pick(0.2, dss)
    ins = [d for d in pick(0.25, dss) if d not in outs or rng.random() < 0.15]
    if rng.random() < 0.15:
        ins.append(rng.choice(labels) + "_metadata")
    iout = pick(0.15, inits)
    return {"label": label, "dims": rng.choice([[], ["instrument"], ["instrument", "detector"]]), "ins": ins,
            "pre": pick(0.1, ["p1", "p2", *([rng.choice(dss)] if rng.random() < 0.1 else [])]),
            "outs": outs, "iin": [d for d in pick(0.2, inits) if d not in iout], "iout": iout}


def random_ops(rng):
    labels = [f"t{i}" for i in range(rng.randint(2, 6))]
    dss = [f"d{i}" for i in range(rng.randint(2, 9))]
    inits = [f"i{i}" for i in range(rng.randint(0, 3))]
    subs = ["s1", "s2", "s3"]
    known: dict = {}
    ops = []

    def task(label):
        # prefer an order of dataset types so that acyclic graphs get large
        t = random_task(rng, label, dss, inits, labels)
        if rng.random() < 0.75 and t["outs"]:
            top = max(t["outs"])
            t["ins"] = [d for d in t["ins"] if d > top or "_" in d]
        return t

    for _ in range(rng.randint(6, 30)):
        k = rng.choices(["add", "remove", "reconf", "addsub", "delsub", "subadd", "subdel", "stepadd", "stepdel", "steps",
                         "resolve", "sort", "copy", "roundtrip", "partition", "shard"],
                        [9, 2, 4, 3, 1, 2, 1, 1, 0.7, 1, 6, 2, 1.5, 2, 2, 1.5])[0]
        if k == "partition":
            # a random division of the known tasks into steps, in label order or not
            ls = sorted(known) if rng.random() < 0.7 else rng.sample(sorted(known), len(known))
            n = rng.randint(1, 3)
            cuts = sorted(rng.randint(0, len(ls)) for _ in range(n - 1))
            parts = [ls[a:b] for a, b in zip([0, *cuts], [*cuts, len(ls)])]
            for s, p in zip(subs, parts):
                ops.append({"op": "addsub", "label": s, "members": sorted(p)})
            ops.append({"op": "steps", "labels": subs[:n]})
            if rng.random() < 0.5:
                # the largest sharding dimensions that should work, or one more
                for s, p in zip(subs, parts):
                    sizes = [len(known[x]["dims"]) for x in p] + [int(d[1:]) % 3 for x in p for d in known[x]["outs"]]
                    size = min(sizes, default=2) + (rng.random() < 0.1)
                    ops.append({"op": "shard", "label": s, "dims": sorted(["instrument", "detector"][:min(size, 2)])})
            ops.append({"op": "resolve"})
            continue
        if k == "add":
            free = [x for x in labels if x not in known] or labels
            n = rng.choice([1, 1, 1, 2, 3])
            chosen = rng.sample(free, min(n, len(free))) if rng.random() < 0.93 else [rng.choice(labels)]
            items = [task(x) for x in chosen]
            for t in items:
                known[t["label"]] = t
            op = {"op": "add", "items": items, "direct": rng.random() < 0.6}
        elif k == "remove":
            op = {"op": "remove", "labels": sorted({rng.choice(labels) for _ in range(rng.choice([1, 1, 2]))}),
                  "drop": rng.random() < 0.7}
            if rng.random() < 0.15:
                op["labels"].append(op["labels"][0])  # naming a task twice means the same as naming it once
            for x in op["labels"]:
                known.pop(x, None)
        elif k == "reconf":
            items = []
            for x in sorted({rng.choice(sorted(known) or labels) for _ in range(rng.choice([1, 1, 2]))}):
                items.append(known[x] if x in known and rng.random() < 0.3 else task(x))
            op = {"op": "reconf", "items": items, "check": rng.random() < 0.25}
        elif k == "addsub":
            op = {"op": "addsub", "label": rng.choice(subs),
                  "members": sorted({rng.choice(sorted(known) or labels) if rng.random() < 0.95 else rng.choice(labels)
                                     for _ in range(rng.randint(0, 3))})}
        elif k in ("delsub", "stepadd", "stepdel", "shard"):
            op = {"op": k, "label": rng.choice(subs)}
            if k in ("stepadd", "shard"):
                op["dims"] = rng.choice([[], [], ["instrument"], ["detector", "instrument"]])
        elif k in ("subadd", "subdel"):
            op = {"op": k, "label": rng.choice(subs), "task": rng.choice(labels)}
        elif k == "steps":
            op = {"op": "steps", "labels": rng.choice([[], ["s1"], ["s1", "s2"], ["s2", "s1"], ["s1", "s2", "s3"]])}
        elif k == "roundtrip":
            op = {"op": "roundtrip", "mode": rng.choice(["require", "assume", "override"])}
        else:
            op = {"op": k}
        ops.append(op)
    return ops


DSDIMS = {f"d{i}": [[], ["instrument"], ["instrument", "detector"]][i % 3] for i in range(12)}
DSDIMS |= {x: [] for x in ("p1", "p2", "x", "y", "z", "w", "v", "p")}


def job(args):
    seed, hists, n = args
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    recs = []
    for h in hists:
        recs += play([fix(op) for op in h], DSDIMS)
    for _ in range(n):
        recs += play(random_ops(rng), DSDIMS)
    return recs


def run(c: Check) -> None:
    c.model("MCPGraph", CFG.format(n=c.scale(3, 4), e="FALSE", view="VIEW MView"), name="all short edit sequences",
            workers="2")
    hist = c.behaviours("MCPGraph", CFG.format(n=14, e="TRUE", view=""), simulate=c.scale(30, 300), depth=15,
                        limit=c.scale(160, 3000))
    jobs = []
    per = -(-len(hist) // 16)
    for i in range(16):
        jobs.append((f"{c.seed}:{i}", hist[i * per:(i + 1) * per], c.scale(10, 150)))
    recs = [r for rs in c.pmap(job, jobs) for r in rs]
    kinds: dict = {}
    for r in recs:
        key = f"{r['op']['op']}:{r['outcome'] or 'ok'}"
        kinds[key] = kinds.get(key, 0) + 1
    c.notes["operations"] = kinds
    c.judge("PGraph", recs, op="PGVerdict", kind="graph edits", chunk=300)
