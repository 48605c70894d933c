"""P01: dependency walker."""
from __future__ import annotations

import networkx

from .vlib import Check, exc_name

BASE = "CONSTANTS N = {n}\n AnyOrder = {any}\n Gen = {gen}\n MaxLen = 99\n NEdges = {ne}\n"
INVS = "INVARIANTS PartitionInv ReadyInv BlockedInv NoStallInv\nPROPERTIES YieldOrder YieldOnce Finality\n"


def replay(edges, n, ops, multi=False, relabel=None):
    """Run a sequence of walker operations on the real class."""
    from lsst.pipe.base.graph_walker import GraphWalker

    lab = relabel or {i: i for i in range(1, n + 1)}
    inv = {v: k for k, v in lab.items()}
    g = networkx.MultiDiGraph() if multi else networkx.DiGraph()
    g.add_nodes_from(lab[i] for i in range(1, n + 1))
    for a, b in edges:
        g.add_edge(lab[a], lab[b])
        if multi:
            g.add_edge(lab[a], lab[b])
    tr = []
    w = GraphWalker(g)

    def nxt():
        try:
            got = next(w)
            tr.append({"op": "next", "stopped": False, "got": [inv.get(x, -1) for x in got]})
            return True
        except StopIteration:
            tr.append({"op": "next", "stopped": True, "got": []})
        except Exception as exc:
            tr.append({"op": "next!" + exc_name(exc), "stopped": False, "got": []})
        return False

    for op in ops:
        if op[0] == "next":
            nxt()
            continue
        err, got = "", []
        try:
            if op[0] == "finish":
                w.finish(lab[op[1]])
            else:
                got = [inv.get(x, -1) for x in w.fail(lab[op[1]])]
        except Exception as exc:
            err = exc_name(exc)
        tr.append({"op": op[0], "k": op[1], "error": err, "got": got})
    nxt()
    return {"nodes": list(range(1, n + 1)), "edges": [list(e) for e in edges], "trace": tr}


def random_run(rng, n):
    """Random walk of the protocol the executors use (finish/fail of handed-out nodes),
    with random interleaving of extra iterations and some out-of-order marks."""
    from lsst.pipe.base.graph_walker import GraphWalker

    dens = rng.random()
    edges = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if rng.random() < dens]
    names = {i: f"k{rng.random():.6f}" for i in range(1, n + 1)}
    # the sequence of operations is chosen online from the walker model below
    incomplete, active, done, yielded = set(range(1, n + 1)), set(), set(), set()
    succ = {i: {b for a, b in edges if a == i} for i in range(1, n + 1)}
    pred = {i: {a for a, b in edges if b == i} for i in range(1, n + 1)}

    def desc(k):
        out, todo = set(), [k]
        while todo:
            for m in succ[todo.pop()]:
                if m not in out:
                    out.add(m)
                    todo.append(m)
        return out

    ops = []
    wild = rng.random() < 0.3
    pfail = rng.choice([0.0, 0.1, 0.4])
    while incomplete:
        pool = sorted(incomplete if wild and rng.random() < 0.3 else active)
        if not pool or rng.random() < 0.4:
            ops.append(("next",))
            new = {x for x in incomplete - yielded if pred[x] <= done}
            active |= new
            yielded |= new
            continue
        k = rng.choice(pool)
        if rng.random() < pfail:
            ops.append(("fail", k))
            gone = {k} | desc(k)
        else:
            ops.append(("finish", k))
            done.add(k)
            gone = {k}
        incomplete -= gone
        active -= gone
    return replay(edges, n, ops, multi=rng.random() < 0.3, relabel=names)


def run(c: Check) -> None:
    c.model("MCWalker", BASE.format(n=3, any="TRUE", gen="FALSE", ne=99) + "SPECIFICATION FairSpec\n" + INVS
            + "PROPERTY Terminates\n" if False else
            BASE.format(n=c.scale(3, 4), any="TRUE", gen="FALSE", ne=99) + "SPECIFICATION Spec\n" + INVS
            + "CHECK_DEADLOCK FALSE\n", name="Walker: all DAGs, any order")
    c.model("MCWalker", BASE.format(n=c.scale(4, 5), any="FALSE", gen="FALSE", ne=99) + "SPECIFICATION Spec\n" + INVS
            + "CHECK_DEADLOCK FALSE\n", name="Walker: all DAGs, protocol order")
    gen = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    beh = c.behaviours("MCWalker", BASE.format(n=3, any="TRUE", gen="TRUE", ne=99) + gen)
    beh4 = c.behaviours("MCWalker", BASE.format(n=4, any="FALSE", gen="TRUE", ne=99) + gen)
    recs = []
    lim = c.scale(6000, 60000)
    for b in beh + (beh4 if len(beh4) <= lim else c.rng.sample(beh4, lim)):
        recs.append(replay([tuple(e) for e in b["edges"]], b["n"], b["ops"]))
    c.judge("Walker", recs, op="WalkerVerdict", kind="TLC behaviours replayed", chunk=2000)
    recs = [random_run(c.rng, c.rng.randint(4, 9)) for _ in range(c.scale(1500, 15000))]
    c.judge("Walker", recs, op="WalkerVerdict", kind="random DAGs", chunk=500)
