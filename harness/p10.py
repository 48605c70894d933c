"""P10: random access into multi-block quantum graph files."""
from __future__ import annotations

import io
import uuid
import zipfile

from . import zipfix  # noqa: F401
from .vlib import Check, exc_name

CFG = "SPECIFICATION Spec\nCONSTANTS MaxKey={k} MaxOps={o} Emitting={e}\n{inv}\nCHECK_DEADLOCK FALSE\n"


def make_file(rng, keys, base, n_cols, int_size):
    """Write blocks for the keys with the real writers; return (zip bytes, description)."""
    from lsst.pipe.base.quantum_graph._multiblock import AddressWriter, MultiblockWriter

    def uid(k):
        return uuid.UUID(int=base + k)

    content, cols, token = {}, [], 0
    buf = io.BytesIO()
    aw = AddressWriter()
    with zipfile.ZipFile(buf, "w") as zf:
        owner = {k: rng.randrange(n_cols) for k in keys}  # every key is in at least one block file
        for c in range(n_cols):
            mine = [k for k in keys if owner[k] == c or rng.random() < 0.6]
            rng.shuffle(mine)
            col = []
            with MultiblockWriter.open_in_zip(zf, f"blocks{c}", int_size, use_tempfile=rng.random() < 0.5) as mb:
                for k in mine:
                    token += 1
                    data = rng.randbytes(rng.choice([0, 1, 2, 5, 40]))
                    if data:
                        data = token.to_bytes(2) + data  # distinct contents
                    content[c, k] = (token, data)
                    mb.write_bytes(uid(k), data)
                    col.append({"k": k, "v": token})
            aw.addresses.append(mb.addresses)
            cols.append(col)
        aw.write_to_zip(zf, "table", int_size)
    return buf.getvalue(), cols, content


def replay(rng, keys, rpp, ops, base, n_cols, int_size):
    from lsst.pipe.base.quantum_graph._multiblock import AddressReader, MultiblockReader

    raw, cols, content = make_file(rng, keys, base, n_cols, int_size)
    rec = {"file": {"cols": cols}, "rpp": rpp, "base": str(base), "ops": []}
    row_size = AddressReader.compute_row_size(int_size, n_cols)
    page_size = rpp * row_size + rng.randrange(row_size) if rpp > 1 or rng.random() < 0.5 else rng.randrange(row_size)

    def token(c, k, data):
        if data is None:
            return -2
        t, want = content.get((c, k), (-3, None))
        return t if data == want else -1

    with zipfile.ZipFile(io.BytesIO(raw)) as zf:
        with AddressReader.open_in_zip(zf, "table", page_size=page_size, n_addresses=n_cols, int_size=int_size) as ar:

            def got(row):
                res = []
                for c in range(n_cols):
                    with MultiblockReader.open_in_zip(zf, f"blocks{c}", int_size=int_size) as mb:
                        res.append(token(c, row.key.int - base, mb.read_bytes(row.addresses[c])))
                return res

            for op in ops:
                e = {"op": op["op"], "error": ""}
                try:
                    if op["op"] == "find":
                        e["k"] = op["k"]
                        row = ar.find(uuid.UUID(int=base + op["k"]))
                        e.update(key=row.key.int - base, index=row.index, got=got(row))
                    elif op["op"] == "all":
                        rows = ar.read_all()
                        e["rows"] = [{"key": r.key.int - base, "index": r.index, "got": got(r)} for r in rows.values()]
                    else:
                        c = op["k"] % n_cols
                        e["c"] = c + 1
                        order = [x["k"] for x in cols[c]]
                        blocks = list(MultiblockReader.read_all_bytes_in_zip(
                            zf, f"blocks{c}", int_size=int_size, page_size=page_size))
                        e["got"] = [token(c, order[i], b) if i < len(order) else -1 for i, b in enumerate(blocks)]
                except Exception as exc:
                    e["error"] = exc_name(exc)
                rec["ops"].append(e)
    return rec


def run(c: Check) -> None:
    inv = "INVARIANT Correct\nPROPERTY Answers\n"
    c.model("MCMultiblock", CFG.format(k=c.scale(5, 7), o=2, e="FALSE", inv=inv), name="paged binary search")
    beh = c.behaviours("MCMultiblock", CFG.format(k=5, o=2, e="TRUE", inv="INVARIANT Emit"), timeout=300)
    lim = c.scale(5000, 40000)
    if len(beh) > lim:
        beh = c.rng.sample(beh, lim)
    recs = [replay(c.rng, b["keys"], b["rpp"], b["ops"], c.rng.choice([0, 2**127, 2**128 - 6, 12345]),
                   c.rng.choice([1, 1, 2]), c.rng.choice([2, 8])) for b in beh]
    c.judge("Multiblock", recs, op="MBVerdict", kind="TLC lookup histories", chunk=1000)
    recs = []
    for _ in range(c.scale(800, 8000)):
        n = c.rng.randint(0, 40)
        top = c.rng.choice([n + 2, 2 * n + 2, 10**6])
        keys = sorted(c.rng.sample(range(top), n))
        ops = []
        for _ in range(c.rng.randint(1, 12)):
            k = c.rng.choice(keys) if keys and c.rng.random() < 0.7 else c.rng.randrange(-0, top)
            if keys and c.rng.random() < 0.2:
                k = max(0, c.rng.choice(keys) + c.rng.choice([-1, 1]))
            ops.append({"op": c.rng.choices(["find", "all", "stream"], [8, 1, 1])[0], "k": k})
        recs.append(replay(c.rng, keys, c.rng.choice([1, 2, 3, 5, 8, 50]), ops, c.rng.choice([0, 2**100, 2**127 + 5]),
                           c.rng.choice([1, 2, 3, 4]), c.rng.choice([2, 4, 8])))
    c.judge("Multiblock", recs, op="MBVerdict", kind="random files", chunk=200)
