"""P23: a task reads and writes exactly its quantum's datasets, and the record says so."""
from .io_common import io_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit={emit} MaxOps={n}
INVARIANT OnlyItsOwn
INVARIANT RecordIsTrue
CHECK_DEADLOCK FALSE
"""


def run(check):
    if check.thorough:
        check.model("MCTaskIO", CFG.format(emit="FALSE", n=3), name="histories of three operations")
    plans, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCTaskIO", CFG.format(emit="TRUE", n=2)),
        lambda: [r for b in check.pmap(io_batch, [(f"{check.seed}:p23:{k}", check.scale(300, 6000), None) for k in range(8)]) for r in b]])
    plans.sort(key=str)
    plans = check.rng.sample(plans, min(len(plans), check.scale(800, 100000)))
    n = len(plans)
    given = [r for b in check.pmap(io_batch, [(f"{check.seed}:p23g:{k}", 0, plans[k * n // 8:(k + 1) * n // 8]) for k in range(8)]) for r in b]
    check.judge("TaskIO", given, kind="replayed TLC history", chunk=400)
    check.judge("TaskIO", recs, kind="quantum", chunk=400)
