"""P27: parts, copies and queries of an older-style quantum graph agree with the whole."""
from .oldqg_common import old_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit={emit} N=3 MaxOps={n}
INVARIANT Subset
INVARIANT Induced
INVARIANT Closed
INVARIANT Parts
{view}
CHECK_DEADLOCK FALSE
"""


def run(check):
    check.model("MCOldGraph", CFG.format(emit="FALSE", n=check.scale(3, 5), view="VIEW View"), name="parts of small graphs")
    plans, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCOldGraph", CFG.format(emit="TRUE", n=2, view=""), limit=check.scale(6000, 60000)),
        lambda: [r for b in check.pmap(old_batch, [(f"{check.seed}:p27:{k}", check.scale(24, 500), None) for k in range(8)]) for r in b]])
    plans.sort(key=str)
    plans = check.rng.sample(plans, min(len(plans), check.scale(160, 3000)))
    n = len(plans)
    given = [r for b in check.pmap(old_batch, [(f"{check.seed}:p27g:{k}", 0, plans[k * n // 8:(k + 1) * n // 8]) for k in range(8)]) for r in b]
    check.judge("OldGraph", given, kind="replayed TLC history", chunk=40)
    check.judge("OldGraph", recs, kind="history", chunk=40)
