"""P25: initialising an output run writes what is missing, checks the rest, and replaces nothing."""
from .init_common import init_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit={emit} MaxOps={n}
INVARIANT Kept
INVARIANT Complete
CHECK_DEADLOCK FALSE
"""


def run(check):
    if check.thorough:
        check.model("MCInitRun", CFG.format(emit="FALSE", n=3), name="histories of three operations")
    plans, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCInitRun", CFG.format(emit="TRUE", n=2)),
        lambda: [r for b in check.pmap(init_batch, [(f"{check.seed}:p25:{k}", check.scale(16, 300), None) for k in range(8)]) for r in b]])
    plans.sort(key=str)
    plans = check.rng.sample(plans, min(len(plans), check.scale(64, 2400)))
    n = len(plans)
    given = [r for b in check.pmap(init_batch, [(f"{check.seed}:p25g:{k}", 0, plans[k * n // 8:(k + 1) * n // 8]) for k in range(8)]) for r in b]
    check.judge("InitRun", given, kind="replayed TLC history", chunk=40)
    check.judge("InitRun", recs, kind="history", chunk=40)
