"""P26: task metadata keeps what tasks put in it."""
from .meta_common import meta_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit={emit} MaxOps={n}
INVARIANT Valid
INVARIANT Refused
INVARIANT Others
INVARIANT Found
INVARIANT Added
{view}
CHECK_DEADLOCK FALSE
"""


def run(check):
    check.model("MCTaskMeta", CFG.format(emit="FALSE", n=check.scale(3, 4), view="VIEW View"), name="histories of filling")
    plans, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCTaskMeta", CFG.format(emit="TRUE", n=check.scale(2, 3), view="")),
        lambda: [r for b in check.pmap(meta_batch, [(f"{check.seed}:p26:{k}", check.scale(150, 2500), None) for k in range(8)]) for r in b]])
    plans.sort(key=str)
    plans = check.rng.sample(plans, min(len(plans), check.scale(3300, 16000)))
    n = len(plans)
    given = [r for b in check.pmap(meta_batch, [(f"{check.seed}:p26g:{k}", 0, plans[k * n // 8:(k + 1) * n // 8]) for k in range(8)]) for r in b]
    check.judge("TaskMeta", given, kind="replayed TLC history", chunk=400)
    check.judge("TaskMeta", recs, kind="history", chunk=200)
