"""P24: a task's connections are exactly what its class and configuration declare."""
from .decl_common import decl_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit={emit} MaxEdits={n}
INVARIANT OneKind
CHECK_DEADLOCK FALSE
"""


def run(check):
    if check.thorough:
        check.model("MCDecls", CFG.format(emit="FALSE", n=5), name="five edits")
    plans, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCDecls", CFG.format(emit="TRUE", n=3)),
        lambda: [r for b in check.pmap(decl_batch, [(f"{check.seed}:p24:{k}", check.scale(300, 6000), None) for k in range(8)]) for r in b]])
    plans.sort(key=str)
    plans = check.rng.sample(plans, min(len(plans), check.scale(800, 100000)))
    n = len(plans)
    given = [r for b in check.pmap(decl_batch, [(f"{check.seed}:p24g:{k}", 0, plans[k * n // 8:(k + 1) * n // 8]) for k in range(8)]) for r in b]
    check.judge("Decls", given, kind="replayed TLC script", chunk=400)
    check.judge("Decls", recs, kind="declaration", chunk=400)
