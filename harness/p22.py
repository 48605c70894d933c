"""P22: caching and blocking butlers behave as the butler they wrap."""
from .butler_common import butler_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit={emit} Len_={n} Versions={{1, 2}} OnPut={put} OnGet={get}
INVARIANT CacheIsTrue
CHECK_DEADLOCK FALSE
"""


def run(check):
    if check.thorough:
        check.model("MCButlers", CFG.format(emit="FALSE", n=5, put="TRUE", get="TRUE"), name="histories of five operations")
        check.model("MCButlers", CFG.format(emit="FALSE", n=5, put="FALSE", get="TRUE"), name="cached on get only")
        check.model("MCButlers", CFG.format(emit="FALSE", n=5, put="TRUE", get="FALSE"), name="cached on put only")
    plans, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCButlers", CFG.format(emit="TRUE", n=4, put="TRUE", get="TRUE")),
        lambda: [r for b in check.pmap(butler_batch, [(f"{check.seed}:p22:{k}", check.scale(40, 600), check.scale(30, 400), None)
                                                     for k in range(8)]) for r in b]])
    plans.sort(key=str)
    plans = check.rng.sample(plans, min(len(plans), check.scale(240, 4000)))
    n = len(plans)
    given = [r for b in check.pmap(butler_batch, [(f"{check.seed}:p22g:{k}", 0, 0, plans[k * n // 8:(k + 1) * n // 8])
                                                  for k in range(8)]) for r in b]
    check.judge("Butlers", given, kind="replayed TLC history", chunk=200)
    check.judge("Butlers", recs, kind="history", chunk=200)
