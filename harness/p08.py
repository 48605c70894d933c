"""P08: the quanta, inputs and outputs of a built graph follow from the data."""
from .qgb_common import build_batch, summarize


CFG = """SPECIFICATION Spec
CONSTANTS Shape="{shape}" Emit={emit} Small={small}
INVARIANTS NoDangling MinimaMet OneProducer Anchored NothingLost
CHECK_DEADLOCK FALSE
"""


def run(check):
    given = [g for b in check.tmap(
        lambda s: check.behaviours("MCQGStruct", CFG.format(shape=s, emit="TRUE", small=str(not check.thorough).upper()), limit=check.scale(60, 400)),
        ("gather", "side")) for g in b]
    jobs = [(f"{check.seed}:p08g:{k}", 0, "", given[k::8]) for k in range(8)]
    replayed = [r for b in check.pmap(build_batch, jobs) for r in b]
    check.judge("QGBuild", replayed, kind="replayed TLC scenario", chunk=40)
    recs = check.pmap(build_batch, [(f"{check.seed}:p08:{k}", check.scale(22, 150), "structure", None)
                                    for k in range(8)])
    recs = [r for b in recs for r in b]
    summarize(check, replayed + recs)
    check.judge("QGBuild", recs, kind="build", chunk=40)
