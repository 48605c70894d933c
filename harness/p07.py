"""P07: rebuilding after partial runs skips, re-runs and refuses as documented."""
from .qgb_common import build_batch, summarize

CFG = """SPECIFICATION Spec
CONSTANTS MaxRounds={r} MaxRuns=2 Shape="{shape}" Emit={emit}
{inv}
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT NoDangling\nPROPERTIES NoRedo NothingLost"


def run(check):
    if check.thorough:
        for shape in ("chain", "vee"):
            check.model("MCQGHist", CFG.format(r=2, shape=shape, emit="FALSE", inv=INV), name=f"MCQGHist {shape}",
                        workers="3", timeout=800)
    given = [g for b in check.tmap(
        lambda shape: check.behaviours("MCQGHist", CFG.format(r=3, shape=shape, emit="TRUE", inv=INV),
                                       simulate=check.scale(40, 500), depth=20, limit=check.scale(40, 250)),
        ("chain", "vee")) for g in b]
    t1 = check.elapsed()
    jobs = [(f"{check.seed}:p07g:{k}", 0, "", given[k::4]) for k in range(4)]
    jobs += [(f"{check.seed}:p07:{k}", check.scale(20, 140), "history", None) for k in range(8)]
    parts = check.pmap(build_batch, jobs)
    check.notes["times"] = [t1, check.elapsed()]
    replayed = [r for b in parts[:4] for r in b]
    recs = [r for b in parts[4:] for r in b]
    summarize(check, replayed + recs)
    check.judge("QGBuild", replayed, kind="replayed TLC history", chunk=40)
    check.judge("QGBuild", recs, kind="random history", chunk=40)
