"""P21: the report on a campaign of several runs."""
from .qpg_common import campaign_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit={emit} Dets={dets} MaxRounds={rounds} Outcomes={{"all", "logless", "failed", "none"}}
INVARIANT Sound
PROPERTY WonkyForever
CHECK_DEADLOCK FALSE
"""


def run(check):
    if check.thorough:
        check.model("MCRunReport", CFG.format(emit="FALSE", dets='{"1", "2"}', rounds=2), name="two detectors, two rounds")
        check.model("MCRunReport", CFG.format(emit="FALSE", dets='{"1"}', rounds=4), name="one detector, four rounds")
    plans, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCRunReport", CFG.format(emit="TRUE", dets='{"1"}', rounds=3)),
        lambda: [r for b in check.pmap(campaign_batch, [(f"{check.seed}:p21:{k}", check.scale(12, 120), None) for k in range(8)]) for r in b]])
    plans.sort(key=str)
    plans = check.rng.sample(plans, min(len(plans), check.scale(48, 900)))
    for p in plans:
        if check.rng.random() < 0.4:
            order = list(range(len(p["rounds"])))
            check.rng.shuffle(order)
            p["colls"] = order[:check.rng.choice([1, 2, 3])]
    n = len(plans)
    given = [r for b in check.pmap(campaign_batch, [(f"{check.seed}:p21g:{k}", 0, plans[k * n // 8:(k + 1) * n // 8]) for k in range(8)]) for r in b]
    states = [q["status"] for r in recs + given for q in r["obs"]["quanta"]] + [d["status"] for r in recs + given for d in r["obs"]["datasets"]]
    check.notes["statuses"] = {s: states.count(s) for s in sorted(set(states))}
    check.judge("RunReport", given, kind="replayed TLC campaign", chunk=20)
    check.judge("RunReport", recs, kind="campaign", chunk=20)
