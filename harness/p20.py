"""P20: regions, sky pixels and times decide what a quantum reads and writes."""
import json

from .sky_common import sky_batch

CFG = """SPECIFICATION Spec
CONSTANTS Emit=TRUE Places={places} Switches={switches} MinIns={mins}
INVARIANT Sound
CHECK_DEADLOCK FALSE
"""


def run(check):
    quick = dict(places="{2, 32, 62}" if check.seed % 2 else "{2, 17, 82}", switches="{2, 3}", mins="{1}")
    deep = dict(places="{2, 17, 32, 62, 87, 112}", switches="{1, 2, 3}", mins="{0, 1, 2}")
    cfg = CFG.format(**(deep if check.thorough else quick))
    given, recs = check.tmap(lambda f: f(), [
        lambda: check.behaviours("MCSkyBuild", cfg, limit=check.scale(60, 500)),
        lambda: [r for b in check.pmap(sky_batch, [(f"{check.seed}:p20:{k}", check.scale(20, 150), None) for k in range(8)]) for r in b]])
    given.sort(key=lambda g: json.dumps(g["boxes"]))
    n = len(given)
    replayed = [r for b in check.pmap(sky_batch, [(f"{check.seed}:p20g:{k}", 0, given[k * n // 6:(k + 1) * n // 6]) for k in range(6)])
                for r in b]
    kinds = [r["sc"]["kind"] + "/" + (r["obs"]["errs"] or ["graph" if r["obs"]["quanta"] else "empty"])[0] for r in replayed + recs]
    check.notes["outcomes"] = {k: kinds.count(k) for k in sorted(set(kinds))}
    check.judge("SkyBuild", replayed, kind="replayed TLC sky", chunk=20)
    check.judge("SkyBuild", recs, kind="build", chunk=20)
