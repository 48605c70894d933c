"""P06: what the repository records about attempts."""
from __future__ import annotations

from . import sq_common as sq
from .vlib import Check


def run(c: Check) -> None:
    c.model("MCSingleQuantum", sq.MC_CFG.format(n=2), name="SingleQuantum", workers="4")
    recs, direct = sq.collect(c)
    c.judge("SingleQuantum", recs, op="HistoryVerdict", kind="attempt histories (in-memory butler, crash points)")
    c.judge("SingleQuantum", direct, op="HistoryVerdict", kind="attempt histories (full butler)")
