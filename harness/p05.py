"""P05: repeated attempts at a quantum: skip, clobber, refuse, commit."""
from __future__ import annotations

from . import sq_common as sq
from .vlib import Check


def run(c: Check) -> None:
    c.model("MCSingleQuantum", sq.MC_CFG.format(n=c.scale(2, 3)), name="SingleQuantum", workers="4", timeout=3000)
    recs, direct = sq.collect(c)
    c.judge("SingleQuantum", recs, op="StoreVerdict", kind="attempt histories (in-memory butler, crash points)")
    c.judge("SingleQuantum", direct, op="StoreVerdict", kind="attempt histories (full butler)")
