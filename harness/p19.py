"""P19: the configuration that results from a pipeline definition."""
from __future__ import annotations

from .p18 import CFG, records
from .vlib import Check


def run(c: Check) -> None:
    c.model("MCPipelines", CFG.format(n=c.scale(1, 2)), name="all short histories of small pipelines")
    c.judge("Pipelines", records(c, c.scale(90, 600), 7), op="ConfVerdict", kind="configurations", chunk=60)
