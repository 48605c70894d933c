"""Run the pool executor with real child processes and print records."""
from __future__ import annotations

import json
import os
import random
import signal
import sys
import tempfile
import time

from .exec_common import PlanExecutor, base_record, finish_record, key_map
from .qgs import index_qg, random_qg


class FileExecutor(PlanExecutor):
    """Follows a plan in a child process and logs starts/ends to files."""

    def __init__(self, plan, root):
        super().__init__(plan)
        self.root = root

    def _note(self, op, qid):
        with open(os.path.join(self.root, f"{op}-{qid}"), "w") as f:
            f.write(repr(time.time()))

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        self._note("start", quantum_id)
        out = self.plan.get(quantum_id, "ok")
        if out == "segv":
            self._note("end", quantum_id)
            os.kill(os.getpid(), signal.SIGKILL)
        if out == "sleep":
            time.sleep(1000)
        try:
            return super().execute(task_node, quantum, quantum_id, log_records=log_records)
        finally:
            self._note("end", quantum_id)


def main() -> None:
    from lsst.pipe.base.mp_graph_executor import MPGraphExecutor

    seed, tier = int(sys.argv[1]), sys.argv[2]
    rng = random.Random(f"mpreal{seed}")
    for s in range(2 if tier == "quick" else 12):
        while True:
            qg = random_qg(rng, rng.randint(2, 3), p_edge=0.6)
            idx, edges = index_qg(qg)
            if 3 <= len(idx) <= 6:
                break
        inv = {i: q for q, i in idx.items()}
        kinds = {i: rng.choice(["ok", "ok", "bigfail", "segv", "fail"]) for i in inv}
        timeout = 60.0
        if s % 4 == 0:
            kinds[min(i for i in inv if i not in {b for _, b in edges})] = "bigfail"
            timeout = 40.0
        if s % 4 == 1:
            timeout = 20.0
            kinds[rng.choice(list(inv))] = "sleep"
        with tempfile.TemporaryDirectory() as root:
            ex = MPGraphExecutor(num_proc=3, timeout=timeout, start_method="spawn",
                                 quantum_executor=FileExecutor({inv[i]: k for i, k in kinds.items()}, root))
            rec = base_record(qg, idx, edges, False)
            rec.update({"p": 3, "timeout": int(timeout * 1000) - 500, "slack": 20000})
            t0 = time.time()
            finish_record(rec, ex, key_map(qg, idx), idx, lambda: ex.execute(qg))
            ev = []
            codes = {"ok": 0, "segv": -9, "fail": 1, "bigfail": 1, "sleep": -15}
            hows = {"ok": "ok", "segv": "killed", "fail": "fail", "bigfail": "fail", "sleep": "killed"}
            rec["codes"] = [codes[kinds[i]] for i in sorted(inv)]
            for name in os.listdir(root):
                op, qid = name.split("-", 1)
                (i,) = [i for q, i in idx.items() if str(q) == qid]
                t = float(open(os.path.join(root, name)).read()) - t0
                if op == "start":
                    ev.append((t, {"op": "start", "k": i}))
                    if kinds[i] == "sleep":
                        ev.append((t + timeout + 0.01, {"op": "term", "k": i}))
                        ev.append((t + timeout + 0.02, {"op": "exit", "k": i, "how": "killed", "code": -15,
                                                        "bykill": True}))
                else:
                    ev.append((t, {"op": "exit", "k": i, "how": hows[kinds[i]], "code": codes[kinds[i]],
                                   "bykill": False}))
            rec["trace"] = [{**e, "t": int(t * 1000)} for t, e in sorted(ev, key=lambda x: x[0])]
            # wall-clock stamps are taken inside the child: the pool bound is
            # judged on simulated processes only
            rec["p"] = 99
            rec["kinds"] = rec["plan"] = [kinds[i] for i in sorted(inv)]
        print("@@@ " + json.dumps(rec), flush=True)


if __name__ == "__main__":
    main()
