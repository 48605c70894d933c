"""Drivers for graph executors (shared by P02, P03, P04)."""
from __future__ import annotations

import logging
import multiprocessing
import multiprocessing.connection
import pickle
import sys
import threading
import time
import uuid
from contextlib import contextmanager

from lsst.pipe.base import InvalidQuantumError, RepeatableQuantumError
from lsst.pipe.base.mp_graph_executor import MPGraphExecutor
from lsst.pipe.base.quantum_graph_executor import QuantumExecutionResult, QuantumExecutor
from lsst.pipe.base.quantum_reports import QuantumReport

from .qgs import index_qg

logging.getLogger("lsst").setLevel(logging.CRITICAL + 10)
logging.raiseExceptions = False


class Repeatable(RepeatableQuantumError):
    pass


class Invalid(InvalidQuantumError):
    pass


class PlanExecutor(QuantumExecutor):
    """A quantum executor that follows a plan: quantum ID -> outcome."""

    log: list = []

    def __init__(self, plan, noreport=()):
        self.plan = plan
        self.noreport = set(noreport)

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        out = self.plan.get(quantum_id, "ok")
        PlanExecutor.log.append((quantum_id, out))
        msg = "x"
        if out.startswith("big"):
            msg, out = "x" * 300000, out[3:]
        if out == "fail":
            raise ValueError(msg)
        if out == "repeatable":
            raise Repeatable(msg)
        if out == "invalid":
            raise Invalid(msg)
        report = None
        if quantum_id not in self.noreport:
            report = QuantumReport(quantumId=quantum_id, dataId=quantum.dataId, taskLabel=task_node.label)
        return QuantumExecutionResult(quantum, report)


def key_map(qg, idx):
    g = qg.quantum_only_xgraph
    return {
        (g.nodes[q]["task_label"], tuple(sorted((k, str(v)) for k, v in dict(g.nodes[q]["data_id"].required).items()))): i
        for q, i in idx.items()
    }


def project_reports(report, keys, idx):
    res = []
    for r in report.quantaReports:
        k = keys.get((r.taskLabel, tuple(sorted((a, str(b)) for a, b in r.dataId.items()))), -1)
        if idx.get(r.quantumId) != k:
            k = -2
        res.append({"k": k, "status": r.status.value, "code": r.exitCode if r.exitCode is not None else 9999})
    return res


def finish_record(rec, ex, keys, idx, call):
    try:
        call()
        rec["result"] = "return"
    except SystemExit as exc:
        rec["result"] = f"exit:{exc.code}"
    except Hang:
        rec["result"] = "hang"
    except Exception as exc:
        rec["result"] = type(exc).__name__
    try:
        rep = ex.getReport()
        rec["reports"] = project_reports(rep, keys, idx)
        rec["status"] = rep.status.value
        rec["excinfo"] = rep.exceptionInfo is not None
    except Exception:
        rec["reports"], rec["status"], rec["excinfo"] = [], "none", True
    return rec


def base_record(qg, idx, edges, ff):
    return {"nodes": sorted(idx.values()), "edges": edges, "extra": [], "fix": [], "rev": False, "ff": ff,
            "noMp": False}


def run_in_process(qg, idx, edges, outcomes, ff, noreport=(), fixup=None, extra=None, graph=None):
    """Execute with the real in-process executor; outcomes: index -> outcome."""
    inv = {i: q for q, i in idx.items()}
    plan = {inv[i]: o for i, o in outcomes.items()}
    PlanExecutor.log = []
    ex = MPGraphExecutor(num_proc=1, timeout=1000.0, fail_fast=ff,
                         quantum_executor=PlanExecutor(plan, [inv[i] for i in noreport]),
                         execution_graph_fixup=fixup)
    rec = base_record(qg, idx, edges, ff)
    rec.update(extra or {})
    rec["noreport"] = list(noreport)
    finish_record(rec, ex, key_map(qg, idx), idx, lambda: ex.execute(graph if graph is not None else qg))
    rec["trace"] = [{"k": idx.get(q, -1), "out": o} for q, o in PlanExecutor.log]
    return rec


# ---------------------------------------------------------------------------
# Simulated processes and virtual time, substituted for the stdlib functions
# that the pool executor calls.


class Hang(BaseException):
    pass


class Sim:
    PIPE_CAPACITY = 65536

    def __init__(self, plan, idx, limit=4000.0):
        self.plan = plan
        self.idx = idx
        self.now = 0.0
        self.procs: list[FakeProcess] = []
        self.trace: list[dict] = []
        self.limit = limit

    def ms(self):
        return int(round(self.now * 1000))

    def event(self, op, proc, **kw):
        self.trace.append({"op": op, "k": self.idx.get(proc.qid, -1), "t": self.ms(), **kw})

    def advance(self, dt):
        end = self.now + max(dt, 0.0)
        while True:
            nxt = min((p for p in self.procs if p.alive and p.end is not None and p.end <= end),
                      key=lambda p: p.end, default=None)
            if nxt is None:
                break
            self.now = max(self.now, nxt.end)
            nxt.finish()
        self.now = end
        if self.now > self.limit:
            raise Hang()


class FakeConn:
    def __init__(self, sim):
        self.sim = sim
        self.buf = []
        self.peer = None
        self.proc = None

    def send(self, obj):
        data = pickle.dumps(obj)
        self.peer.buf.append(data)

    def size(self):
        return sum(map(len, self.buf))

    def poll(self, timeout=0.0):
        if not self.buf and timeout:
            self.sim.advance(timeout)
        return bool(self.buf) or (self.proc is not None and not self.proc.alive)

    def recv(self):
        guard = 0
        while not self.buf:
            if self.proc is None or not self.proc.alive:
                raise EOFError()
            self.sim.advance(0.1)
            guard += 1
        data = self.buf.pop(0)
        if self.proc is not None:
            self.proc.unblock()
        return pickle.loads(data)

    def fileno(self):
        return -1

    def close(self):
        pass

    closed = False


def _flatten(x, depth=0):
    yield x
    if depth > 5 or isinstance(x, (str, bytes, FakeConn, uuid.UUID)):
        return
    if isinstance(x, dict):
        x = list(x.values())
    elif not isinstance(x, (list, tuple)) and hasattr(x, "__dict__") and type(x).__module__.startswith("lsst.pipe.base"):
        x = list(vars(x).values())
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from _flatten(y, depth + 1)


class FakeProcess:
    def __init__(self, sim, target=None, args=(), kwargs=None, name=None, daemon=None):
        self.sim, self.target, self.args, self.kwargs = sim, target, args, kwargs or {}
        self.name = name or "p"
        self.alive = False
        self.started = False
        self.exitcode = None
        self.end = None
        self.pid = None
        self.daemon = daemon
        self.code_pending = None
        flat = list(_flatten([args, self.kwargs]))
        self.qid = next((a for a in flat if isinstance(a, uuid.UUID)), None)
        self.conns = [a for a in flat if isinstance(a, FakeConn)]
        for c in self.conns:
            c.peer.proc = self
        self.plan = sim.plan.get(self.qid, {"dur": 1.0, "kind": "ok", "on_term": "die"})
        self.told = False
        sim.procs.append(self)

    def start(self):
        self.alive = self.started = True
        self.pid = 100000 + len(self.sim.procs)
        self.end = None if self.plan["dur"] is None else self.sim.now + self.plan["dur"]
        self.sim.event("start", self)

    def is_alive(self):
        return self.alive

    def join(self, timeout=None):
        if timeout is None:
            while self.alive:
                self.sim.advance(0.1)
        else:
            self.sim.advance(timeout)

    def _run_target(self):
        try:
            self.target(*self.args, **self.kwargs)
            return 0
        except SystemExit as exc:
            return exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
        except Hang:
            raise
        except BaseException:
            return 1

    def finish(self):
        """Natural end of the process."""
        self.end = None
        if self.plan["kind"] == "segv":
            self._exit(-11, False)
            return
        if self.code_pending is None:
            self.code_pending = self._run_target()
        if any(c.peer.size() > Sim.PIPE_CAPACITY for c in self.conns):
            self.sim.event("sent", self)
            return  # blocked in send() until the parent reads
        self._exit(self.code_pending, False)

    def unblock(self):
        if self.alive and self.code_pending is not None and self.end is None:
            self._exit(self.code_pending, False)

    def _exit(self, code, bykill):
        if not self.alive:
            return
        self.alive = False
        self.exitcode = code
        how = {0: "ok", 21: "fatal"}.get(code, "killed" if code < 0 else "fail")
        self.sim.event("exit", self, how=how, code=code, bykill=bykill)

    def terminate(self):
        self.sim.event("term", self)
        if not self.alive or self.told:
            return
        self.told = True
        mode = self.plan["on_term"]
        if mode == "die":
            self._exit(-15, True)
        elif mode == "finish":  # completes normally just before the signal is handled
            self.end = self.sim.now + 0.05

    def kill(self):
        self.sim.event("kill", self)
        self._exit(-9, True)

    def close(self):
        if self.alive:
            raise ValueError("Cannot close a process while it is still running")

    @property
    def sentinel(self):
        return -1


class FakeContext:
    def __init__(self, sim):
        self.sim = sim

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        return FakeProcess(self.sim, target, args, kwargs, name, daemon)

    def Pipe(self, duplex=True):
        a, b = FakeConn(self.sim), FakeConn(self.sim)
        a.peer, b.peer = b, a
        return a, b


@contextmanager
def simulated(sim):
    """Substitute process creation, pipes and time for the main thread."""
    ctx = FakeContext(sim)
    import lsst.pipe.base.mp_graph_executor as mod

    main = threading.main_thread()
    real = {"sleep": time.sleep, "time": time.time, "monotonic": time.monotonic}

    def guard(name, fake):
        def f(*a, **k):
            if threading.current_thread() is main:
                return fake(*a, **k)
            return real[name](*a, **k)

        return f

    fakes = {
        "sleep": guard("sleep", sim.advance),
        "time": guard("time", lambda: 1.0e9 + sim.now),
        "monotonic": guard("monotonic", lambda: 1.0e6 + sim.now),
    }
    def wait(objects, timeout=None):
        ready = [o for o in objects if not isinstance(o, FakeConn) or o.poll()]
        if not ready:
            sim.advance(min(timeout, 0.1) if timeout is not None else 0.1)
        return [o for o in objects if not isinstance(o, FakeConn) or o.poll()]

    real_wait = multiprocessing.connection.wait
    saved_mp = (multiprocessing.get_context, multiprocessing.Pipe, multiprocessing.Process)
    patched = []
    try:
        for k, f in fakes.items():
            setattr(time, k, f)
        multiprocessing.get_context = lambda method=None: ctx
        multiprocessing.Pipe = ctx.Pipe
        multiprocessing.Process = ctx.Process
        multiprocessing.connection.wait = wait
        repl = {id(real["sleep"]): fakes["sleep"], id(real["time"]): fakes["time"],
                id(real["monotonic"]): fakes["monotonic"], id(saved_mp[0]): multiprocessing.get_context,
                id(saved_mp[1]): multiprocessing.Pipe,
                id(real_wait): wait}
        for k, v in list(vars(mod).items()):
            if id(v) in repl:
                patched.append((k, v))
                setattr(mod, k, repl[id(v)])
        yield
    finally:
        for k, f in real.items():
            setattr(time, k, f)
        multiprocessing.get_context, multiprocessing.Pipe, multiprocessing.Process = saved_mp
        multiprocessing.connection.wait = real_wait
        for k, v in patched:
            setattr(mod, k, v)


def run_mp_sim(qg, idx, edges, plans, ff, nproc, timeout, fixup=None, extra=None, graph=None):
    """plans: index -> {dur, kind, on_term}."""
    inv = {i: q for q, i in idx.items()}
    plan = {inv[i]: p for i, p in plans.items()}
    PlanExecutor.log = []
    ex = MPGraphExecutor(num_proc=nproc, timeout=timeout, fail_fast=ff,
                         quantum_executor=PlanExecutor({q: p["kind"] for q, p in plan.items()}),
                         execution_graph_fixup=fixup)
    sim = Sim(plan, idx)
    rec = base_record(qg, idx, edges, ff)
    rec.update(extra or {})
    rec.update({"p": nproc, "timeout": int(timeout * 1000), "slack": 1300 * (nproc + 1)})

    def call():
        with simulated(sim):
            ex.execute(graph if graph is not None else qg)

    finish_record(rec, ex, key_map(qg, idx), idx, call)
    rec["trace"] = sim.trace
    codes = {p.qid: p.exitcode for p in sim.procs if p.exitcode is not None}
    rec["codes"] = [codes.get(inv[i], 9999) for i in sorted(idx.values())]
    rec["kinds"] = [plans[i]["kind"] for i in sorted(idx.values())]
    rec["plan"] = [f"{p['kind']}/{p['dur']}/{p['on_term']}" for _, p in sorted(plans.items())]
    return rec
