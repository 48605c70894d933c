"""Driver for repeated attempts at one quantum (P05, P06)."""
from __future__ import annotations

import logging
import uuid
import warnings

from lsst.daf.butler.registry import ConflictingDefinitionError  # noqa: F401
from lsst.pipe.base import (
    AlgorithmError,
    AnnotatedPartialOutputsError,
    NoWorkFound,
    QuantumSuccessCaveats,
    TaskFactory,
    UnprocessableDataError,
    UpstreamFailureNoWorkFound,
)
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor
from lsst.pipe.base.tests.in_memory_limited_butler import InMemoryLimitedButler
from lsst.pipe.base.tests.mocks import (
    DirectButlerRepo,
    DynamicTestPipelineTask,
    DynamicTestPipelineTaskConfig,
    InMemoryRepo,
    MockDataset,
)
from lsst.pipe.base.tests.mocks._pipeline_task import DynamicTestPipelineTaskConnections

from .qgs import D

log = logging.getLogger("verif.marker")
PLAN: dict = {}


class TaskError(Exception):
    pass


class InitError(Exception):
    pass


class PartialCause(AlgorithmError):
    @property
    def metadata(self):
        return {"n": 1}


class Crash(BaseException):
    pass


class CtlConnections(DynamicTestPipelineTaskConnections, dimensions=()):
    def adjustQuantum(self, inputs, outputs, label, data_id):
        if "n" in PLAN:
            log.warning("attempt-%d", PLAN["n"])
        return super().adjustQuantum(inputs, outputs, label, data_id)


class CtlConfig(DynamicTestPipelineTaskConfig, pipelineConnections=CtlConnections):
    pass


class CtlTask(DynamicTestPipelineTask):
    """Follows PLAN: writes some outputs, then ends in the planned way."""

    ConfigClass = CtlConfig

    def __init__(self, **kwargs):
        if PLAN.get("initfail"):
            raise InitError(f"attempt {PLAN['n']}")
        super().__init__(**kwargs)

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        refs = {name: ref for name, ref in outputRefs}
        for name in PLAN["writes"]:
            ref = refs[name]
            butlerQC.put(MockDataset(dataset_id=ref.id, dataset_type=ref.datasetType.to_simple(), data_id={},
                                     run=ref.run, int_value=PLAN["n"]), ref)
        end = PLAN["ending"]
        if end == "nowork":
            raise NoWorkFound("x")
        if end == "unprocessable":
            raise UnprocessableDataError("x")
        if end == "upstream":
            raise UpstreamFailureNoWorkFound("x")
        if end == "error":
            raise TaskError(f"attempt {PLAN['n']}")
        if end == "partial":
            try:
                raise PartialCause(f"attempt {PLAN['n']}")
            except PartialCause as exc:
                raise AnnotatedPartialOutputsError.annotate(exc, self, log=self.log) from exc


class MarkFactory(TaskFactory):
    def makeTask(self, *args, **kwargs):
        log.warning("attempt-%d", PLAN["n"])
        return super().makeTask(*args, **kwargs)


class CrashButler(InMemoryLimitedButler):
    """In-memory butler whose process can die before its k-th write."""

    crash_at = 0
    ops = 0
    dead = False

    def arm(self, k):
        self.crash_at, self.ops, self.dead = k, 0, False

    def _op(self):
        if self.dead:
            raise Crash()
        self.ops += 1
        if self.crash_at and self.ops == self.crash_at:
            self.dead = True
            raise Crash()

    def put(self, obj, ref, /, *, provenance=None):
        self._op()
        return super().put(obj, ref, provenance=provenance)

    def pruneDatasets(self, refs, **kwargs):
        refs = list(refs)
        if refs:
            self._op()
        super().pruneDatasets(refs, **kwargs)

    def close(self):
        pass


def define_task(repo, outs, has_log):
    config = CtlConfig()
    config.inputs = {
        "x": D(dataset_type_name="x"),
        "y": D(dataset_type_name="y", dimensions=["detector"], multiple=True, minimum=2),
    }
    config.prerequisite_inputs = {"p": D(dataset_type_name="p")}
    config.outputs = {o: D(dataset_type_name=f"d_{o}") for o in outs}
    config.saveLogOutput = has_log
    repo.pipeline_graph.add_task("t", CtlTask, config)


class Scenario:
    """One quantum in one repository, attempted several times."""

    def __init__(self, outs, has_log, direct=False):
        self.outs, self.has_log = list(outs), has_log
        self.cm = None
        PLAN.clear()
        warnings.simplefilter("ignore")
        if direct:
            self.cm = DirectButlerRepo.make_temporary("base.yaml")
            self.repo, _ = self.cm.__enter__()
        else:
            self.repo = InMemoryRepo("base.yaml")
        define_task(self.repo, outs, has_log)
        qg = self.repo.make_quantum_graph(output_run="run1")
        qg.build_execution_quanta()
        (self.qid,) = qg.quantum_only_xgraph.nodes
        self.task_node = qg.pipeline_graph.tasks["t"]
        self.quantum = qg.quantum_only_xgraph.nodes[self.qid]["quantum"]
        self.qg = qg
        if direct:
            self.repo.butler.collections.register("run1")
            self.base_butler = self.repo.butler.clone(run="run1")
            qg.init_output_run(self.base_butler)
        self.names = {}
        for ref in self.quantum.outputs[f"t_metadata"]:
            self.names[ref.id] = "meta"
        if has_log:
            for ref in self.quantum.outputs["t_log"]:
                self.names[ref.id] = "log"
        for o in outs:
            for ref in self.quantum.outputs[f"d_{o}"]:
                self.names[ref.id] = o
        self.refs = {self.names[r.id]: r for rs in self.quantum.outputs.values() for r in rs}
        self.in_refs = {k.name: list(v) for k, v in self.quantum.inputs.items()}

    def close(self):
        if self.cm is not None:
            self.cm.__exit__(None, None, None)
        else:
            self.repo.close()

    def fresh_butler(self):
        if self.cm is not None:
            b = self.base_butler
            b.pruneDatasets([r for r, s in b.stored_many(self.refs.values()).items() if s], disassociate=True,
                            unstore=True, purge=True)
            return b
        b = CrashButler(self.repo.butler.dimensions, self.repo.butler.registry.queryDatasetTypes())
        return b

    def set_inputs(self, butler, mode, rng):
        drop = set()
        if mode == "some":
            drop = {r.id for r in rng.sample(self.in_refs["y"], rng.randint(1, 2))}
        elif mode == "few":
            drop = {r.id for r in (self.in_refs["x"] if rng.random() < 0.5
                                   else rng.sample(self.in_refs["y"], rng.randint(3, 4)))}
        elif mode == "noprereq":
            drop = {r.id for r in self.in_refs["p"]}
        for refs in self.in_refs.values():
            for ref in refs:
                have = butler.stored(ref)
                if ref.id in drop and have:
                    if self.cm is not None:
                        butler.pruneDatasets([ref], disassociate=False, unstore=True, purge=False)
                    else:
                        InMemoryLimitedButler.pruneDatasets(butler, [ref])
                elif ref.id not in drop and not have:
                    obj = MockDataset(dataset_id=ref.id, dataset_type=ref.datasetType.to_simple(),
                                      data_id=dict(ref.dataId.mapping), run=ref.run)
                    if self.cm is not None:
                        butler._datastore.put(obj, ref)
                    else:
                        InMemoryLimitedButler.put(butler, obj, ref)

    def observe(self, butler):
        stored = {self.names[r.id]: r for r, s in butler.stored_many(self.refs.values()).items() if s}
        out = {"store": [], "log": [], "caveats": [], "metaouts": [], "metaby": 0}
        get = butler.get
        for name, ref in stored.items():
            obj = get(ref)
            if name == "meta":
                q = obj["quantum"]
                if self.shared:
                    # (job metadata is fixed when the executor is made)
                    by = next((n for n, md in self.returned.items() if md == obj), -1)
                else:
                    by = obj["job"]["attempt"] if "job" in obj else -1
                fl = QuantumSuccessCaveats(q["caveats"])
                out["caveats"] = sorted(f.name for f in QuantumSuccessCaveats if f in fl and f.value)
                out["metaouts"] = sorted(self.names.get(uuid.UUID(u), "?") for u in
                                         (q.getArray("outputs") if "outputs" in q else []))
                out["metaby"] = by
            elif name == "log":
                by = self._log_by(obj)
                out["log"] = self._log_chain(obj)
            else:
                by = obj.int_value
            out["store"].append({"d": name, "by": by})
        return out

    @staticmethod
    def _markers(records):
        res = {int(r.message.rsplit("-", 1)[1]) for r in records if r.name == "verif.marker"}
        return res.pop() if len(res) == 1 else -len(res)

    def _log_by(self, records):
        return self._markers(list(records))

    def _log_chain(self, records):
        extra = records.extra or {}
        chain = []

        def entry(n, e):
            exc = e.get("exception")
            md = e.get("metadata")
            outs = []
            if md is not None:
                try:
                    q = md["metadata"]["quantum"] if "metadata" in md else md["quantum"]
                    outs = (q.get("arrays") or {}).get("outputs") or []
                except (KeyError, TypeError):
                    outs = []
            return {"n": n, "exc": exc["type_name"].rsplit(".", 1)[-1] if exc else "", "meta": md is not None,
                    "outs": sorted(self.names.get(uuid.UUID(str(u)), "?") for u in outs),
                    "procs": sum(1 if uuid.UUID(str(u)) == self.qid else 1000
                                 for u in e.get("previous_process_quanta") or [])}

        from lsst.daf.butler.logging import ButlerLogRecord

        for prev in extra.get("previous_attempts") or []:
            recs = [x if isinstance(x, ButlerLogRecord) else ButlerLogRecord.model_validate(x)
                    for x in prev.get("logs") or []]
            chain.append(entry(self._markers(recs), prev))
        chain.append(entry(self._markers(list(records)), extra))
        return chain

    def executor(self, butler, a, n, rng):
        kw = dict(skip_existing=a["skip"], clobber_outputs=a["clobber"], assume_no_existing_outputs=a["assume"],
                  raise_on_partial_outputs=a["raisepartial"], job_metadata={"attempt": n}, task_factory=MarkFactory())
        if self.cm is not None:
            if a.get("viaIn") and a["skip"]:
                kw["skip_existing"] = False
                kw["skip_existing_in"] = ["run1"]
            return SingleQuantumExecutor(butler=butler, **kw)
        elif rng.random() < 0.5:
            return SingleQuantumExecutor(limited_butler_factory=lambda q: butler, **kw)
        else:
            return SingleQuantumExecutor(butler=butler, **kw)

    def attempt(self, butler, a, n, rng, executor=None):
        """Run attempt `a` (a dict as in the specification)."""
        self.set_inputs(butler, a["inputs"], rng)
        PLAN.clear()
        PLAN.update(a, n=n)
        ex = executor or self.executor(butler, a, n, rng)
        self.shared = executor is not None
        if n == 1:
            self.returned = {}
        if self.cm is None:
            butler.arm(a["crash"])
        o = dict(a)
        try:
            res = ex.execute(self.task_node, self.quantum, quantum_id=self.qid)
            self.returned[n] = res.task_metadata
            if res.skipped_existing:
                o["result"] = "skipped"
            elif res.adjusted_no_work:
                o["result"] = "adjusted"
            else:
                o["result"] = "ok"
            if res.report is None or res.report.status.value != "success" or res.report.quantumId != self.qid:
                o["result"] += "+badreport"
            if (res.task_metadata is not None) != (o["result"] in ("ok", "adjusted")):
                o["result"] += "+badmetadata"
        except Crash:
            o["result"] = "crash"
        except Exception as exc:
            o["result"] = type(exc).__name__
        if self.cm is None:
            butler.arm(0)
        try:
            o.update(self.observe(butler))
        except Exception as exc:
            o.update({"store": [{"d": f"unreadable:{type(exc).__name__}", "by": 0}], "log": [], "caveats": [],
                      "metaouts": [], "metaby": 0})
        return o


def run_history(sc: Scenario, attempts, rng):
    butler = sc.fresh_butler()
    # sometimes one process (executor) makes all of the attempts
    ex = None
    if rng.random() < 0.25 and not any(a["crash"] for a in attempts):
        for a in attempts:
            a.update({k: attempts[0][k] for k in ("skip", "clobber", "assume", "raisepartial")})
        ex = sc.executor(butler, attempts[0], 1, rng)
    obs = [sc.attempt(butler, a, i + 1, rng, ex) for i, a in enumerate(attempts)]
    return {"outs": sc.outs, "hasLog": sc.has_log, "attempts": obs, "shared": ex is not None}


def random_attempt(rng, outs, *, crash=True):
    writes = list(outs)
    rng.shuffle(writes)
    if rng.random() < 0.5:
        writes = writes[: rng.randint(0, len(writes))]
    return {
        "skip": rng.random() < 0.5, "clobber": rng.random() < 0.6, "assume": False,
        "raisepartial": rng.random() < 0.5,
        "inputs": rng.choice(["ok"] * 5 + ["some", "few", "noprereq"]),
        "initfail": rng.random() < 0.07,
        "writes": writes,
        "ending": rng.choice(["ok"] * 4 + ["nowork", "unprocessable", "upstream", "partial", "error", "error"]),
        "crash": rng.randint(1, 6) if crash and rng.random() < 0.15 else 0,
        "viaIn": rng.random() < 0.5,
    }


GEN_CFG = ("CONSTANTS MaxAttempts = {n}\n Gen = TRUE\nINIT Init\nNEXT GenNext\nINVARIANT Emit\n"
           "CHECK_DEADLOCK FALSE\n")
MC_CFG = ("CONSTANTS MaxAttempts = {n}\n Gen = FALSE\nSPECIFICATION Spec\nINVARIANTS NoMixingInv OneAttemptInv\n"
          "PROPERTIES MetaIffSuccess SkipIsNoop HistoryGrows\nCHECK_DEADLOCK FALSE\n")


def collect(c):
    """Histories from TLC's simulator, random ones, and ones on a full butler."""
    rng = c.rng
    logging.getLogger("verif").setLevel(logging.INFO)
    logging.getLogger("lsst").setLevel(logging.CRITICAL + 10)
    logging.getLogger().setLevel(logging.WARNING)
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
    logging.getLogger().addHandler(logging.NullHandler())
    recs = []
    beh = c.behaviours("MCSingleQuantum", GEN_CFG.format(n=4), simulate=c.scale(400, 4000), depth=6,
                       limit=c.scale(400, 4000))
    for has_log in (True, False):
        sc = Scenario(["o1", "o2"], has_log)
        for b in beh:
            if b["hasLog"] == has_log:
                recs.append(run_history(sc, b["attempts"], rng))
        sc.close()
    for has_log in (True, True, False):
        outs = ["o1", "o2", "o3"]
        sc = Scenario(outs, has_log)
        for _ in range(c.scale(150, 1500)):
            recs.append(run_history(sc, [random_attempt(rng, outs) for _ in range(rng.randint(1, 6))], rng))
        # a run known to be fresh: existing outputs are not looked for
        for _ in range(c.scale(20, 100)):
            a = random_attempt(rng, outs, crash=False)
            a["assume"] = True
            recs.append(run_history(sc, [a], rng))
        sc.close()
    direct = []
    for has_log in (True, False):
        outs = ["o1", "o2"]
        sc = Scenario(outs, has_log, direct=True)
        for _ in range(c.scale(25, 200) if has_log else c.scale(5, 50)):
            direct.append(run_history(sc, [random_attempt(rng, outs, crash=False) for _ in range(rng.randint(1, 5))],
                                      rng))
        sc.close()
    return recs, direct
