"""Shared machinery: running TLC, judging recorded traces, evidence, verdicts.

Every check has the same shape:

* ``model``       TLC explores the specification itself (design-level check).
* ``behaviours``  TLC generates behaviours; the harness replays them in the
                  real code.
* ``judge``       records observed from the real code are handed back to TLC,
                  which evaluates the specification's ``Verdict`` operator on
                  each; the verdict is the set of names of violated clauses.
"""

from __future__ import annotations

import concurrent.futures
import concurrent.futures.process
import errno
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
# Development only: another tree to check, and another place to write to.
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
OUT = Path(os.environ.get("VERIF_DEV_OUT", VERIF))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself failed (never a statement about the code)."""


class CodeError(Exception):
    """An exception that escaped from the code under test in a worker."""


def _java(heap: str, props: dict[str, str]) -> list[str]:
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-XX:ParallelGCThreads=2"]
    cmd += [f"-D{k}={v}" for k, v in props.items()]
    return cmd + ["-cp", TLA_CP, "tlc2.TLC"]


class Check:
    def __init__(self, pid: str, tier: str, seed: int, level: str = "model_checking"):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.level = level
        self.rng = random.Random(f"{pid}:{seed}")
        self.t0 = time.monotonic()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.states = 0
        self.transitions = 0
        self.models: list[dict] = []
        self.n_judged = 0
        self.kinds: dict[str, int] = {}
        self.digests: set[str] = set()
        self.samples: list = []
        self.violations: list[tuple[str, dict]] = []
        self.notes: dict = {}
        self._bg: list = []
        self._inevaluable = 0
        self._pool = concurrent.futures.ThreadPoolExecutor(max_workers=6)

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def scale(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def elapsed(self) -> float:
        return time.monotonic() - self.t0

    def tmap(self, fn, args) -> list:
        """Run jobs that mostly wait for TLC in threads."""
        with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
            return list(ex.map(fn, args))

    def pmap(self, fn, args: list, workers: int = 8) -> list:
        """Run a driver on each argument in forked processes."""
        import multiprocessing

        ctx = multiprocessing.get_context("fork")
        with concurrent.futures.ProcessPoolExecutor(max_workers=min(workers, len(args)), mp_context=ctx) as ex:
            return list(ex.map(_Guarded(fn, self.scale(330, 3000)), args))

    # ------------------------------------------------------------------ TLC
    def _write_cfg(self, d: Path, cfg: str) -> Path:
        p = d / "MC.cfg"
        p.write_text(cfg)
        return p

    def _run_tlc(self, module_text: str | None, module: str, cfg: str, *, args=(), env=None,
                 timeout: int = 600, heap: str = "3g", workers: str = "1") -> str:
        d = Path(tempfile.mkdtemp(prefix="tlc-", dir=self.scratch))
        if module_text is None:
            # wrapper with the same behaviour, so that metadata goes to scratch
            top = f"MC_{module}"
            module_text = f"---- MODULE {top} ----\nEXTENDS {module}\n====\n"
        else:
            top = re.search(r"MODULE (\w+)", module_text).group(1)
        (d / f"{top}.tla").write_text(module_text)
        self._write_cfg(d, cfg)
        cmd = _java(heap, {"TLA-Library": str(SPEC), "java.io.tmpdir": str(d)})
        cmd += ["-config", "MC.cfg", "-metadir", str(d / "meta"), "-workers", workers, "-noGenerateSpecTE",
                *args, f"{top}.tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
            out = r.stdout + r.stderr
        except subprocess.TimeoutExpired as exc:
            raise MachineryError(f"TLC timed out on {module} after {timeout}s") from exc
        finally:
            shutil.rmtree(d / "meta", ignore_errors=True)
        return out

    def model(self, module: str, cfg: str, *, name: str = "", background: bool = True, timeout: int = 700,
              args=(), workers: str = "2", heap: str = "3g", text: str | None = None):
        """Model-check a specification; failure is a machinery error since the
        specification does not depend on the code."""

        def job():
            out = self._run_tlc(text, module, cfg, timeout=timeout, args=("-lncheck", "final", *args),
                                workers=workers, heap=heap)
            if "Model checking completed. No error has been found" not in out and \
                    "Finished computing initial states" not in out and "The number of states generated" not in out:
                raise MachineryError(f"TLC failed on {module}:\n{out[-3000:]}")
            if re.search(r"^Error:", out, re.M):
                raise MachineryError(f"TLC reports an error in {module}:\n{out[-4000:]}")
            m = re.findall(r"([\d,]+) states generated(?:[^\n]*?), ([\d,]+) distinct", out)
            gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
            return {"model": name or module, "generated": gen, "distinct": dist}

        fut = self._pool.submit(job)
        self._bg.append(fut)
        if not background:
            fut.result()
        return fut

    def behaviours(self, module: str, cfg: str, *, text: str | None = None, simulate: int | None = None,
                   depth: int = 50, timeout: int = 600, env=None, limit: int | None = None) -> list:
        """Run TLC and collect the JSON values the specification prints with
        ``PrintT(<<"@@", ToJson(x)>>)``."""
        args = []
        if simulate is not None:
            args = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed + 17)]
        out = self._run_tlc(text, module, cfg, args=args, env=env, timeout=timeout,
                            workers="1" if simulate else "4")
        if re.search(r"^Error:", out, re.M):
            raise MachineryError(f"TLC reports an error generating from {module}:\n{out[-4000:]}")
        res = []
        seen = set()
        for line in out.splitlines():
            if line.startswith('<<"@@", "') and line.endswith('">>'):
                body = line[len('<<"@@", "'):-len('">>')]
                body = body.replace('\\"', '"').replace("\\\\", "\\")
                if body not in seen:
                    seen.add(body)
                    res.append(json.loads(body))
        m = re.findall(r"([\d,]+) states generated(?:[^\n]*?), ([\d,]+) distinct", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"Progress.*?([\d,]+) states checked|The number of states generated: ([\d,]+)", out)
            gen = dist = int((m[-1][0] or m[-1][1]).replace(",", "")) if m else 0
        self.models.append({"model": f"{module} (behaviour generation)", "generated": gen, "distinct": dist,
                            "behaviours": len(res)})
        self.states += dist
        self.transitions += gen
        if limit is not None and len(res) > limit:
            res = self.rng.sample(res, limit)
        if not res:
            raise MachineryError(f"TLC generated no behaviour from {module}:\n{out[-3000:]}")
        return res

    def _judge_chunk(self, module: str, op: str, records: list, timeout: int):
        d = Path(tempfile.mkdtemp(prefix="judge-", dir=self.scratch))
        vin, vout = d / "in.json", d / "out.json"
        vin.write_text(json.dumps(records))
        text = (
            f"---- MODULE JudgeTop ----\nEXTENDS {module}, Json, IOUtils\n"
            "JRecs == JsonDeserialize(IOEnv.VIN)\n"
            f"ASSUME JsonSerialize(IOEnv.VOUT, [i \\in 1..Len(JRecs) |-> [bad |-> {op}(JRecs[i])]])\n====\n"
        )
        out = self._run_tlc(text, "JudgeTop", "", env={"VIN": str(vin), "VOUT": str(vout)}, timeout=timeout)
        if not vout.exists():
            return None, out
        res = json.loads(vout.read_text())
        shutil.rmtree(d, ignore_errors=True)
        return [r["bad"] for r in res], out

    def judge(self, module: str, records: list[dict], *, op: str = "Verdict", kind: str = "",
              chunk: int = 400, timeout: int = 600) -> list[list[str]]:
        """Evaluate the specification's verdict on every record."""
        if not records:
            return []
        chunk = max(1, min(chunk, -(-len(records) // 6)))
        parts = [records[i:i + chunk] for i in range(0, len(records), chunk)]

        def run(part):
            res, out = self._judge_chunk(module, op, part, timeout)
            if res is not None:
                return res
            if "Parsing or semantic analysis failed" in out or "Unknown operator" in out:
                raise MachineryError(f"{module} does not parse:\n{out[-2500:]}")
            # The verdict could not be evaluated for some record: find which
            # (for the first few; a whole chunk is flagged after that).
            if len(part) == 1 or self._inevaluable >= 3:
                self._inevaluable += 1
                msg = [ln for ln in out.splitlines() if ln.strip()][-12:]
                return [["not-evaluable: " + " | ".join(msg)[-600:]]] + [[] for _ in part[1:]]
            mid = len(part) // 2
            return run(part[:mid]) + run(part[mid:])

        verdicts = [v for vs in self._pool.map(run, parts) for v in vs]
        for rec, bad in zip(records, verdicts, strict=True):
            self.n_judged += 1
            self.kinds[kind or op] = self.kinds.get(kind or op, 0) + 1
            self.digests.add(hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest())
            if bad:
                for clause in bad:
                    self.violation(clause, {"module": module, "op": op, "record": rec})
        if records and len(self.samples) < 6:
            self.samples.append({"kind": kind or op, "record": _shorten(records[self.rng.randrange(len(records))])})
        return verdicts

    # ------------------------------------------------------------- verdicts
    def violation(self, clause: str, data: dict) -> None:
        self.violations.append((clause, data))

    def finish(self) -> int:
        for fut in self._bg:
            info = fut.result()
            self.models.append(info)
            self.states += info["distinct"]
            self.transitions += info["generated"]
        known = _load_known(self.pid)
        new: list[tuple[str, dict]] = []
        hit: dict[str, str] = {}
        for clause, data in self.violations:
            for k in known:
                if k["clause"] == clause and (not k.get("match") or _matches(k["match"], data)):
                    hit[k["name"]] = k["what"]
                    break
            else:
                new.append((clause, data))
        for name, what in sorted(hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        coverage = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.n_judged,
            "distinct_records": len(self.digests),
            "records_by_kind": self.kinds,
            "models": self.models,
            "samples": self.samples,
            **self.notes,
        }
        if self.level != "model_checking":
            coverage["evaluations"] = self.n_judged
            coverage["distinct_nontrivial"] = len(self.digests)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(new),
        }
        (OUT / "evidence").mkdir(exist_ok=True)
        (OUT / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        rc = 0
        if new:
            rdir = OUT / "replays"
            rdir.mkdir(exist_ok=True)
            path = rdir / f"{self.pid}.json"
            path.write_text(json.dumps(
                {"property": self.pid, "seed": self.seed, "tier": self.tier,
                 "violations": [{"clause": c, **d} for c, d in new[:20]]}, indent=1, default=str))
            shown = set()
            for clause, _ in new:
                if clause not in shown and len(shown) < 8:
                    shown.add(clause)
                    print(f"  violated clause: {clause}")
            print(f"  {len(new)} violation(s) in {self.n_judged} record(s)")
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        else:
            print(f"OK property={self.pid} states={self.states} judged={self.n_judged} "
                  f"distinct={len(self.digests)} wall={self.elapsed():.1f}s")
        return rc

    def close(self) -> None:
        self._pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.scratch, ignore_errors=True)


class _Hang(BaseException):
    """The time limit of a driver ran out."""


def _alarm(signum, frame):
    raise _Hang("time limit")


def _classify(exc: BaseException) -> Exception:
    """What an exception that escaped from a driver says.

    The drivers complete on the tree they were written against, so one that
    cannot complete has met behaviour it has no record for: an exception from
    the code, or a result without the expected shape.  Only trouble of the
    machine (memory, disk, a worker that was killed) and of TLC is not held
    against the code.
    """
    if isinstance(exc, MachineryError | CodeError):
        return exc
    text = "".join(traceback.format_exception(exc))[-3500:]
    machine = isinstance(exc, MemoryError | concurrent.futures.process.BrokenProcessPool) or (
        isinstance(exc, OSError) and exc.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN))
    if machine:
        return MachineryError(text)
    if isinstance(exc, _Hang):
        tb = traceback.extract_tb(exc.__traceback__)
        if any(REPO + "/python/" in (f.filename or "") for f in tb):
            return CodeError(f"does not terminate\n{text}")
        return MachineryError(text)
    return CodeError(f"{type(exc).__name__}\n{text}")


class _Guarded:
    """Carry the traceback of a worker's exception back as text."""

    def __init__(self, fn, limit):
        self.fn = fn
        self.limit = limit

    def __call__(self, arg):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.limit)
        try:
            return self.fn(arg)
        except (Exception, _Hang) as exc:
            raise _classify(exc) from None
        finally:
            signal.alarm(0)


def _shorten(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def _load_known(pid: str) -> list[dict]:
    p = VERIF / "known-findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())["findings"] if k["property"] == pid]


def _matches(pattern, data) -> bool:
    """Sub-structure match of a known finding against a violation record."""
    if isinstance(pattern, dict):
        return isinstance(data, dict) and all(k in data and _matches(v, data[k]) for k, v in pattern.items())
    if isinstance(pattern, list):
        return isinstance(data, list) and len(pattern) == len(data) and all(map(_matches, pattern, data))
    return pattern == data


def exc_name(exc: BaseException) -> str:
    return type(exc).__name__


def run_check(pid: str, tier: str, seed: int) -> int:
    import importlib

    mod = importlib.import_module(f"harness.{pid.lower()}")
    import lsst.pipe.base

    if not os.path.realpath(lsst.pipe.base.__file__).startswith(REPO + "/"):
        raise MachineryError(f"lsst.pipe.base is not imported from {REPO}: {lsst.pipe.base.__file__}")
    check = Check(pid, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(check.scale(780, 3600))
        try:
            mod.run(check)
        except (Exception, _Hang) as exc:
            err = _classify(exc)
            if isinstance(err, MachineryError):
                raise err from None
            print(err, file=sys.stderr)
            check.violation(f"unexpected: {str(err).splitlines()[0]}", {"traceback": str(err)})
        finally:
            signal.alarm(0)
        return check.finish()
    finally:
        check.close()
