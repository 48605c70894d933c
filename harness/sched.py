"""One-at-a-time scheduling of the aggregator's workers, with injected faults.

Workers become threads of which exactly one runs at any time; control changes hands only at queue and event
operations, where a seeded (or prescribed) choice decides who goes next.  Timeouts are choices, too.  In the
multi-process flavour messages are pickled, may overtake messages of other senders, and are not visible at once.
"""
from __future__ import annotations

import os
import pickle
import random
import sys
import threading
import time


class Deadlock(BaseException):
    pass


class Killed(BaseException):
    pass


class Scheduler:
    def __init__(self, seed, *, processes, prescribed=(), max_steps=200_000, faults=None, latency=0.3):
        self.rng = random.Random(seed)
        self.processes = processes
        self.prescribed = list(prescribed)
        self.max_steps = max_steps
        self.steps = 0
        self.idle = 0
        self.cond = threading.Condition()
        self.actors = {}  # name -> Actor
        self.order = []
        self.current = "supervisor"
        self.failure = None
        self.faults = faults or {}
        self.latency = latency
        self.local = threading.local()
        self.local.name = "supervisor"
        self.actors["supervisor"] = Actor("supervisor")
        self.n_workers_made = 0
        self.op_count = {}
        self.queues = []

    def me(self):
        return getattr(self.local, "name", "supervisor")

    # -- switching
    def switch(self, ready=None, timed=False):
        """Give up control until chosen again; `ready` says whether this actor can proceed, `timed` whether it may
        proceed by timing out instead.  Returns False for a timeout."""
        a = self.actors[self.me()]
        with self.cond:
            a.ready, a.timed = ready, timed
            self.steps += 1
            n = self.op_count[a.name] = self.op_count.get(a.name, 0) + 1
            if self.steps > self.max_steps and self.failure is None:
                self.failure = "no-progress"
            f = self.faults
            if f.get("kind") == "sigkill" and self.steps >= f["at"]:
                os._exit(9)
            if f.get("kind") == "death" and f["who"] == a.name and n >= f["at"] and not a.dead:
                a.dead = True
                f["done"] = True
                for q in self.queues:  # what it sent last may be lost
                    sent = q.items.get(a.name)
                    if sent and self.rng.random() < 0.5:
                        del sent[self.rng.randrange(len(sent)):]
            self.pick()
            while self.current != a.name:
                self.cond.wait()
            if self.failure:
                raise Deadlock(self.failure)
            if a.dead:
                raise Killed()
            if f.get("kind") == "interrupt" and a.name == "supervisor" and n >= f["at"] and not f.get("done"):
                fr = sys._getframe()
                inside = False
                while fr is not None:
                    inside = inside or fr.f_code.co_name == "__exit__"
                    fr = fr.f_back
                if not inside:
                    f["done"] = True
                    raise KeyboardInterrupt()
            return ready is None or ready()

    def pick(self):
        live = [a for a in (self.actors[n] for n in self.order_names()) if not a.finished and not a.dead]
        good = [a for a in live if a.ready is None or a.ready()]
        timed = [a for a in live if a.timed and a not in good]
        if good:
            self.idle = 0
            pool = good
            if timed and self.rng.random() < 0.1:
                pool = timed
        elif timed:
            self.idle += 1
            if self.idle > 400:
                self.failure = "livelock"
            pool = timed
        elif any(n == "supervisor" and not a.finished for n, a in self.actors.items()):
            self.failure = "deadlock"
            pool = [self.actors["supervisor"]]
        else:
            self.current = None
            self.cond.notify_all()
            return
        if self.failure:
            pool = [self.actors["supervisor"]]
        choice = None
        while self.prescribed and choice is None:
            want = self.prescribed.pop(0)
            choice = next((a for a in pool if a.name == want), None)
            if choice is None and self.rng.random() < 0.5:
                break
        self.current = (choice or self.rng.choice(pool)).name
        self.cond.notify_all()

    def order_names(self):
        return ["supervisor", *self.order]

    # -- workers
    def start(self, target, args, name):
        self.n_workers_made += 1
        f = self.faults
        if f.get("kind") == "start" and self.n_workers_made == f["at"]:
            f["done"] = True
            raise OSError("cannot start a worker")
        a = Actor(name)
        self.actors[name] = a
        self.order.append(name)

        def run():
            self.local.name = name
            with self.cond:
                while self.current != name:
                    self.cond.wait()
            try:
                if not a.dead:
                    target(*args)
            except Killed:
                pass
            except BaseException as exc:  # the process would die with a traceback
                a.error = f"{type(exc).__name__}: {exc}"
            with self.cond:
                a.finished = True
                self.pick()

        a.thread = threading.Thread(target=run, name=name, daemon=True)
        a.thread.start()
        return SchedWorker(self, a)


class Actor:
    def __init__(self, name):
        self.name = name
        self.ready = None
        self.timed = False
        self.finished = False
        self.dead = False
        self.error = ""
        self.thread = None


class SchedWorker:
    def __init__(self, sched, actor):
        self.successful = False
        self._s, self._a = sched, actor

    @property
    def name(self):
        return self._a.name

    def is_alive(self):
        self._s.switch()
        return not (self._a.finished or self._a.dead)

    def join(self, timeout=None):
        self._s.switch(ready=lambda: self._a.finished or self._a.dead, timed=timeout is not None)

    def kill(self):
        if self._s.processes:
            self._a.dead = True


class SchedQueue:
    def __init__(self, sched):
        self._s = sched
        self.items = {}  # sender -> list of messages
        self.visible = {}  # sender -> number of visible messages
        sched.queues.append(self)

    def put(self, item):
        s = self._s
        who = s.me() if s.processes else ""
        s.switch()
        self.items.setdefault(who, []).append(pickle.dumps(item) if s.processes else item)

    def _heads(self):
        return [w for w, msgs in self.items.items() if msgs]

    def get(self, *, timeout=None, block=False):
        s = self._s
        if block:
            got = s.switch(ready=lambda: bool(self._heads()), timed=timeout is not None)
            if not got:
                return None
        else:
            s.switch()
        heads = self._heads()
        if not block and s.processes and s.rng.random() < s.latency:
            # what live senders put may not have arrived yet
            heads = [h for h in heads if s.actors[h].finished or s.actors[h].dead]
        if not heads:
            return None
        msg = self.items[s.rng.choice(heads)].pop(0)
        return pickle.loads(msg) if s.processes else msg

    def clear(self):
        self._s.switch()
        found = bool(self._heads())
        self.items.clear()
        return found

    def kill(self):
        pass


class SchedEvent:
    def __init__(self, sched):
        self._s = sched
        self._set = False

    def set(self):
        self._s.switch()
        self._set = True

    def clear(self):
        self._set = False

    def is_set(self):
        self._s.switch()
        return self._set

    isSet = is_set

    def wait(self, timeout=None):
        return self._s.switch(ready=lambda: self._set, timed=timeout is not None)


def install(sched):
    """Route the aggregator's worker factories through the scheduler."""
    import signal

    from lsst.pipe.base.quantum_graph.aggregator import _workers

    signal.signal = lambda *a, **k: None
    time.sleep = lambda *a: sched.switch()
    for cls in (_workers.ThreadWorkerFactory, _workers.SpawnWorkerFactory):
        cls.make_queue = lambda self: SchedQueue(sched)
        cls.make_event = lambda self: SchedEvent(sched)
        cls.make_worker = lambda self, target, args, name=None: sched.start(target, args, name)
