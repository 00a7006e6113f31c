"""Deterministic scheduler: real threads, one running at a time, switched only at points
this module decides (every line or bytecode of the code under test, every simulated lock
and file-system call)."""
import _thread
import random

from . import locks, mon

_Lock = _thread.allocate_lock


class SimAbort(BaseException):
    pass


class _T:
    __slots__ = ("tid", "fn", "gate", "state", "result", "exc", "lock", "prio")

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _Lock()
        self.gate.acquire()
        self.state = "ready"  # ready, blocked, done
        self.result = self.exc = self.lock = None
        self.prio = 0


class Sched:
    """policy: {"mode": "rand", "seed", "p"} | {"mode": "pct", "seed", "depth", "steps"} |
    {"mode": "explicit", "switches": [[step, tid], ...]} | {"mode": "seq"}"""

    def __init__(self, policy, step_cap=2_000_000):
        self.policy = policy
        self.mode = policy["mode"]
        self.rng = random.Random(policy.get("seed", 0))
        self.step = 0
        self.cap = step_cap
        self.switches = []
        self.by_ident = {}
        self.cur = None
        self.aborting = None
        self.deadlock = False
        self.livelock = False
        self.points = {}
        if self.mode == "explicit":
            self.explicit = {int(s): t for s, t in policy["switches"]}
        self.main_gate = _Lock()
        self.main_gate.acquire()

    # -- decisions -------------------------------------------------------------
    def _runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def _choose(self, forced):
        """Next thread to run at this step (forced: the current one cannot go on)."""
        run = self._runnable()
        if not run:
            return None
        m = self.mode
        if m == "explicit":
            tid = self.explicit.get(self.step)
            for t in run:
                if t.tid == tid:
                    return t
            return run[0] if forced else self.cur
        if m == "seq":
            return run[0] if forced else self.cur
        if m == "rand":
            if forced or self.rng.random() < self.policy["p"]:
                return run[self.rng.randrange(len(run))]
            return self.cur
        if m == "pct":
            if self.step in self.change:
                self.low -= 1
                self.cur.prio = self.low
            return max(run, key=lambda t: t.prio)
        raise ValueError(m)

    # -- called from simulated threads -------------------------------------------
    def point(self, kind="line"):
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        if self.aborting:
            raise SimAbort()
        self.step += 1
        self.points[kind] = self.points.get(kind, 0) + 1
        if self.step > self.cap:
            self.livelock = True
            self._abort()
            raise SimAbort()
        n = self._choose(False)
        if n is not t and n is not None:
            self._switch(t, n)

    def _switch(self, t, n):
        self.switches.append([self.step, n.tid])
        self.cur = n
        n.gate.release()
        t.gate.acquire()
        if self.aborting:
            raise SimAbort()

    def block_on(self, t, lock):
        if self.aborting:
            raise SimAbort()
        t.state, t.lock = "blocked", lock
        self.step += 1
        n = self._choose(True)
        if n is None:
            self.deadlock = True
            t.state = "ready"
            self._abort()
            raise SimAbort()
        self._switch(t, n)

    def unblock(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.lock is lock:
                t.state, t.lock = "ready", None

    def _abort(self):
        self.aborting = True
        for t in self.threads:
            if t.state == "blocked":
                t.state = "ready"

    def _finish(self, t):
        t.state = "done"
        self.step += 1
        n = self._choose(True)
        if n is None:
            if any(x.state == "blocked" for x in self.threads):
                self.deadlock = True
                self._abort()
                n = self._runnable()[0]
            else:
                self.cur = None
                self.main_gate.release()
                return
        self.switches.append([self.step, n.tid])
        self.cur = n
        n.gate.release()

    def _body(self, t):
        self.by_ident[_thread.get_ident()] = t
        t.gate.acquire()
        try:
            if not self.aborting:
                t.result = t.fn()
        except SimAbort:
            t.exc = "abort"
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        finally:
            del self.by_ident[_thread.get_ident()]
            self._finish(t)

    def run(self, fns, prefixes, opcodes=False):
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        if self.mode == "pct":
            order = list(range(len(fns)))
            self.rng.shuffle(order)
            for i, t in enumerate(self.threads):
                t.prio = 10 + order[i]
            self.low = 0
            k = max(1, self.policy["steps"])
            self.change = {self.rng.randrange(1, k + 1) for _ in range(self.policy["depth"])}
        locks.current_sched = self
        mon.arm_lines(prefixes, lambda c, l: self.point(), opcodes=opcodes)
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            first = self._choose(True)
            self.switches.append([0, first.tid])
            self.cur = first
            first.gate.release()
            self.main_gate.acquire()
        finally:
            mon.disarm_lines(prefixes)
            locks.current_sched = None
        return self.threads

    def explicit_policy(self):
        return {"mode": "explicit", "switches": self.switches}
