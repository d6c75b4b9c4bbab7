"""Cooperative thread scheduler.  Real threads, but only the one holding the baton runs; the baton moves
at line boundaries of the library's code (and at lock operations), as decided by a seeded policy."""
import hashlib
import threading
import zlib

from . import boot
from .world import MON, SimHang, SimInterrupt, Violation, rng_for

current = None  # the active scheduler
_sites = {}
last_trace = []  # schedule of the last run, as [task, lines] slices


class _Stop(BaseException):
    """Unwinds a task after the run has ended."""


class Task:
    def __init__(self, idx, fn, kill_at=None):
        self.idx, self.fn, self.kill_at = idx, fn, kill_at
        self.sem = boot.Real.Semaphore(0)
        self.lines = 0
        self.done = False
        self.waiting = None
        self.killed = False
        self.error = None
        self.value = None
        self.thread = None


class Scheduler:
    """policy: {"kind": "random", "p": switch probability} | {"kind": "pct", "d": change points,
    "span": lines} | {"kind": "rr", "q": lines} | {"kind": "serial"} |
    {"kind": "site", "m": classes, "r": class, "p": probability} switches only at lines of one hash class |
    {"kind": "script", "slices": [[task, lines], ...]}, the explicit schedule used for minimised replays"""

    def __init__(self, seed, policy):
        self.rng = rng_for("sched", seed)
        self.policy = policy
        self.tasks = []
        self.running = None
        self.main = boot.Real.Semaphore(0)
        self.total = 0
        self.switches = 0
        self.slice = 0
        self.hash = hashlib.sha256()
        self.stop = False
        self.ident = {}
        self.deadlock = None
        self.script = list(policy.get("slices", ()))
        self.trace = []

    def add(self, fn, kill_at=None):
        t = Task(len(self.tasks), fn, kill_at)
        self.tasks.append(t)
        return t

    # ---- policy

    def _prepare(self):
        p = self.policy
        if p["kind"] == "pct":
            self.prio = [t.idx for t in self.tasks]
            self.rng.shuffle(self.prio)
            self.changes = set(self.rng.randrange(max(1, p["span"])) for _ in range(p["d"]))
        self._next_slice()

    def _next_slice(self):
        p = self.policy
        if p["kind"] == "random":
            self.slice = int(self.rng.expovariate(p["p"])) + 1
        elif p["kind"] == "rr":
            self.slice = p["q"]
        elif p["kind"] == "script" and self.script:
            self.slice = self.script.pop(0)[1]
        else:
            self.slice = 1 << 60
        self.used = 0

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.waiting is None]

    def _pick(self, exclude=None):
        c = self._runnable()
        if not c:
            return None
        p = self.policy["kind"]
        if p == "pct":
            return min(c, key=lambda t: self.prio.index(t.idx))
        if p == "rr":
            last = self.running.idx if self.running else -1
            return min(c, key=lambda t: (t.idx - last - 1) % len(self.tasks))
        if p == "script":
            while self.script:
                for t in c:
                    if t.idx == self.script[0][0]:
                        return t
                self.script.pop(0)
            return self.running if self.running in c else c[0]
        if p == "serial":
            return c[0]
        others = [t for t in c if t is not exclude]
        return self.rng.choice(others or c)

    # ---- baton

    def _give(self, t):
        if self.running is not None:
            self.hash.update(b"%d:%d;" % (self.running.idx, self.used))
            if len(self.trace) < 20000:
                self.trace.append((self.running.idx, self.used))
        self.switches += 1
        self.running = t
        self._next_slice()
        t.sem.release()

    def _switch(self, me, to):
        if to is me:
            self._next_slice()
            return
        self._give(to)
        me.sem.acquire()
        if self.stop:
            raise _Stop()

    def yield_point(self, code, line):
        me = self.running
        if me is None or threading.get_ident() != self.ident.get(me.idx):
            return
        if self.stop:
            raise _Stop()
        me.lines += 1
        self.total += 1
        self.used += 1
        if me.kill_at is not None and me.lines > me.kill_at and line >= 0:
            me.kill_at = None
            me.killed = True
            raise SimInterrupt("simulated interrupt in thread %d" % me.idx)
        if self.policy["kind"] == "pct":
            if self.total in self.changes:
                self.prio.remove(me.idx)
                self.prio.append(me.idx)
                t = self._pick()
                if t is not me:
                    self._switch(me, t)
        elif self.policy["kind"] == "site":
            key = (code, line)
            s = _sites.get(key)
            if s is None:
                s = _sites[key] = zlib.crc32(("%s %d" % (code.co_name, line - code.co_firstlineno)).encode())
            if s % self.policy["m"] == self.policy["r"] and self.rng.random() < self.policy["p"]:
                self._switch(me, self._pick(exclude=me))
        elif self.used >= self.slice:
            t = self._pick(exclude=me)
            self._switch(me, t)

    def block(self, lock):
        me = self.running
        me.waiting = lock
        t = self._pick()
        if t is None:
            self.deadlock = "task %d and others wait for locks that nobody releases" % me.idx
            self.stop = True
            self.main.release()
            me.sem.acquire()
            raise _Stop()
        self._give(t)
        me.sem.acquire()
        if self.stop:
            raise _Stop()

    def unblock(self, lock):
        for t in self.tasks:
            if t.waiting is lock:
                t.waiting = None

    # ---- run

    def _body(self, t):
        t.sem.acquire()
        self.ident[t.idx] = threading.get_ident()
        try:
            if not self.stop:
                t.value = t.fn()
        except _Stop:
            pass
        except BaseException as e:  # noqa: B902 - reported by run()
            t.error = e
        t.done = True
        if self.stop:
            return
        if isinstance(t.error, (Violation, SimHang)):
            self.stop = True
            self.main.release()
            return
        n = self._pick()
        if n is None:
            if any(not x.done for x in self.tasks):
                self.deadlock = "remaining tasks wait for locks that nobody releases"
                self.stop = True
            self.main.release()
        else:
            self._give(n)

    def run(self):
        global current
        assert current is None
        current = self
        self._prepare()
        for t in self.tasks:
            t.thread = boot.Real.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        MON.sched = self
        try:
            self._give(self._pick())
            self.main.acquire()
        finally:
            MON.sched = None
            self.stop = True
            for t in self.tasks:
                t.sem.release()
            for t in self.tasks:
                t.thread.join(20)
            current = None
            last_trace[:] = [list(x) for x in self.trace]
        if self.deadlock:
            raise Violation("deadlock", self.deadlock)
        for t in self.tasks:
            if isinstance(t.error, Violation):
                raise t.error
            if isinstance(t.error, SimHang):
                raise Violation("hang", "threads did not finish within the step budget")
        return self.hash.hexdigest()[:16]


def rand_policy(rng, span=400):
    r = rng.random()
    if r < 0.2:
        m = rng.choice([1, 7, 30, 100])
        return {"kind": "site", "m": m, "r": rng.randrange(m), "p": rng.choice([1.0, 0.5, 0.1])}
    if r < 0.5:
        return {"kind": "random", "p": 10 ** rng.uniform(-2.3, -0.2)}
    if r < 0.85:
        return {"kind": "pct", "d": rng.choice([1, 2, 3, 5, 8]), "span": int(span * 10 ** rng.uniform(-1, 0.7)) + 2}
    if r < 0.95:
        return {"kind": "rr", "q": rng.choice([1, 2, 3, 5, 9, 20])}
    return {"kind": "serial"}


def shrink_policy(policy):
    """Simpler schedules; a seeded schedule is first turned into the explicit one that was just executed."""
    if policy["kind"] not in ("script", "serial"):
        if 0 < len(last_trace) < 6000:
            yield {"kind": "script", "slices": [list(x) for x in last_trace]}
    if policy["kind"] != "serial":
        yield {"kind": "serial"}
    if policy["kind"] != "script":
        return
    s = policy["slices"]
    size = max(1, len(s) // 2)
    while size >= 1:
        for a in range(0, len(s), size):
            rest = s[:a] + s[a + size:]
            out = []
            for t, k in rest:               # adjacent slices of one task become one
                if out and out[-1][0] == t:
                    out[-1][1] += k
                else:
                    out.append([t, k])
            yield {"kind": "script", "slices": out}
        size //= 2


class SimLock:
    """threading.Lock / RLock for code running under the scheduler."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s = current
            if s is None or s.running is None:
                raise Violation("deadlock", "a lock is acquired twice by one thread")
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if current is not None:
                current.unblock(self)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == self._me()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle 'lock' object")
