"""The simulated world: clock, entropy, fault injection, step budget, event log."""
import collections
import copy
import ctypes
import gc
import hashlib
import random
import sys
import threading
import types

import numpy as np

from . import boot

mon = sys.monitoring
TOOL = 4
M64 = (1 << 64) - 1


class Violation(Exception):
    """A property does not hold in this run."""
    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class SimInterrupt(KeyboardInterrupt):
    """The user's Ctrl-C at a simulated instant."""


class SimHang(BaseException):
    """The step budget of an operation is used up."""


class SimAllocError(MemoryError):
    """A failing allocation."""


class SimUserError(RuntimeError):
    """An error raised by a user-supplied gate function."""


# ---------------------------------------------------------------- randomness

def rng_for(*parts):
    """A harness PRNG that is a pure function of its arguments."""
    return random.Random(hashlib.sha256(repr(parts).encode()).digest())


def splitmix(state):
    state = (state + 0x9E3779B97F4A7C15) & M64
    z = state
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return state, z ^ (z >> 31)


_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _BitGen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("u64", _U64), ("u32", _U32),
                ("dbl", _DBL), ("raw", _U64)]


class HostileBits:
    """A numpy bit generator driven by the harness.  A fraction of the draws is replaced by values at
    the two ends of the range or by a repetition of the previous draw."""

    def __init__(self):
        self.lock = boot.Real.Lock()
        self.s = 0
        self.draws = 0
        self.extreme = 0
        self.last = 0
        self.p = (0, 0, 0)

        def u64(_):
            return self.next()

        def u32(_):
            return self.next() >> 32

        def dbl(_):
            return (self.next() >> 11) * (1.0 / 9007199254740992.0)
        self._cb = (_U64(u64), _U32(u32), _DBL(dbl), _U64(u64))
        self._bg = _BitGen(None, *self._cb)
        new = ctypes.pythonapi.PyCapsule_New
        new.restype = ctypes.py_object
        new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self._name = b"BitGenerator"
        self.capsule = new(ctypes.addressof(self._bg), self._name, None)

    def seed(self, s, p):
        self.s = s & M64
        self.p = tuple(int(x * 4096) for x in p)
        self.last = 0

    def next(self):
        self.draws += 1
        self.s, r = splitmix(self.s)
        self.s, u = splitmix(self.s)
        u &= 4095
        lo, hi, rep = self.p
        if u < lo:
            r &= 0xFFF
            self.extreme += 1
        elif u < lo + hi:
            r |= M64 ^ 0xFFF
            self.extreme += 1
        elif u < lo + hi + rep:
            r = self.last
            self.extreme += 1
        self.last = r
        return r


_mt = np.random.get_bit_generator()
_hostile = HostileBits()


def reseed(seed, entropy=None):
    """Puts the process's global random generators into a state that depends on `seed` only."""
    seed = int(seed) & 0xFFFFFFFF
    if entropy and entropy.get("mode") == "hostile":
        if np.random.get_bit_generator() is not _hostile:
            np.random.set_bit_generator(_hostile)
        _hostile.seed(seed * 0x9E3779B97F4A7C15 + 1, entropy["p"])
    else:
        if np.random.get_bit_generator() is not _mt:
            np.random.set_bit_generator(_mt)
        np.random.seed(seed)
    random.seed(seed)


def os_stream(seed):
    """Replaces operating-system entropy by a stream that depends on `seed` only."""
    r = rng_for("os-entropy", seed)
    boot.os_entropy = r.randbytes


def release_entropy():
    if np.random.get_bit_generator() is not _mt:
        np.random.set_bit_generator(_mt)


# ---------------------------------------------------------------- clocks

class SimClock:
    """Virtual time in nanoseconds.  Monotonic, wall and CPU time are separate; every read costs a tick."""

    def __init__(self, cfg=None):
        cfg = cfg or {}
        self.mono = int(cfg.get("mono0", 1000.0) * 1e9)
        self.wall = int(cfg.get("wall0", 1.7e9) * 1e9)
        self.cpu = int(cfg.get("cpu0", 5.0) * 1e9)
        self.tick = int(cfg.get("tick", 1e-6) * 1e9)
        # wall-clock jumps: (when, as monotonic seconds from start; by how many seconds)
        self.jumps = sorted((int(t * 1e9) + self.mono, int(d * 1e9))
                            for t, d in cfg.get("jumps", []))
        self.skew = cfg.get("skew", 1.0)
        self.start = self.mono
        self.reads = 0
        self.jumped = 0

    def advance(self, seconds, cpu=False):
        ns = int(seconds * 1e9)
        self.mono += ns
        self.wall += int(ns * self.skew)
        if cpu:
            self.cpu += ns
        while self.jumps and self.jumps[0][0] <= self.mono:
            self.wall += self.jumps.pop(0)[1]
            self.jumped += 1

    def jump_wall(self, seconds):
        self.wall += int(seconds * 1e9)
        self.jumped += 1

    def read(self, name, *args):
        self.reads += 1
        if name == "sleep":
            self.advance(args[0])
            return None
        self.advance(self.tick / 1e9, cpu=True)
        ns = {"time": self.wall, "perf": self.mono, "mono": self.mono,
              "proc": self.cpu, "thre": self.cpu}[name[:4]]
        return ns if name.endswith("_ns") else ns / 1e9

    def elapsed(self):
        return (self.mono - self.start) / 1e9


# ---------------------------------------------------------------- monitoring

def _lib_code_objects():
    seen = {}
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    while todo:
        c = todo.pop()
        if id(c) in seen or not c.co_filename.startswith(boot.LIB):
            continue
        seen[id(c)] = c
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return list(seen.values())


NUMERIC = ("numpy", "scipy", "copy")


class Monitor:
    """Owns the sys.monitoring events of the library's code: step budget, interrupts, failing calls,
    and the yield points of the thread scheduler."""

    def __init__(self):
        self.codes = None
        self.copy_codes = ()        # of the standard library's copy module: yield points only
        self.copies = False
        self.events = 0
        self.budget = None
        self.lines_left = None      # interrupt before this many more lines
        self.calls_left = None      # fail after this many more numeric calls
        self.fault_exc = None
        self.fired = None
        self.steps = 0
        self.sched = None
        self.line_count = 0
        self.call_count = 0
        self.nested = None          # [[lines to go, function], ...]: run in place, as a signal handler would be

    def install(self):
        if self.codes is None:
            self.codes = _lib_code_objects()
            self.copy_codes = {f.__code__ for f in vars(copy).values()
                               if isinstance(f, types.FunctionType) and f.__code__.co_filename == copy.__file__}
            mon.use_tool_id(TOOL, "stoqsim")
            E = mon.events
            mon.register_callback(TOOL, E.PY_START, self._start)
            mon.register_callback(TOOL, E.JUMP, self._jump)
            mon.register_callback(TOOL, E.LINE, self._line)
            mon.register_callback(TOOL, E.CALL, self._call)

    def require(self, line=False, call=False, copies=False):
        self.install()
        if copies != self.copies:
            for c in self.copy_codes:
                mon.set_local_events(TOOL, c, mon.events.LINE if copies else 0)
            self.copies = copies
        E = mon.events
        ev = E.PY_START | E.JUMP | (E.LINE if line else 0) | (E.CALL if call else 0)
        if ev != self.events:
            for c in self.codes:
                mon.set_local_events(TOOL, c, ev)
            self.events = ev

    def _spend(self):
        self.steps += 1
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                self.budget = None
                raise SimHang()

    def _start(self, code, off):
        self._spend()

    def _jump(self, code, off, dest):
        self._spend()

    def _line(self, code, line):
        s = self.sched
        if self.copies and code.co_filename == copy.__file__:
            if s is not None:
                s.yield_point(code, -1000000 - line)
            return
        self.line_count += 1
        if s is not None:
            s.yield_point(code, line)
        n = self.lines_left
        if n is not None:
            if n <= 0:
                self.lines_left = None
                self.fired = ("interrupt", code.co_name)
                raise SimInterrupt("simulated interrupt")
            self.lines_left = n - 1
        if self.nested:
            q = self.nested[0]
            if q[0] <= 0:
                del self.nested[0]
                q[1]()
            else:
                q[0] -= 1

    def _call(self, code, off, fn, arg0):
        s = self.sched
        if s is not None:
            s.yield_point(code, -1 - off)
        n = self.calls_left
        if n is None:
            return
        if not _is_numeric(fn):
            return
        self.call_count += 1
        if n <= 0:
            self.calls_left = None
            self.fired = ("alloc", code.co_name)
            raise self.fault_exc
        self.calls_left = n - 1

    def arm(self, fault):
        self.fired = None
        self.lines_left = self.calls_left = None
        if not fault:
            return
        if fault["kind"] == "interrupt":
            self.lines_left = fault["k"]
        elif fault["kind"] == "alloc":
            self.fault_exc = SimAllocError("simulated allocation failure")
            self.calls_left = fault["k"]
        elif fault["kind"] == "numeric":
            self.fault_exc = np.linalg.LinAlgError("simulated numerical failure")
            self.calls_left = fault["k"]

    def disarm(self):
        self.lines_left = self.calls_left = None


def _is_numeric(fn):
    m = getattr(fn, "__module__", None)
    if m is None:
        s = getattr(fn, "__self__", None)
        if isinstance(s, np.ndarray) and getattr(fn, "__name__", "") in ("astype", "conj", "copy", "dot"):
            return True
        return isinstance(fn, np.ufunc)
    if not isinstance(m, str) or m.split(".")[0] not in NUMERIC:
        return False
    return m != "numpy.random" and not m.startswith("numpy.random.")


MON = Monitor()


# ---------------------------------------------------------------- the world

class Outcome:
    __slots__ = ("ok", "value", "exc", "hang", "fired")

    def __init__(self, ok, value=None, exc=None, hang=False, fired=None):
        self.ok, self.value, self.exc, self.hang, self.fired = ok, value, exc, hang, fired

    def __repr__(self):
        return "ok" if self.ok else ("hang" if self.hang else "%s(%s)" % (
            type(self.exc).__name__, str(self.exc)[:120].replace("\n", " ")))


class World:
    def __init__(self, clock=None, line=False, call=False, copies=False):
        self.clock = SimClock(clock)
        self.line, self.call_ev, self.copies = line, call, copies
        self.fired = collections.Counter()
        self.armed = collections.Counter()
        self.probes = collections.Counter()
        self.hash = hashlib.sha256()
        self.nlog = 0
        self.tail = collections.deque(maxlen=40)
        self.schedule_hash = None
        self.ops = 0

    def __enter__(self):
        MON.require(self.line, self.call_ev, self.copies)
        MON.arm(None)
        MON.nested = None
        MON.budget = None
        boot.clock = self.clock
        os_stream(0)
        boot.os_entropy_reads = 0
        _hostile.draws = _hostile.extreme = 0
        return self

    def __exit__(self, *exc):
        boot.clock = None
        boot.os_entropy = None
        if boot.os_entropy_reads:
            self.probes["os_entropy_reads"] += boot.os_entropy_reads
        MON.disarm()
        MON.budget = None
        MON.nested = None
        MON.sched = None
        if _hostile.extreme:
            self.fired["extreme_draw"] += _hostile.extreme
        if self.clock.jumped:
            self.fired["wall_clock_jump"] += self.clock.jumped
        release_entropy()
        return False

    def log(self, *parts):
        s = " ".join(_fmt(p) for p in parts)
        self.hash.update(s.encode() + b"\n")
        self.nlog += 1
        self.tail.append(s)

    def digest(self):
        return self.hash.hexdigest()[:16]

    def call(self, fn, *args, budget=400000, fault=None, **kw):
        """Runs one operation of the library under the step budget and, if given, an armed fault."""
        self.ops += 1
        MON.budget = budget
        if fault:
            self.armed[fault["kind"]] += 1
        MON.arm(fault)
        try:
            v = fn(*args, **kw)
            out = Outcome(True, v)
        except SimHang:
            out = Outcome(False, hang=True)
        except SimInterrupt as e:
            out = Outcome(False, exc=e)
        except KeyboardInterrupt:
            raise
        except Violation:
            raise
        except (Exception, SystemExit) as e:
            out = Outcome(False, exc=e)
        finally:
            MON.disarm()
            MON.budget = None
        out.fired = MON.fired
        if MON.fired:
            self.fired[fault["kind"] if fault else MON.fired[0]] += 1
            MON.fired = None
        return out

    def must(self, what, fn, *args, **kw):
        """An operation the property says succeeds."""
        out = self.call(fn, *args, **kw)
        if out.hang:
            raise Violation("hang", "%s did not finish within its step budget" % what)
        if not out.ok:
            raise Violation("unexpected-error", "%s failed: %r" % (what, out))
        return out.value


def _fmt(p):
    if isinstance(p, (float, np.floating)):
        return "%.6f" % (round(float(p), 6) + 0.0)
    if isinstance(p, (list, tuple)):
        return "[" + " ".join(_fmt(x) for x in p) + "]"
    if isinstance(p, np.ndarray):
        return _fmt([float(x) for x in np.abs(p).ravel()])
    return str(p)


def thread_id():
    return threading.get_ident()
