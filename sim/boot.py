"""Process set-up: seams that must be in place before the library is imported.

Importing this module (1) fixes the numeric environment, (2) replaces every clock in `time` and
`datetime` by a dispatcher that reads the active simulated clock (and passes through to the real one
when no simulation is active), (3) replaces operating-system entropy by a seeded stream and lock
construction inside the library by locks the thread scheduler understands, and only then (4) imports
stoqcompiler from /repo.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True

import datetime as _dt  # noqa: E402
import random  # noqa: E402,F401
import threading  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import scipy.linalg  # noqa: E402,F401
import scipy.sparse  # noqa: E402,F401
import scipy.stats  # noqa: E402,F401
import copy  # noqa: E402,F401
import pickle  # noqa: E402,F401

REPO = os.environ.get("STOQ_REPO", "/repo")


class Real:
    """The machine's real clocks, for the harness itself."""
    perf_counter = time.perf_counter
    monotonic = time.monotonic
    sleep = time.sleep
    Lock = threading.Lock
    RLock = threading.RLock
    Semaphore = threading.Semaphore
    Thread = threading.Thread


_NAMES = ("time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic",
          "monotonic_ns", "process_time", "process_time_ns", "thread_time",
          "thread_time_ns", "sleep")
clock = None  # the active simulated clock, if any


def _dispatch(name):
    real = getattr(time, name)

    def read(*args):
        c = clock
        if c is None:
            return real(*args)
        return c.read(name, *args)
    read.__name__ = name
    return read


for _n in _NAMES:
    setattr(time, _n, _dispatch(_n))


class SimDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if clock is None:
            return _dt_real.now(tz)
        return _dt_real.fromtimestamp(clock.read("time"), tz)

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


_dt_real = _dt.datetime
_dt.datetime = SimDateTime

lock_hook = None  # set by sim.sched while threads are simulated


def _lock_factory(real):
    def make(*a, **k):
        caller = sys._getframe(1).f_globals.get("__name__", "")
        if caller.startswith("stoqcompiler"):
            from . import sched
            return sched.SimLock(real is Real.RLock)
        return real(*a, **k)
    return make


threading.Lock = _lock_factory(Real.Lock)
threading.RLock = _lock_factory(Real.RLock)

# ---- operating-system entropy: os.urandom, random.SystemRandom, secrets, fresh default_rng()
os_entropy = None  # a callable n -> bytes while a simulation is active
os_entropy_reads = 0
_real_urandom = os.urandom


def _urandom(n):
    global os_entropy_reads
    if os_entropy is None:
        return _real_urandom(n)
    os_entropy_reads += 1
    return os_entropy(n)


os.urandom = _urandom
random._urandom = _urandom

sys.path.insert(0, REPO)
import stoqcompiler  # noqa: E402
import stoqcompiler.compiler  # noqa: E402
import stoqcompiler.hamiltonian  # noqa: E402
import stoqcompiler.unitary  # noqa: E402
import stoqcompiler.verification  # noqa: E402

LIB = os.path.dirname(os.path.abspath(stoqcompiler.__file__))
if not LIB.startswith(os.path.abspath(REPO) + os.sep):
    raise ImportError("stoqcompiler was imported from %s, not from %s" % (LIB, REPO))
np.seterr(all="ignore")
