"""Runs a property's simulated executions on all cores, minimises failures, writes replays and evidence."""
import collections
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time as _time_mod  # replaced clocks pass through outside a simulation
import traceback

from . import boot
from .world import MON, Violation, World, rng_for

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")
real_now = boot.Real.monotonic
CPU_LIMIT = 100       # seconds of processor time after which a run counts as one that does not end
RUN_LIMIT = 600       # real seconds one simulated run may take before the harness gives up
WALL_LIMIT = {"quick": 600, "thorough": 6 * 3600}
MAX_FORKS = int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 4


def load(pid):
    return importlib.import_module("sim.props.%s" % pid.lower())


def make_plan(mod, seed, i, tier):
    rng = rng_for(seed, mod.ID, i)
    plan = mod.gen(i, rng, tier)
    plan.setdefault("clock", rand_clock(rng))
    return json.loads(json.dumps(plan))


def rand_clock(rng):
    c = {"mono0": rng.choice([0.0, 1000.0, 1e6]), "tick": rng.choice([1e-9, 1e-6, 1e-3])}
    if rng.random() < 0.5:
        c["jumps"] = [[rng.uniform(0, 0.5), rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 7)]
                      for _ in range(rng.randint(1, 3))]
        c["skew"] = rng.choice([1.0, 0.5, 1.5])
    return c


class RunTooLong(BaseException):
    pass


class NoEnd(BaseException):
    """The run has used far more processor time than any run that ends."""


def _alarm(signum, frame):
    raise RunTooLong()


def _cpu_alarm(signum, frame):
    raise NoEnd()


def execute(mod, plan):
    """One simulated run.  Returns (violation or None, info, world)."""
    old = signal.signal(signal.SIGPROF, _cpu_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return _execute(mod, plan)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def _execute(mod, plan):
    w = World(plan.get("clock"), line=bool(plan.get("line")), call=bool(plan.get("call")),
              copies=bool(plan.get("copies")))
    v, info = None, {}
    with w:
        try:
            info = mod.run(plan, w) or {}
        except Violation as e:
            v = e
            w.log("VIOLATION", e.kind)
        except NoEnd:
            v = Violation("no-end", "an operation was still computing after %d s of processor time" % CPU_LIMIT)
            w.log("VIOLATION", v.kind)
        except (MemoryError, OSError):
            raise
        except Exception as e:
            # the code returned or raised something no correct run produces
            where = traceback.extract_tb(e.__traceback__)[-3:]
            v = Violation("unusable-result", "%s: %s (%s)" % (type(e).__name__, str(e)[:200], " > ".join(
                "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in where)))
            w.log("VIOLATION", v.kind)
    return v, info, w


# ---------------------------------------------------------------- worker

def _worker(mod, seed, tier, idx, stride, count, limit, out, deadline, stop_at):
    signal.signal(signal.SIGALRM, _alarm)
    agg = {"runs": 0, "nontrivial": 0, "digests": [], "fired": {}, "armed": {}, "probes": {},
           "sim_s": 0.0, "ops": 0, "steps": 0, "sched": [], "states": [], "viol": [], "clock_reads": 0,
           "switches": 0, "capped": False, "events": 0}
    fired, armed, probes = collections.Counter(), collections.Counter(), collections.Counter()
    sched, states, digests = set(), set(), set()
    known = known_matchers(mod.ID)
    for i in range(count):
        if (i + i // stride) % stride != idx:
            continue
        if real_now() > deadline:
            agg["capped"] = True
            break
        if stop_at.value >= 0 and i > stop_at.value:
            break
        plan = make_plan(mod, seed, i, tier)
        signal.alarm(limit)
        try:
            v, info, w = execute(mod, plan)
        finally:
            signal.alarm(0)
        agg["runs"] += 1
        agg["ops"] += w.ops
        agg["events"] += w.nlog
        agg["sim_s"] += w.clock.elapsed()
        agg["clock_reads"] += w.clock.reads
        fired.update(w.fired)
        armed.update(w.armed)
        probes.update(w.probes)
        if info.get("nontrivial"):
            agg["nontrivial"] += 1
            digests.add(w.digest())
        for s in info.get("sched", ()):
            sched.add(s)
        for s in info.get("states", ()):
            states.add(s)
        agg["switches"] += info.get("switches", 0)
        if v is not None and not any(k(v, plan) for k in known):
            agg["viol"].append([i, plan, v.kind, v.detail])
            with stop_at.get_lock():
                if stop_at.value < 0 or i < stop_at.value:
                    stop_at.value = i
            break
    agg["fired"], agg["armed"], agg["probes"] = dict(fired), dict(armed), dict(probes)
    agg["steps"] = MON.steps
    agg["digests"] = sorted(digests)
    agg["sched"] = sorted(sched)
    agg["states"] = sorted(states)
    out.write(json.dumps(agg) + "\n")
    out.flush()


def run_parallel(mod, seed, tier, count, workers):
    import multiprocessing
    stop_at = multiprocessing.Value("q", -1)
    deadline = real_now() + WALL_LIMIT[tier]
    procs = []
    for k in range(workers):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                with os.fdopen(wfd, "w") as f:
                    try:
                        _worker(mod, seed, tier, k, workers, count, RUN_LIMIT, f, deadline, stop_at)
                    except BaseException:
                        f.write(json.dumps({"error": traceback.format_exc()}) + "\n")
                        code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    data = {r: b"" for _, r in procs}
    open_fds = set(data)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5)
        for r in ready:
            chunk = os.read(r, 1 << 16)
            if chunk:
                data[r] += chunk
            else:
                open_fds.discard(r)
    results = []
    for pid, r in procs:
        os.close(r)
        os.waitpid(pid, 0)
        try:
            results.append(json.loads(data[r].decode().splitlines()[-1]))
        except Exception:
            results.append({"error": "worker %d died without a report" % pid})
    return results


# ---------------------------------------------------------------- known findings

def known_list(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [e for e in json.load(f)["findings"]
                if e.get("property") == pid and e.get("status") == "known"]


def known_matchers(pid):
    out = []
    for e in known_list(pid):
        def m(v, plan, e=e):
            return v.kind == e["kind"] and e["detail_contains"] in v.detail
        out.append(m)
    return out


# ---------------------------------------------------------------- minimisation and replay

def in_child(fn, limit):
    """Runs fn() in a forked child (so that the caller's state stays untouched); returns its JSON result."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(limit) + 1)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(fn()))
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(4)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except Exception:
        return None


def probe(mod, plan):
    v, info, w = execute(mod, plan)
    return None if v is None else {"kind": v.kind, "detail": v.detail, "digest": w.digest(),
                                   "trace": list(w.tail)}


def minimise(mod, plan, kind, seconds=60):
    def work():
        cur, best = plan, None
        end = real_now() + seconds
        tried = 0
        improved = True
        try:
            probe(mod, cur)      # leaves the executed schedule for the first reduction
        except Exception:
            pass
        while improved and real_now() < end:
            improved = False
            for cand in getattr(mod, "shrink", lambda p: ())(cur):
                if real_now() > end:
                    break
                cand = json.loads(json.dumps(cand))
                tried += 1
                try:
                    r = probe(mod, cand)
                except Exception:
                    continue
                if r and r["kind"] == kind:
                    cur, best, improved = cand, r, True
                    break
        return {"plan": cur, "result": best, "tried": tried}
    return in_child(work, seconds * 3) or {"plan": plan, "result": None, "tried": 0}


def write_replay(mod, seed, i, plan, result, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d-run%d.json" % (mod.ID, seed, i))
    with open(path, "w") as f:
        json.dump(dict({"property": mod.ID, "seed": seed, "run": i, "kind": result["kind"],
                        "detail": result["detail"], "digest": result["digest"], "plan": plan,
                        "trace_tail": result["trace"]}, **extra), f, indent=1)
        f.write("\n")
    return path


def replay_env():
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = "0"
    return e


def replay_fresh(path, limit=300):
    p = subprocess.run([sys.executable, os.path.join(ROOT, "replay.py"), "--json", path], env=replay_env(),
                       capture_output=True, text=True, timeout=limit)
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            return json.loads(line)
    return None


def digests_fresh(pid, seed, tier, idx, hashseed, limit=300):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    p = subprocess.run([sys.executable, os.path.join(ROOT, "run_check.py"), "--digests", pid, str(seed), tier,
                        ",".join(map(str, idx))], env=e, capture_output=True, text=True, timeout=limit)
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            return json.loads(line)
    return None


def digests(mod, seed, tier, idx):
    out = {}
    for i in idx:
        v, info, w = execute(mod, make_plan(mod, seed, i, tier))
        out[str(i)] = w.digest()
    return out


# ---------------------------------------------------------------- the check

def check(pid, tier, seed, count=None, workers=None):
    t0 = real_now()
    mod = load(pid)
    count = count or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    workers = workers or min(MAX_FORKS, max(1, count))
    results = run_parallel(mod, seed, tier, count, workers)
    errors = [r["error"] for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    viols = sorted((v for r in good for v in r["viol"]), key=lambda v: v[0])
    runs = sum(r["runs"] for r in good)
    search_s = real_now() - t0

    replay, vi = None, None
    if viols:
        i, plan, kind, detail = viols[0]
        vi = {"run": i, "kind": kind, "detail": detail}
        m = minimise(mod, plan, kind) if kind != "no-end" else {"plan": plan, "result": None, "tried": 0}
        res, mplan = m["result"], m["plan"]
        if res is None:
            res = in_child(lambda: probe(mod, plan), 300)
            mplan = plan
        if res is None:
            res = {"kind": kind, "detail": detail, "digest": "", "trace": []}
        replay = write_replay(mod, seed, i, mplan, res, {"minimisation_runs": m["tried"]})
        try:
            again = replay_fresh(replay)
        except Exception:
            again = None
        if not again or again.get("kind") != res["kind"]:
            res = in_child(lambda: probe(mod, plan), 300) or res
            replay = write_replay(mod, seed, i, plan, res, {"minimisation_runs": 0})
            try:
                again = replay_fresh(replay)
            except Exception:
                again = None
        same = bool(again and again.get("kind") == res["kind"] and again.get("digest") == res["digest"])
        vi["replayed_identically"] = same
        print("%s: run %d violates %s: %s" % (pid, i, pid, mod.TITLE))
        print("  %s: %s" % (res["kind"], res["detail"]))
        print("  minimised in %d runs; replays identically: %s" % (m["tried"], same))

    # determinism of the harness itself: the same runs in a fresh process under another hash seed
    determinism = None
    if not viols and not errors:
        idx = sorted({rng_for(seed, pid, "recheck", k).randrange(count) for k in range(3)})
        try:
            a = digests_fresh(pid, seed, tier, idx, 0)
            b = digests_fresh(pid, seed, tier, idx, 1 + seed % 4000)
            determinism = {"runs_repeated": len(idx), "identical": a is not None and a == b}
        except Exception as e:
            determinism = {"runs_repeated": 0, "identical": False, "error": str(e)[:200]}

    for e in known_list(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    wall = real_now() - t0
    write_evidence(mod, tier, seed, count, workers, good, runs, viols, vi, replay, determinism, search_s, wall)
    if viols:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if errors:
        print("%s: harness error\n%s" % (pid, errors[0]), file=sys.stderr)
        return 2
    capped = any(r["capped"] for r in good)
    if capped and runs < count // 20:
        print("%s: only %d of %d runs fitted into the time limit" % (pid, runs, count), file=sys.stderr)
        return 2
    print("%s: held on %d simulated runs (%.1f s%s)" % (pid, runs, wall, ", time-capped" if capped else ""))
    return 0


def _sum(good, key):
    c = collections.Counter()
    for r in good:
        c.update(r[key])
    return dict(sorted(c.items()))


def write_evidence(mod, tier, seed, count, workers, good, runs, viols, vi, replay, determinism, search_s, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    digests_ = set()
    sched, states = set(), set()
    for r in good:
        digests_.update(r["digests"])
        sched.update(r["sched"])
        states.update(r["states"])
    samples = []
    for i in (0, count // 3, count - 1):
        p = make_plan(mod, seed, i, tier)
        s = json.dumps(p, ensure_ascii=False)
        samples.append(p if len(s) < 3000 else {"run": i, "plan_prefix": s[:3000]})
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(digests_),
        "rule": mod.RULE + " Distinct: different digest of the run's event log.",
        "samples": samples,
        "seeds": runs,
        "runs_per_hour": int(runs / max(search_s, 1e-6) * 3600),
        "workers": workers,
        "simulated_seconds": round(sum(r["sim_s"] for r in good), 6),
        "simulated_clock_reads": sum(r["clock_reads"] for r in good),
        "library_operations": sum(r["ops"] for r in good),
        "library_events_counted": sum(r["steps"] for r in good),
        "faults_armed": _sum(good, "armed"),
        "faults_injected": _sum(good, "fired"),
        "probes": _sum(good, "probes"),
        "determinism_recheck": determinism,
        "components": {
            "real": "all of stoqcompiler (imported from /repo), numpy, scipy, copy, pickle, Python threads",
            "simulated": "clocks (time, datetime), global and OS randomness, thread scheduling, "
                         "allocation/numerical failures, interrupts, user-supplied gate functions",
        },
    }
    if states:
        cov["distinct_states"] = len(states)
        cov["state_measure"] = getattr(mod, "STATE_MEASURE", "")
    if sched:
        cov["distinct_interleavings"] = len(sched)
        cov["context_switches"] = sum(r["switches"] for r in good)
        cov["interleaving_measure"] = "hash of the sequence of (thread, library lines executed) slices of a run"
    if any(r["capped"] for r in good):
        cov["time_capped"] = True
    if vi:
        cov["violation"] = dict(vi, replay=replay)
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMES", [])) + [
              "pure CPython; interrupts are delivered at line boundaries of the library's code, and "
              "allocation or numerical failures at its calls into numpy, scipy and copy"],
          "wall_s": round(wall, 3), "violations": len(viols)}
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % mod.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, mod.ID + ".json"))
