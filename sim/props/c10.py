import json
import os
import subprocess
import sys

from .. import boot
from ..gates import PROBES
from ..walk import rand_n
from ..work import CUT, Op, diff, rand_op, random_state
from ..world import SimClock, Violation, os_stream, reseed

ID = "C10"
TITLE = "Results are reproducible from the random seeds alone"
QUICK, THOROUGH = 1300, 30000
RULE = ("One run executes a workload (any generation or compilation routine) twice from the same random state under "
        "different clocks, operating-system entropy and process histories, some of them in fresh processes with other "
        "hash seeds, and compares results and final random state; or runs a workload repeatedly without reseeding, "
        "where results must differ. Non-trivial: the workload drew random numbers.")


def cont_op(rng):
    """A workload whose results differ almost surely between two random states."""
    k = rng.choice(["xeb", "rav", "entry", "layer", "haar", "compile", "layered", "lrav", "hrav", "qdrift", "trotter"])
    n = rng.choice([1, 2])
    prims = [{"k": "rxyz", "apply": None}]
    if k in ("entry", "layer"):
        return {"op": k, "n": n, "prims": prims, "probs": None, "counts": [2], "draws": 3}
    if k == "haar":
        return {"op": "haar", "d": rng.choice([2, 4]), "draws": 2}
    if k in ("xeb", "rav", "lrav"):
        c = {"mode": k, "n": n, "prims": prims, "container": "list", "probs": None, "length": 3,
             "threshold": rng.choice([0.0, None]), "append_p": 1.0, "steps": 4, "entropy": None, "seed": 1}
        if k != "rav":
            c.update(counts=[2], layered=True)
        return {"op": "rav", "cfg": c}
    if k in ("compile", "layered"):
        c = {"n": n, "prims": prims, "probs": None, "container": "list", "append_p": 1.0, "rate": 0.0,
             "target": ["haar", rng.randrange(1000)], "threshold": None, "steps": 5, "layered": k == "layered",
             "entropy": None, "seed": 1}
        if k == "layered":
            c["counts"] = [2]
        return {"op": "compile", "cfg": c}
    h = {"n": 1, "terms": [["word", "X", 1.0], ["word", "Z", 1.0], ["word", "Y", 1.0]]}
    if k != "hrav" and rng.random() < 0.6:
        h = {"n": 2, "terms": [["word", a + b, 1.0] for a in "XYZ" for b in "XYZ"][:rng.choice([4, 6, 9])]}
    if k == "hrav":
        return {"op": k, "ham": h, "t": 1.0, "max_t": 0.3, "th": 0.3, "simul": False}
    return {"op": k, "ham": h, "t": 1.0, "steps": 40, "rand": True}


def gen(i, rng, tier):
    def clk():
        from ..engine import rand_clock
        c = rand_clock(rng)
        if rng.random() < 0.35:      # every look at the clock is much later than the one before
            c["tick"] = 10 ** rng.uniform(-1, 4)
        return c
    if i % 16 == 0:
        return {"mode": "process", "ops": [rand_op(rng) for _ in range(4)], "seed": rng.randrange(2 ** 31),
                "hashseed": rng.randrange(1, 4000), "clock2": clk()}
    if i % 4 == 1:
        return {"mode": "stream", "op": cont_op(rng), "seed": rng.randrange(2 ** 31)}
    return {"mode": "twice", "ops": [rand_op(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
            "seed": rng.randrange(2 ** 31), "clock2": clk(), "reuse": rng.random() < 0.4,
            "noise": [rand_op(rng) for _ in range(rng.choice([0, 1, 2]))], "noise_k": rng.randrange(400)}


def workload(w, ops, seed, objs=None):
    objs = objs or [Op(w, o) for o in ops]
    reseed(seed)
    vals = []
    for o in objs:
        v = o.run()
        if v == CUT:
            # a long Hamiltonian search ended by the harness, not by the library: nothing after it is compared
            return vals, None
        vals.append(v)
    return vals, random_state()


def common(a, b):
    k = min(len(a), len(b))
    return a[:k], b[:k]


def run(plan, w):
    if plan["mode"] == "stream":
        return stream(plan, w)
    # first execution
    os_stream(1)
    objs = [Op(w, o) for o in plan["ops"]] if plan.get("reuse") else None
    a, sa = workload(w, plan["ops"], plan["seed"], objs)
    w.log(json.dumps(_short(a)))
    if plan["mode"] == "process":
        b = in_fresh_process(plan)
        if b.get("violation"):
            raise Violation(b["violation"][0], b["violation"][1] + " (in another process)")
        d = diff(*common(json.loads(json.dumps(a)), b["value"]))
        if d:
            raise Violation("process-dependent", "the same workload from the same random state gives another result "
                            "in another process: %s" % d)
        return {"nontrivial": True}
    # second: other history, other clock, other OS entropy
    w.clock = SimClock(plan["clock2"])
    boot.clock = w.clock
    os_stream(2)
    for j, o in enumerate(plan["noise"]):
        f = {"kind": "interrupt", "k": plan["noise_k"]} if j % 2 else None
        reseed(plan["seed"] + 17 + j)
        Op(w, o).outcome(fault=f)
    b, sb = workload(w, plan["ops"], plan["seed"], objs)
    d = diff(*common(a, b))
    if d:
        raise Violation("not-reproducible", "the same workload from the same random state gives another result: %s" % d)
    if sa is None or sb is None:
        return {"nontrivial": bool(a)}
    if sa != sb:
        raise Violation("stream-position", "the same workload from the same random state leaves different random states")
    before = _drawn(plan["seed"])
    return {"nontrivial": sa != before}


def _drawn(seed):
    reseed(seed)
    return random_state()


def _short(v):
    return [json.dumps(x)[:200] for x in v]


def stream(plan, w):
    """Consecutive calls continue the stream; different seeds give different results."""
    op = Op(w, plan["op"])
    reseed(plan["seed"])
    first = op.run()
    state_one = random_state()
    second = op.run()
    state_two = random_state()
    third = op.run()
    if CUT in (first, second, third):
        return {"nontrivial": False}
    if diff(first, second) is None or diff(second, third) is None or diff(first, third) is None:
        raise Violation("repeats", "two consecutive calls of %s return the same result" % plan["op"]["op"])
    reseed(plan["seed"] + 1)
    other = op.run()
    state_other = random_state()
    if state_one[0] == state_other[0] or state_one[-1] == state_other[-1]:
        raise Violation("resets", "after %s a random generator is in the same state whatever it was before"
                        % plan["op"]["op"])
    if diff(first, other) is None:
        raise Violation("ignores-seed", "%s returns the same result for two different seeds" % plan["op"]["op"])
    # restarting from the state in between reproduces the rest
    import random as _r
    import numpy as np
    reseed(plan["seed"])
    op.run()
    saved = (np.random.get_state(), _r.getstate())
    x = op.run()
    if diff(x, second):
        raise Violation("not-reproducible", "the second of two consecutive calls differs: %s" % diff(x, second))
    if random_state() != state_two:
        raise Violation("stream-position", "two consecutive calls leave different random states when repeated")
    reseed(12345)
    Op(w, plan["op"]).run()
    np.random.set_state(saved[0])
    _r.setstate(saved[1])
    y = op.run()
    if diff(y, second):
        raise Violation("not-reproducible", "a call repeated from a saved random state differs: %s" % diff(y, second))
    w.log(json.dumps(_short([first, second, other])))
    return {"nontrivial": True}


def in_fresh_process(plan):
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]))
    p = subprocess.run([sys.executable, "-m", "sim.props.c10"], input=json.dumps(plan), cwd=root, env=env,
                       capture_output=True, text=True, timeout=200)
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            return json.loads(line)
    raise RuntimeError("fresh process failed: %s" % p.stderr[-2000:])


def _child():
    from ..world import World
    plan = json.loads(sys.stdin.read())
    with World(plan["clock2"]) as w:
        os_stream(3)
        try:
            v, _ = workload(w, plan["ops"], plan["seed"])
            print(json.dumps({"value": v}))
        except Violation as e:
            print(json.dumps({"violation": [e.kind, e.detail]}))


def shrink(plan):
    if plan["mode"] == "stream":
        return
    if plan.get("noise"):
        yield dict(plan, noise=plan["noise"][:-1])
    for j in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            yield dict(plan, ops=plan["ops"][:j] + plan["ops"][j + 1:])
    if plan["mode"] == "process":
        return
    for j, o in enumerate(plan["ops"]):
        if o["op"] == "compile" and o["cfg"]["steps"] > 1:
            yield dict(plan, ops=plan["ops"][:j] + [dict(o, cfg=dict(o["cfg"], steps=o["cfg"]["steps"] // 2))] +
                       plan["ops"][j + 1:])


_ = (PROBES, rand_n)
if __name__ == "__main__":
    _child()
