import math

import numpy as np

from .. import refs
from ..gates import USER_FAULTS, product, read
from ..hams import Ham
from ..rav import Rav
from ..walk import Walk
from ..walkchecks import must_not_stop
from ..world import Violation, reseed, rng_for

ID = "C26"
TITLE = "Reachable targets are found within a bounded number of steps"
QUICK, THOROUGH = 3000, 12000
RULE = ("One run builds a situation in which, from every state, one proposal reaches the threshold with at least a known "
        "probability p, lets faults happen first (failing gate functions, interrupts, failing allocations, unreachable "
        "searches, clock jumps, stalls), and then requires success within the K steps after which the probability of failure "
        "is below 1e-12. Non-trivial: at least one step was needed.")
ASSUMES = "each run's alarm probability is below 1e-12"
DIRECT = ("compile", "layered", "back")


def p_haar(d, th):
    """Lower bound on P(|tr U|/d >= th) for Haar-random U."""
    if d == 2:
        t = math.acos(th)
        return (4 / math.pi) * (t / 2 - math.sin(2 * t) / 4)
    # |tr U|^2 is close to Exp(1) below d; halved for safety
    return 0.5 * math.exp(-(d * th) ** 2)


def gen(i, rng, tier):
    mode = ["compile", "layered", "rav", "lrav", "ham", "hrav", "compile", "back", "back"][i % 9]
    faults = [{"kind": rng.choice(["user", "user", "interrupt", "alloc", "numeric", "unreachable", "short", "long"]),
               "user": rng.choice(USER_FAULTS), "k": int(10 ** rng.uniform(0, 3.3)) - 1, "uk": rng.randrange(20),
               "jump": rng.choice([0, 0, 0, -1, 1]) * 10 ** rng.uniform(-1, 7), "times": rng.choice([1, 1, 1, 3, 12])}
              for _ in range(rng.choice([0, 1, 2, 3]))]
    plan = {"mode": mode, "faults": faults, "seed": rng.randrange(2 ** 31), "line": bool(faults), "call": bool(faults),
            "stall": rng.choice([0, 0, 1.0, 1e4]), "jump": rng.choice([0, 0.3])}
    if mode in ("ham", "hrav"):
        c = rng.choice([0.5, 1.0, 2.0])
        return dict(plan, coef=c, m=rng.choice([1, 2, 3]), th=rng.choice([0.3, 0.4, 0.5]), time=rng.uniform(0.2, 3),
                    target_t=rng.uniform(-5, 5))
    plan["final_jump"] = rng.choice([0, 0, -1, 1]) * 10 ** rng.uniform(-1, 7)
    if mode == "back":
        return back_plan(rng, plan)
    d = rng.choice([2, 2, 4, 8])
    gate = {2: rng.choice(["rxyz", "euler", "hash2"]), 4: "hash4", 8: "hash8"}[d]
    n = d.bit_length() - 1
    th = {2: rng.choice([0.5, 0.7, 0.8, 0.9]), 4: rng.choice([0.2, 0.3]), 8: rng.choice([0.1, 0.15, 0.2])}[d]
    if gate == "rxyz":
        prim = {"k": "rxyz", "apply": None}
    else:
        two = 2 * np.pi
        prim = {"k": "probe", "f": gate, "name": "G", "params": [["abc"[j], 0.0, two, True] for j in range(3 if gate == "euler" else 2)],
                "apply": rng.choice([None, [list(range(n))]])}
    prims = [prim]
    weight = 1.0
    if rng.random() < 0.5 and mode not in ("layered", "lrav"):
        prims.append({"k": "fixed", "g": rng.choice([["h"], ["t"], ["x"]]), "apply": rng.choice([None, [], [[0]]])})
        weight = 0.5
    cfg = {"n": n, "prims": prims, "probs": None, "container": "list", "append_p": rng.choice([0.5, 0.5, 0.7, 0.9]),
           "rate": rng.choice([0.0, 0.1, 1.0, 1e6]), "target": ["haar", rng.randrange(10 ** 6)], "threshold": th, "steps": 0,
           "layered": mode in ("layered", "lrav"), "entropy": None, "seed": plan["seed"]}
    if cfg["layered"]:
        cfg["counts"] = [rng.choice([1, 1, 2, 3])]
    p = p_haar(d, th) * weight * cfg["append_p"] * (2 / math.pi if gate in ("rxyz", "euler") else 1.0)
    cfg["steps"] = int(math.ceil(28 / p))
    plan["cfg"] = cfg
    if mode in ("rav", "lrav"):
        # default append probability and no annealing choice there
        cfg.update(mode=mode, length=rng.choice([1, 2, 4]))
        cfg.pop("target")
        cfg.pop("rate")
    return plan


def back_plan(rng, plan):
    """Two gates (or the two orders of a layer); one of them hits the target at once, the other leads away and has to
    be removed again.  Everything is accepted, and removals are more likely than additions."""
    n = rng.choice([1, 1, 2])
    pa = rng.choice([0.2, 0.3, 0.35])
    prims = [{"k": "fixed", "g": ["haar", 2 ** n, rng.randrange(10 ** 6)], "apply": [list(range(n))]} for _ in range(2)]
    layered = rng.random() < 0.4
    word = [[0, [], list(range(n))]] + ([[1, [], list(range(n))]] if layered else [])
    cfg = {"n": n, "prims": prims, "probs": None, "container": "list", "append_p": pa, "rate": 0.0,
           "target": ["word", word, rng.uniform(-3, 3)], "threshold": rng.choice([None, 1.0, 0.9999]), "layered": layered,
           "entropy": None, "seed": plan["seed"], "steps": back_limit(pa, 0.5)}
    if layered:
        cfg["counts"] = [1, 1]
    if rng.random() < 0.5:
        plan["faults"] = [{"kind": "long", "user": "user_nan", "k": 0, "uk": 0, "jump": 0, "times": rng.choice([6, 15])}] + plan["faults"]
    return dict(plan, cfg=cfg)


def back_limit(pa, hit):
    """Steps after which the walk on lengths has hit the target from the empty sequence except with probability 1e-13;
    hits from other lengths are not counted."""
    top = 60
    p = np.zeros(top)
    p[0] = 1.0
    k = 0
    while p.sum() > 1e-13 and k < 20000:
        q = np.zeros(top)
        q[0] += p[0] * (1 - pa) + p[1] * (1 - pa)
        q[1] += p[0] * pa * (1 - hit)
        for j in range(1, top - 1):
            q[j + 1] += p[j] * pa
            q[j - 1] += p[j] * (1 - pa) if j > 1 else 0
        q[top - 1] += p[top - 1]
        p = q
        k += 1
        if p[top - 1] > 1e-13:
            break
    return k


def run(plan, w):
    if plan["mode"] in ("ham", "hrav"):
        return ham(plan, w)
    cfg = plan["cfg"]
    walk = (Walk if plan["mode"] in DIRECT else Rav)(w, cfg)
    ctx = walk.ctx
    comp = walk.compiler() if plan["mode"] in DIRECT else None
    kw = {"compiler": comp} if comp is not None else {}
    bad = 0
    for j, f in enumerate(plan["faults"]):
        fault, k2 = None, dict(kw, seed=plan["seed"] + 1 + j)
        if f["kind"] == "user":
            ctx.arm({"kind": f["user"], "k": f["uk"]})
        elif f["kind"] == "unreachable":
            k2.update(threshold=None, steps=12 if plan["mode"] in ("rav", "lrav") else 30)
        elif f["kind"] == "short":
            k2.update(steps=2)
        elif f["kind"] == "long":
            k2.update(threshold=None, steps=25)
        else:
            fault = {"kind": f["kind"], "k": f["k"]}
        if f.get("jump"):
            w.clock.jump_wall(f["jump"])
        k2.setdefault("steps", 40)
        if f["kind"] in ("long", "short", "unreachable"):
            for t in range(f.get("times", 1) - 1):
                walk.start(budget=3 * 10 ** 6, **dict(k2, seed=plan["seed"] + 100 + t))
        out = walk.start(fault=fault, budget=3 * 10 ** 6, **k2)
        bad += not out.ok
        ctx.arm(None)
        w.log(f["kind"], "ok" if out.ok else type(out.exc).__name__)
    if plan["stall"]:
        ctx.latency = (rng_for("lat", plan["seed"]), plan["stall"])
        ctx.jump = plan["jump"]
    if plan.get("final_jump"):
        w.clock.jump_wall(plan["final_jump"])
    out = walk.start(budget=3000 * cfg["steps"] + 10 ** 6, **kw)
    ctx.latency = None
    if out.hang:
        raise Violation("hang", "no end within %d steps" % cfg["steps"])
    if not out.ok:
        raise Violation("unexpected-error", "after %d earlier failures the search fails: %r" % (bad, out))
    ents = read(out.value.compiled_sequence, walk.n)
    m = product(ents, walk.n)
    d = refs.dist(m, walk.tm if comp is not None else np.eye(walk.d))
    k = len(out.value.cost_by_step)
    if must_not_stop(d, cfg["threshold"]):
        raise Violation("no-progress", "after %d steps still at distance %.4f, threshold %s; success within %d steps "
                        "was expected" % (k, d, cfg["threshold"], cfg["steps"]))
    w.log(k, d)
    return {"nontrivial": k > 0}


def ham(plan, w):
    c = plan["coef"]
    h = Ham({"n": 1, "terms": [["word", x, c] for x in "XYZ"]})
    # over m half turns |cos| is sampled over whole periods: some axis has amplitude >= 1/sqrt(3)
    max_t = plan["m"] * math.pi / 2 / c
    amp = 1 / math.sqrt(3)
    p = 0.5 / 3 * (2 / math.pi) * math.acos(plan["th"] / amp)
    limit = int(math.ceil(28 / p))
    for j, f in enumerate(plan["faults"]):
        reseed(plan["seed"] + 1 + j)
        if f.get("jump"):
            w.clock.jump_wall(f["jump"])
        kind = f["kind"] if f["kind"] in ("interrupt", "alloc", "numeric") else "interrupt"
        w.call(h.lib.compile_stoq_sequence, 1.0, max_t, None, True, fault={"kind": kind, "k": f["k"]}, budget=30000)
    reseed(plan["seed"])
    if plan["mode"] == "ham":
        out = w.call(h.lib.compile_stoq_sequence, plan["target_t"], max_t, plan["th"], budget=3000 * limit + 10 ** 6)
    else:
        out = w.call(h.lib.compile_rav_sequence, plan["time"] * max_t, max_t, plan["th"], budget=3000 * limit + 10 ** 6)
    if out.hang:
        raise Violation("hang", "no end within %d steps" % limit)
    if not out.ok:
        raise Violation("unexpected-error", "the search fails: %r" % out)
    k = len(out.value.cost_by_step)
    m = product(read(out.value.compiled_sequence, 1), 1)
    d = refs.dist(m, refs.expih(h.sum, plan["target_t"]) if plan["mode"] == "ham" else np.eye(2))
    if k > limit or must_not_stop(d, plan["th"]):
        raise Violation("no-progress", "%d steps, distance %.4f, threshold %s; expected success within %d" % (k, d, plan["th"], limit))
    w.log(k, d)
    return {"nontrivial": k > 0}


def shrink(plan):
    for j in range(len(plan["faults"])):
        yield dict(plan, faults=plan["faults"][:j] + plan["faults"][j + 1:])
    if plan["stall"]:
        yield dict(plan, stall=0, jump=0)
