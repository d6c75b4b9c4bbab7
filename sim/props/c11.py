from ..gates import USER_FAULTS, rand_counts
from ..walk import Walk, rand_cfg, rand_target, rand_threshold, shrink_cfg
from ..work import diff, result_value
from ..world import Violation

from stoqcompiler.unitary import Unitary

ID = "C11"
TITLE = "A compiler keeps no memory between compilations"
QUICK, THOROUGH = 2400, 50000
RULE = ("One run uses one compiler for a history of compilations - plain, layered, cut off by the step limit, failing "
        "in a user's gate function, interrupted, out of memory - and then compares a compilation with that of a fresh "
        "compiler from the same random state. Non-trivial: the compared compilation accepted at least one edit and the "
        "history did at least one step.")


def gen(i, rng, tier):
    cfg = rand_cfg(rng, max_steps=30, probe_share=0.5)
    if rng.random() < 0.6:
        cfg["threshold"] = None
        cfg["append_p"] = rng.choice([0.5, 0.7])
        cfg["rate"] = rng.choice([0.1, 0.3, 1.0, 10.0])
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice(["plain", "layered", "cut", "user", "interrupt", "alloc", "same", "fail_arg"])
        h = {"k": k, "seed": rng.randrange(2 ** 31), "steps": rng.choice([0, 1, 3, 10, 40, 80]),
             "th": rand_threshold(rng), "at": rng.random(), "fault": rng.choice(USER_FAULTS)}
        if k == "layered" or (cfg["layered"] and k != "plain"):
            cts = rand_counts(rng, cfg["prims"])
            if rng.random() < 0.6:
                keep = [j for j, c in enumerate(cts) if c]
                cts = [c if (c or rng.random() < 0.5) and (j == keep[0] or rng.random() < 0.6) else None
                       for j, c in enumerate(cts)]
            h["counts"] = cts
        if rng.random() < 0.3:
            h["jump"] = rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 6)
        if rng.random() < 0.5:
            h["target"] = rand_target(rng, cfg["prims"], cfg["n"])
        hist.append(h)
    if i % 24 == 7:      # a compiler used very often
        short = [dict(h, steps=min(h["steps"], 2)) for h in hist]
        hist = [dict(rng.choice(short), seed=rng.randrange(2 ** 31)) for _ in range(rng.choice([9, 12, 17, 24, 35, 66]))]
        if not any(h["steps"] and h["k"] in ("plain", "same", "cut") for h in hist):
            hist[0].update(k="same", steps=1)
    return {"late": rng.random() < 0.4, "cfg": cfg, "history": hist, "line": True, "call": True}


def reborn(make, used):
    """A new object, at the address of one that no longer exists if the allocator gives one out soon."""
    keep = []
    for _ in range(200):
        x = make()
        if id(x) in used:
            return x
        keep.append(x)
    return x


def run(plan, w):
    cfg = plan["cfg"]
    fresh = Walk(w, cfg)
    ref = result_value(fresh.run(), fresh.n)
    walk = Walk(w, cfg)
    comp = walk.compiler()
    done = 0
    used = set()
    for h in plan["history"]:
        hw = walk
        if h.get("target"):
            hw = Walk(w, dict(cfg, target=h["target"]))
            hw.gs, hw.ctx, hw.counts = walk.gs, walk.ctx, walk.counts
        elif plan.get("late"):
            walk.target = Unitary(walk.d, walk.tm.copy(), "T")
        used.add(id(hw.target))
        fault = None
        k = h["k"]
        saved = hw.counts
        layered = k == "layered" or (bool(cfg.get("layered")) and k != "plain")
        if layered:
            hw.counts = walk.gs.counts(h["counts"])
            used.add(id(hw.counts))
        if h.get("jump"):
            w.clock.jump_wall(h["jump"])
        if k == "user":
            walk.ctx.arm({"kind": h["fault"], "k": int(h["at"] * 30)})
        elif k in ("interrupt", "alloc"):
            fault = {"kind": k, "k": int(h["at"] ** 2 * (4000 if k == "interrupt" else 400))}
        th = None if k in ("cut", "user", "interrupt", "alloc") else h["th"]
        out = hw.start(compiler=comp, steps=h["steps"] if k != "fail_arg" else 2, threshold=th, seed=h["seed"],
                       fault=fault, layered=layered)
        walk.ctx.arm(None)
        hw.counts = saved
        if out.hang:
            raise Violation("hang", "a compilation in the history (%s) did not finish" % k)
        if out.ok:
            done += len(out.value.cost_by_step)
        else:
            done += 1
        w.log(k, out if not out.ok else len(out.value.cost_by_step))
    if plan.get("late"):
        # the compared compilation is given new objects, if possible at addresses that earlier ones had
        hw = None
        walk.target = reborn(lambda: Unitary(walk.d, walk.tm.copy(), "T"), used)
        if walk.counts is not None:
            walk.counts = reborn(lambda: walk.gs.counts(cfg["counts"]), used)
    out = walk.start(compiler=comp)
    if not out.ok:
        raise Violation("unexpected-error", "a compilation with a used compiler failed: %r" % out)
    got = result_value(out.value, walk.n)
    d = diff(ref, got)
    if d:
        raise Violation("memory", "after %s the same compilation from the same random state differs from that of a "
                        "fresh compiler: %s" % ([h["k"] for h in plan["history"]], d))
    w.log(ref["costs"])
    return {"nontrivial": len(set(ref["costs"])) > 1 and done > 0}


def shrink(plan):
    k = len(plan["history"])
    if k > 6:
        for a, b in ((0, k // 2), (k // 2, k), (k // 4, k), (0, k - 1)):
            yield dict(plan, history=plan["history"][a:b])
    for j in range(len(plan["history"])):
        if len(plan["history"]) > 1:
            yield dict(plan, history=plan["history"][:j] + plan["history"][j + 1:])
    for j, h in enumerate(plan["history"]):
        if not h["steps"]:
            continue
        for alt in ({"steps": 1}, {"steps": h["steps"] // 2}, {"k": "same"}):
            if any(h.get(a) != b for a, b in alt.items()) and alt.get("steps", 1) > 0:
                yield dict(plan, history=plan["history"][:j] + [dict(h, **alt)] + plan["history"][j + 1:])
    if any(h.get("target") for h in plan["history"]):
        yield dict(plan, history=[{k: v for k, v in h.items() if k != "target"} for h in plan["history"]])
    for c in shrink_cfg(plan["cfg"]):
        if len(c["prims"]) != len(plan["cfg"]["prims"]):
            k = len(c["prims"])
            if not any(h.get("target") or (h.get("counts") and not sum(x or 0 for x in h["counts"][:k]))
                       for h in plan["history"]):
                yield dict(plan, cfg=c, history=[dict(h, counts=h["counts"][:k]) if h.get("counts") else h
                                                 for h in plan["history"]])
        else:
            yield dict(plan, cfg=c)
