import numpy as np

from .. import refs
from ..walk import Walk, fixed_walks, rand_cfg, shrink_cfg, target_matrix
from ..walkchecks import check_stop, costs_of, log_walk, moves, must_not_stop, must_stop
from ..world import Violation

ID = "C01"
TITLE = "Compilation stops exactly when it should"
QUICK, THOROUGH = 800, 60000
RULE = ("One run is one compilation of a random configuration (gates, target, threshold, limits, entropy), "
        "re-run for every smaller step limit from the same random state to see every intermediate sequence. "
        "Non-trivial: at least one accepted edit, or a stop decided before the first step.")


def gen(i, rng, tier):
    fw = fixed_walks()
    if i < len(fw):
        return {"cfg": fw[i], "mode": "prefix"}
    r = rng.random() if i % 200 != 40 else 1.0
    big = 40 if tier == "thorough" else 22
    if r < 0.78:
        return {"cfg": rand_cfg(rng, max_steps=big), "mode": "prefix"}
    if r < 0.93:
        cfg = rand_cfg(rng, n=rng.choice([1, 1, 2]))
        cfg["steps"] = rng.choice([40, 80, 150, 400, 1200])
        if cfg["steps"] >= 400 and rng.random() < 0.7:
            # a walk that soon stays where it is, with nothing more to gain
            cfg.update(threshold=rng.choice([None, 1.0, 0.999999]), target=["haar", rng.randrange(10 ** 6)],
                       rate=rng.choice([1.0, 10.0, 1000.0]), append_p=rng.choice([0.5, 0.8]), entropy=None)
        if rng.random() < 0.5:
            # around the start, and from there to a target just out of reach, an exact or nearly exact search goes on
            cfg.update(threshold=rng.choice([None, None, 1.0, 0.9999999, 0.99999]), steps=rng.choice([90, 150, 300]),
                       append_p=rng.choice([0.1, 0.3, 0.5]), rate=rng.choice([0.1, 10.0, 1000.0]), entropy=None,
                       target=["near", [], rng.randrange(1000), 10 ** rng.uniform(-2.7, -1.3)])
            th = cfg["threshold"]
            if th not in (None, 1.0):
                d = refs.dist(target_matrix(cfg["target"], cfg["prims"], cfg["n"]), np.eye(2 ** cfg["n"]))
                cfg["threshold"] = max(0.0, 1.0 - d * rng.choice([0.2, 0.7, 0.95]))
        return {"cfg": cfg, "mode": "long"}
    if i % 200 == 40:
        # far more steps than a quick look would take, towards a target that is never met
        cfg = rand_cfg(rng, n=1, layered=rng.random() < 0.3)
        cfg.update(threshold=rng.choice([None, 1.0]), target=["haar", rng.randrange(10 ** 6)], entropy=None,
                   append_p=rng.choice([0.3, 0.45]), rate=rng.choice([0.1, 10.0]), steps=rng.choice([6000, 11000]))
        return {"cfg": cfg, "mode": "long"}
    cfg = rand_cfg(rng, n=rng.choice([1, 1, 2]))
    cfg["threshold"] = rng.choice([0.0, 0.05, 0.3, 0.5])
    cfg["append_p"] = rng.choice([0.5, 0.6])
    cfg["rate"] = rng.choice([0.0, 0.01])
    return {"cfg": cfg, "mode": "default"}


def run(plan, w):
    cfg = plan["cfg"]
    walk = Walk(w, cfg)
    th = cfg["threshold"]
    if plan["mode"] == "default":
        return run_default(plan, w, walk)
    res = walk.run()
    k = len(res.cost_by_step)
    if plan["mode"] == "prefix":
        states, costs = walk.prefixes(res)
        check_stop(walk, res, states, cfg["steps"], th)
        for j, c in enumerate(costs):
            if len(c) != j:
                raise Violation("wrong-step-count", "a search limited to %d steps did %d although the longer one "
                                "had not reached its threshold by then" % (j, len(c)))
        log_walk(w, states, costs)
        mv = moves(states)
    else:
        costs = costs_of(res)
        if k > cfg["steps"]:
            raise Violation("too-many-steps", "%d steps with a limit of %d" % (k, cfg["steps"]))
        for j, c in enumerate(costs[:-1]):
            if must_stop(c, th):
                raise Violation("ran-on", "cost %.3g after step %d qualifies for threshold %r but the search "
                                "went on to step %d" % (c, j + 1, th, k))
        d = walk.dist(walk.state(res))
        if k < cfg["steps"] and must_not_stop(d, th):
            raise Violation("stopped-early", "stopped after %d of %d steps at distance %.6g, threshold %r"
                            % (k, cfg["steps"], d, th))
        w.log(k, d)
        mv = k
    d0 = walk.dist([])
    if must_stop(d0, th) and (k or res.compiled_sequence.get_length()):
        raise Violation("ran-on", "the empty sequence qualifies but %d steps were done" % k)
    if k == 0 and res.compiled_sequence.get_length():
        raise Violation("steps-without-cost", "no steps reported, %d entries returned"
                        % res.compiled_sequence.get_length())
    if k and k < cfg["steps"]:
        w.probes["stopped_on_threshold"] += 1
    if k == cfg["steps"]:
        w.probes["ran_to_limit"] += 1
    return {"nontrivial": mv > 0 or k == 0}


def run_default(plan, w, walk):
    """No step limit given: the search must go on until the threshold is met."""
    from ..world import reseed
    cfg = plan["cfg"]
    comp = walk.compiler()
    name, a = walk.args(0)
    a = a[:-1]
    reseed(cfg["seed"])
    unit = sum(walk.counts.values()) if walk.counts else 1
    out = w.call(getattr(comp, name), *a, budget=25000 * (unit + 1))
    if out.hang:
        w.probes["unlimited_not_reached"] += 1
        w.log("budget")
        return {"nontrivial": False}
    if not out.ok:
        raise Violation("unexpected-error", "the compilation failed: %r" % out)
    d = walk.dist(walk.state(out.value))
    if must_not_stop(d, cfg["threshold"]):
        raise Violation("stopped-early", "no step limit, but stopped after %d steps at distance %.6g, threshold %r"
                        % (len(out.value.cost_by_step), d, cfg["threshold"]))
    w.log(len(out.value.cost_by_step), d)
    w.probes["unlimited_reached"] += 1
    return {"nontrivial": True}


def shrink(plan):
    for c in shrink_cfg(plan["cfg"]):
        yield dict(plan, cfg=c)
