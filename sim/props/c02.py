from .. import refs
from ..gates import product, read
from ..rav import Rav, rand_rav, shrink_rav
from ..walk import Walk, fixed_walks, long_cfg, rand_cfg, shrink_cfg, windows
from ..walkchecks import check_product, check_range, check_truth, cost_tol, costs_of, log_walk, moves
from ..world import Violation

ID = "C02"
TITLE = "A compilation result is truthful about its sequence and costs"
QUICK, THOROUGH = 520, 60000
RULE = ("One run is one compilation, layered compilation or RAV generation of a random configuration; every step's "
        "cost is recomputed from the sequence the search held then, obtained by re-running with every smaller step "
        "limit from the same random state. Non-trivial: at least one accepted edit.")


def gen(i, rng, tier):
    fw = fixed_walks()
    if i < len(fw):
        return {"cfg": fw[i], "mode": "prefix"}
    if i % 8 == 0:
        cfg = long_cfg(rng)
        return {"cfg": cfg, "mode": "window", "at": windows(rng, cfg["steps"], 4 if tier == "quick" else 20)}
    r = rng.random()
    if r < 0.75:
        return {"cfg": rand_cfg(rng, max_steps=40 if tier == "thorough" else 22), "mode": "prefix"}
    if r < 0.9:
        cfg = rand_cfg(rng, n=rng.choice([1, 1, 2, 2, 3]))
        cfg["steps"] = rng.choice([60, 100, 160] if tier == "quick" else [60, 160, 400, 900])
        cfg["append_p"] = rng.choice([0.5, 0.5, 0.7, 0.9])
        cfg["rate"] = rng.choice([0.0, 0.0, 0.1, 0.01])
        return {"cfg": cfg, "mode": "long"}
    return {"cfg": rand_rav(rng), "mode": "rav"}


def run(plan, w):
    cfg = plan["cfg"]
    if plan["mode"] == "rav":
        rv = Rav(w, cfg)
        res = rv.run()
        ents = check_product(res.compiled_sequence, rv.n, len(res.cost_by_step))
        costs = costs_of(res)
        check_range(costs)
        if costs:
            d = refs.dist(product(ents, rv.n), refs.np.eye(2 ** rv.n))
            if not abs(d - costs[-1]) < cost_tol(len(costs)):
                raise Violation("false-cost", "RAV reports final cost %.12g, the whole sequence is at distance %.12g "
                                "from the identity" % (costs[-1], d))
        w.log([e.text for e in ents], costs)
        return {"nontrivial": bool(ents)}
    walk = Walk(w, cfg)
    res = walk.run()
    if plan["mode"] == "prefix":
        states, costs = walk.prefixes(res)
        check_truth(walk, res, states, costs)
        log_walk(w, states, costs)
        return {"nontrivial": moves(states) > 0}
    costs = costs_of(res)
    if plan["mode"] == "window":
        for j, (s, c) in sorted(walk.window(res, plan["at"]).items()):
            if len(c) != j:
                raise Violation("wrong-count", "a search limited to %d steps reports %d costs" % (j, len(c)))
            d = walk.dist(s)
            if j and not (abs(costs[j - 1] - d) < cost_tol(j) and abs(c[-1] - d) < cost_tol(j)):
                raise Violation("false-cost", "step %d reports cost %.12g, a search limited to it %.12g, its sequence is at "
                                "distance %.12g" % (j, costs[j - 1], c[-1], d))
            w.log(j, d)
    ents = check_product(res.compiled_sequence, walk.n, len(costs))
    check_range(costs)
    if costs:
        d = refs.dist(walk.tm, product(ents, walk.n))
        if not abs(d - costs[-1]) < cost_tol(len(costs)):
            raise Violation("false-cost", "final cost %.12g reported, the sequence is at distance %.12g"
                            % (costs[-1], d))
    # every cost belongs to some state; costs never change without an edit: spot-check three prefixes
    for j in {len(costs) // 3, len(costs) // 2, len(costs) - 1}:
        if j > 0:
            r = walk.run(steps=j)
            d = refs.dist(walk.tm, product(read(r.compiled_sequence, walk.n), walk.n))
            if not abs(d - costs[j - 1]) < cost_tol(j):
                raise Violation("false-cost", "step %d reports cost %.12g but its sequence is at distance %.12g"
                                % (j, costs[j - 1], d))
    w.log(len(ents), costs[-5:])
    return {"nontrivial": len(set(costs)) > 1}


def shrink(plan):
    if plan["mode"] == "rav":
        for c in shrink_rav(plan["cfg"]):
            yield dict(plan, cfg=c)
    else:
        for c in shrink_cfg(plan["cfg"]):
            yield dict(plan, cfg=c)
