import math

import numpy as np

from .. import refs
from ..gates import Ent, product, read
from ..rav import Rav, rand_rav, shrink_rav
from ..stats import ALPHA, Group
from ..walkchecks import check_entries, cost_tol, costs_of, must_not_stop, must_stop, step_kind
from ..world import Violation

ID = "C08"
TITLE = "A RAV sequence is a random part followed by its compiled inverse"
QUICK, THOROUGH = 1000, 40000
RULE = ("One run is one RAV or layered RAV generation, compared with random-only generation from the same random state "
        "and re-run for smaller step limits; or a batch of one-step generations whose outcome frequencies are "
        "compared with the given append and gate probabilities. Non-trivial: the inverse part is not empty.")


def gen(i, rng, tier):
    if i % 8 == 7:
        n = rng.choice([1, 2])
        layered = rng.random() < 0.35
        k = 1 if layered else rng.choice([1, 2, 2])
        cfg = {"mode": "lrav" if layered else "rav", "n": n, "container": "list", "probs": None,
               "prims": [{"k": "fixed", "g": ["haar", 2 ** n, rng.randrange(10 ** 6)],
                          "apply": [list(range(n))]} for _ in range(k)],
               "length": rng.choice([0, 1, 2]), "threshold": None,
               "append_p": rng.choice([0.5, 0.8, 0.2, 1.0, 0.0]), "steps": 1, "entropy": None,
               "seed": rng.randrange(2 ** 31)}
        if k == 2:
            p = rng.choice([0.0, 0.1, 0.3, 0.5, 0.75, 1.0])
            if i % 16 == 15:         # a rare gate
                p = rng.choice([0.008, 0.02, 0.04])
                cfg["append_p"] = 1.0
                cfg["length"] = min(1, cfg["length"])
            cfg["probs"] = [p, 1 - p]
        if layered:
            cfg.update(layered=True, counts=[rng.choice([1, 2])])
        draws = 300 if tier == "quick" else 1500
        if cfg["probs"] and 0 < min(cfg["probs"]) < 0.05:
            draws = int(max(draws, 34 / min(cfg["probs"])))
        return {"mode": "stat", "cfg": cfg, "draws": draws}
    cfg = rand_rav(rng, mode=rng.choice(["rav", "rav", "lrav"]), max_steps=24 if tier == "quick" else 60)
    if rng.random() < 0.1:
        cfg["length"] = rng.choice([20, 25, 33, 50, 70]) if cfg["mode"] == "rav" else rng.choice([10, 16, 30])
        cfg["steps"] = min(cfg["steps"], 5)
    if rng.random() < 0.4:
        cfg["threshold"] = rng.choice([0.3, 0.5, 0.6])
        cfg["steps"] = 60
    return {"mode": "one", "cfg": cfg}


def run(plan, w):
    cfg = plan["cfg"]
    return stat(plan, w) if plan["mode"] == "stat" else one(plan, w)


def one(plan, w):
    cfg = plan["cfg"]
    rv = Rav(w, cfg)
    n = rv.n
    th = cfg["threshold"]
    skip = rv.run(threshold=0.0)
    head = read(skip.compiled_sequence, n)
    res = rv.run()
    ents = read(res.compiled_sequence, n)
    L = cfg["length"] * rv.unit
    costs = costs_of(res)
    k = len(costs)
    if len(ents) < L:
        raise Violation("random-part", "%d entries, but %d random ones were asked for" % (len(ents), L))
    for j in range(L):
        if not ents[j].same(head[j]) or ents[j].text != head[j].text:
            raise Violation("random-part", "entry %d is %s; random-only generation from the same random state gives %s"
                            % (j, ents[j].text, head[j].text))
    if k > cfg["steps"]:
        raise Violation("too-many-steps", "%d search steps with a limit of %d" % (k, cfg["steps"]))
    check_entries(rv.gs, res.compiled_sequence)
    d = refs.dist(product(ents, n), np.eye(2 ** n))
    if costs and not abs(costs[-1] - d) < cost_tol(k):
        raise Violation("false-cost", "last cost %.12g, but the whole sequence is at distance %.12g from the identity"
                        % (costs[-1], d))
    if k < cfg["steps"] and must_not_stop(d, th):
        raise Violation("stopped-early", "the search stopped after %d of %d steps at distance %.6g, threshold %r"
                        % (k, cfg["steps"], d, th))
    # the search, step by step
    prev = ents[:L]
    tail_prev = []
    for j in list(range(1, k)) if k <= 24 else [1, 2, k // 2, k - 2, k - 1]:
        r = rv.run(steps=j)
        e = read(r.compiled_sequence, n)
        tail = e[L:]
        dj = refs.dist(product(e, n), np.eye(2 ** n))
        if must_stop(dj, th):
            raise Violation("ran-on", "after %d search steps the distance was %.3g, within threshold %r" % (j, dj, th))
        if not abs(dj - costs[j - 1]) < cost_tol(j):
            raise Violation("false-cost", "search step %d reports %.12g, the sequence is at distance %.12g"
                            % (j, costs[j - 1], dj))
        if k <= 24:
            kind = step_kind(tail_prev, tail, rv.unit) if rv.unit else "same"
            if kind is None:
                raise Violation("illegal-step", "search step %d turned %s into %s"
                                % (j, [x.text for x in tail_prev], [x.text for x in tail]))
            if (cfg["append_p"] == 1.0 and kind[0] == "-") or (cfg["append_p"] == 0.0 and kind[0] == "+"):
                raise Violation("append-probability", "search step %d made the edit %s with append probability %s"
                                % (j, kind, cfg["append_p"]))
            tail_prev = tail
    del prev
    if cfg["append_p"] == 0.0 and len(ents) > L:
        raise Violation("append-probability", "%d entries were added with append probability 0" % (len(ents) - L))
    if cfg.get("probs"):
        m = check_entries(rv.gs, res.compiled_sequence)
        for x in m:
            if all(cfg["probs"][i] == 0 for i, _ in x):
                raise Violation("gate-probability", "gate %s of probability 0 was used" % rv.gs.names[x[0][0]])
    w.log([e.text for e in ents], costs)
    return {"nontrivial": len(ents) > L}


def stat(plan, w):
    """One-step searches: frequencies of what the first step does."""
    cfg = plan["cfg"]
    rv = Rav(w, cfg)
    n = rv.n
    d = 2 ** n
    mats = [refs.gate(p["g"]) for p in cfg["prims"]]
    if cfg["mode"] == "lrav":
        mats = [np.linalg.matrix_power(mats[0], cfg["counts"][0])]
    pg = cfg["probs"] or [1.0 / len(mats)] * len(mats)
    groups = [Group() for _ in mats]
    L = cfg["length"] * rv.unit
    for b in range(plan["draws"]):
        res = rv.run(seed=(cfg["seed"] + 31337 * b) % 2 ** 31)
        ents = [Ent(e, n) for e in res.compiled_sequence.get_sequence_entries()]
        m = product(ents[:L], n)
        if must_stop(refs.dist(m, np.eye(d)), cfg["threshold"]):
            if len(ents) != L or len(res.cost_by_step):
                raise Violation("ran-on", "the random part is already the identity but a search was done")
            continue
        c0 = refs.dist(m, np.eye(d))
        names = [tuple(e.apply) for e in ents[L:]]
        tail = ents[L:]
        if len(tail) not in (0, rv.unit):
            raise Violation("illegal-step", "one search step produced %d entries" % len(names))
        for g, mg in enumerate(mats):
            c1 = refs.dist(mg @ m, np.eye(d))
            p = cfg["append_p"] * pg[g] * min(1.0, math.exp(-0.1 * (c1 - c0)))
            hit = bool(tail) and refs.phase_diff(product(tail, n), mg) < 1e-7
            if hit and p == 0:
                raise Violation("impossible-outcome", "gate %d was added with append probability %s and gate "
                                "probability %s" % (g, cfg["append_p"], pg[g]))
            groups[g].add(hit, p)
    for g, gr in enumerate(groups):
        w.log(g, gr.n, gr.s, gr.e)
        if gr.tail() < ALPHA:
            raise Violation("wrong-search-settings", "gate %d was added in %d of %d first steps; append probability %s "
                            "and gate probability %s give %.1f +- %.1f" % (g, gr.s, gr.n, cfg["append_p"], pg[g],
                                                                          gr.e, math.sqrt(gr.v)))
    return {"nontrivial": any(g.s for g in groups)}


def shrink(plan):
    if plan["mode"] == "stat":
        for b in (1, 5, 25, 100, plan["draws"] // 2):
            if 0 < b < plan["draws"]:
                yield dict(plan, draws=b)
        return
    for c in shrink_rav(plan["cfg"]):
        yield dict(plan, cfg=c)
