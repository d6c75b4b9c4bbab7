import itertools
import math

import numpy as np

from .. import refs
from ..gates import same_list
from ..stats import ALPHA, Group
from ..walk import Walk, rand_cfg, shrink_cfg
from ..walkchecks import log_walk, moves
from ..world import Violation

ID = "C04"
TITLE = "Proposals are accepted by the annealed Metropolis rule"
QUICK, THOROUGH = 240, 8000
RULE = ("Tracking runs: a bundle of long searches over fixed gates whose costs identify every accepted edit; the "
        "harness follows the state and knows the exact probability of each outcome of each step; sums over a bundle "
        "are compared with Freedman bounds (1e-10), and an outcome of probability below 1e-12 is an immediate "
        "violation. Reconstruction runs: every intermediate state of a search over arbitrary gates, each accepted "
        "edit judged. Non-trivial: at least one accepted edit and one step that changed nothing.")


def cap(n):
    d = 2 ** n
    return float((2 ** d) ** 2)


def gen(i, rng, tier):
    if i % 5 < 3:
        n = rng.choice([1, 1, 1, 2, 2, 3]) if i > 5 else [1, 2, 3, 1, 2, 3][i % 6]
        if i % 40 in (15, 16):
            n = min(n, 2)
        q = rng.choice([1, 1, 2]) if n > 1 else 1
        layered = rng.random() < 0.4
        kind = rng.choice(["chain", "chain", "multi"])
        prims = []
        for g in range(1 if kind == "chain" else rng.choice([2, 3])):
            ap = list(range(n))
            rng.shuffle(ap)
            prims.append({"k": "fixed", "g": ["haar", 2 ** q, rng.randrange(10 ** 6)], "apply": [ap[:q]]})
        c = {"n": n, "prims": prims, "probs": None, "container": "list", "layered": layered,
             "append_p": rng.choice([0.5, 0.5, 0.5, 0.7, 0.35, 1.0]),
             "rate": rng.choice([0.0, 0.01, 0.03, 0.1, 0.1, 0.3, 1.0, 50.0, 1e4]),
             "target": ["haar", rng.randrange(10 ** 6)], "threshold": None, "steps": rng.choice([60, 150, 300]),
             "entropy": None, "seed": rng.randrange(2 ** 31)}
        if layered:
            # a layer's product is known up to the order of its gates
            c["counts"] = [rng.choice([1, 2, 3])] if len(prims) == 1 else \
                rng.choice([[1, 1, 1], [2, 1, 0], [1, 1, 0], [0, 1, 2], [1, 1, 1]])[:len(prims)]
            if sum(c["counts"]) == 0:
                c["counts"] = [1] * len(prims)
        if i % 10 in (1, 5, 7):      # costs near 0 occur, and small increases from there
            word = [] if rng.random() < 0.6 else [[0, [], prims[0]["apply"][0]]]
            c["target"] = ["near", word, rng.randrange(1000), 10 ** rng.uniform(-1.6, -0.4)]
            c["rate"] = rng.choice([0.0, 0.003, 0.01, 0.03, 0.1])
            if i % 20 == 11:         # tiny increases, judged at high inverse temperatures
                n = c["n"] = rng.choice([2, 3, 3])
                prims[:] = [{"k": "fixed", "g": ["haar", 2 ** q, 0], "apply": [rng.sample(range(n), q)]}
                            for q in [rng.choice([1, 2])] for _ in prims]
                prims[:] = [small_gate(rng, p, 10 ** rng.uniform(-1.7, -0.3)) for p in prims]
                c["rate"] = rng.choice([3.0, 50.0, 1e4, 1e4])
                c["target"] = ["near", [[0, [], prims[0]["apply"][0]]] * rng.choice([0, 1, 3]), rng.randrange(1000),
                               10 ** rng.uniform(-2, -0.5)]
            elif rng.random() < 0.5:
                prims[:] = [small_gate(rng, p) for p in prims]
                if n > 1 and rng.random() < 0.5:
                    c["rate"] = rng.choice([0.3, 1.0, 50.0, 1e4])
        elif i % 10 == 2:            # the cold end of very long searches
            c["steps"] = 700
            c["rate"] = rng.choice([0.03, 0.1, 0.3, 1.0, 50.0])
            c["append_p"] = 0.5
        if c["append_p"] == 1.0:
            c["steps"] = min(c["steps"], 100)
        if i % 120 == 0:             # very many steps of one kind, for small deviations
            prims[:] = [{"k": "fixed", "g": ["haar", 2, rng.randrange(10 ** 6)], "apply": [[0]]}]
            c.update(n=1, layered=False, target=["haar", rng.randrange(10 ** 6)], rate=rng.choice([0.1, 0.2, 0.4]),
                     steps=rng.choice([15, 25]), append_p=0.5)
            c.pop("counts", None)
            return {"mode": "track", "cfg": c, "bundle": (36000 if tier == "quick" else 90000) // c["steps"]}
        if i % 40 in (15, 16):       # many steps at rates where increases are neither rare nor frequent
            c.update(rate=rng.choice([0.05, 0.1, 0.2]), steps=rng.choice([60, 100]), append_p=rng.choice([0.5, 0.5, 0.7, 0.35]))
            return {"mode": "track", "cfg": c, "bundle": (7000 if tier == "quick" else 20000) // c["steps"]}
        total = (2100 if c["steps"] == 700 else 900) if tier == "quick" else 3000
        return {"mode": "track", "cfg": c, "bundle": max(2, total // c["steps"])}
    if i % 10 in (4, 8):         # the first steps of many searches, at a rate where they matter
        n = rng.choice([1, 1, 2])
        gates = rng.choice([1, 1, 2])
        c = {"n": n, "prims": [{"k": "fixed", "g": ["haar", 2 ** n, rng.randrange(10 ** 6)],
                                "apply": [rng.sample(range(n), n)]} for _ in range(gates)],
             "probs": None, "container": "list", "layered": rng.random() < 0.5, "append_p": rng.choice([0.5, 0.7, 0.9, 1.0]),
             "rate": 10 ** rng.uniform(-0.3, 1.3), "threshold": None, "steps": rng.choice([1, 2, 3, 5]), "entropy": None,
             "target": ["near", [], rng.randrange(1000), 10 ** rng.uniform(-1.3, -0.4)], "seed": rng.randrange(2 ** 31)}
        if c["layered"]:
            c["counts"] = [1] * gates
        return {"mode": "track", "cfg": c, "bundle": (700 if tier == "quick" else 2500) // c["steps"]}
    cfg = rand_cfg(rng, max_steps=20)
    cfg["rate"] = rng.choice([1.0, 100.0, 1e4, 1e6, 0.1])
    cfg["threshold"] = None
    cfg["entropy"] = None       # a uniform draw of exactly 0 accepts anything
    if rng.random() < 0.5:
        cfg["append_p"] = 0.5
    return {"mode": "states", "cfg": cfg}


def small_gate(rng, p, size=None):
    """A gate near the identity, so that increases are small and often accepted."""
    return dict(p, g=["tev", p["g"][1], rng.randrange(1000), size or rng.uniform(0.1, 0.6)])


def metropolis(beta, delta):
    x = -beta * delta
    return 1.0 if x >= 0 else math.exp(max(x, -800))


def run(plan, w):
    return track(plan, w) if plan["mode"] == "track" else by_states(plan, w)


def by_states(plan, w):
    cfg = plan["cfg"]
    walk = Walk(w, cfg)
    res = walk.run()
    states, costs = walk.prefixes(res)
    ds = [walk.dist(s) for s in states]
    acc = 0
    for j in range(1, len(states)):
        beta = min(j * cfg["rate"], cap(walk.n))
        delta = ds[j] - ds[j - 1]
        if not same_list(states[j], states[j - 1]):
            acc += 1
            if beta * (delta - 1e-9) > 30:
                raise Violation("impossible-accept", "step %d accepted a cost increase of %.4g at beta %.4g "
                                "(probability %.1e)" % (j, delta, beta, metropolis(beta, delta)))
        elif cfg["rate"] == 0 and cfg["append_p"] == 1.0 and (not walk.counts or sum(walk.counts.values())):
            raise Violation("impossible-reject", "step %d rejected a proposal at beta 0" % j)
    log_walk(w, states, costs)
    return {"nontrivial": acc > 0 and moves(states) < len(states) - 1}


def layers(mats, counts, n):
    """The possible products of a random layer, with their probabilities."""
    orders = set(itertools.permutations([i for i, c in enumerate(counts) for _ in range(c)]))
    out, p = [], []
    for o in sorted(orders):
        m = np.eye(2 ** n, dtype=complex)
        for i in o:
            m = mats[i] @ m
        for j, x in enumerate(out):
            if np.max(np.abs(x - m)) < 1e-9:
                p[j] += 1.0 / len(orders)
                break
        else:
            out.append(m)
            p.append(1.0 / len(orders))
    return out, p


def track(plan, w):
    cfg = plan["cfg"]
    walk = Walk(w, cfg)
    n = walk.n
    mats = [refs.embed(refs.gate(p["g"]), p["apply"][0], n) for p in cfg["prims"]]
    td = walk.tm.conj().T
    pa = cfg["append_p"]
    pg = [1.0 / len(mats)] * len(mats)
    if cfg["layered"]:
        mats, pg = layers(mats, cfg["counts"], n)
    groups = {}
    tracked = acc = stay = ambiguous = 0
    d = 2 ** n

    def cost(m):
        return 1.0 - abs(np.einsum("ij,ji->", td, m)) / d

    def add(key, x, p):
        groups.setdefault(key, Group()).add(x, p)

    for b in range(plan["bundle"]):
        res = walk.run(seed=(cfg["seed"] + 7919 * b) % 2 ** 31)
        seq, m, c = [], np.eye(d, dtype=complex), cost(np.eye(d))
        streak = went = 0
        for k, seen in enumerate(res.cost_by_step, 1):
            beta = min(k * cfg["rate"], cap(n))
            # all proposals: (probability, kind, new sequence, matrix, cost)
            props = []
            for g, mg in enumerate(mats):
                for kind, s2, m2 in (("+f", [g] + seq, m @ mg), ("+l", seq + [g], mg @ m)):
                    props.append((pa / 2 * pg[g], kind, s2, m2))
            if seq:
                props.append(((1 - pa) / 2, "-f", seq[1:], m @ mats[seq[0]].conj().T))
                props.append(((1 - pa) / 2, "-l", seq[:-1], mats[seq[-1]].conj().T @ m))
            pstay = 1.0
            cand = []
            worse = {True: 0.0, False: 0.0}
            kinds = {}
            for p, kind, s2, m2 in props:
                if p == 0:
                    continue
                c2 = cost(m2)
                a = p * metropolis(beta, c2 - c)
                pstay -= a
                w_ = c2 > c
                worse[w_] += a
                kinds[kind[0]] = kinds.get(kind[0], 0.0) + a
                cand.append((c2, kind, s2, m2, a))
            hit = [x for x in cand if abs(x[0] - seen) < 2e-9]
            is_stay = abs(seen - c) < 2e-9
            distinct = []
            for x in hit:
                if not any(y[2] == x[2] for y in distinct):
                    distinct.append(x)
            if (is_stay and hit) or len(distinct) > 1:
                ambiguous += 1
                break
            if not is_stay and not hit:
                raise Violation("unexplained-step", "step %d went from cost %.12g to %.12g; no legal edit of %s "
                                "gives that" % (k, c, float(seen), seq))
            tracked += 1
            half = "early" if k <= cfg["steps"] // 2 else "late"
            pstay = min(1.0, max(0.0, pstay))
            moved_worse = (not is_stay) and distinct[0][0] > c
            ph = 0.0 if is_stay else sum(x[4] for x in hit)
            if is_stay and pstay < 1e-12:
                raise Violation("impossible-reject", "step %d rejected a proposal although every proposal is accepted "
                                "for certain (beta %.4g)" % (k, beta))
            if not is_stay and ph < 1e-12 and beta * (distinct[0][0] - c - 1e-9) > 25:
                raise Violation("impossible-accept", "step %d accepted a cost increase of %.4g at beta %.4g "
                                "(probability %.1e)" % (k, distinct[0][0] - c, beta, ph))
            add(("stay", half), is_stay, pstay)
            if k <= 5:
                add(("stay", "step %d" % k), is_stay, pstay)
            add(("accept a cost increase", half), moved_worse, worse[True])
            for part in ("costs up to %s" % next(x for x in (0.02, 0.1, 0.3, 0.6, 2.0) if c <= x),
                         "lengths up to %s" % next(x for x in (0, 1, 3, 7, 15, 10 ** 9) if len(seq) <= x)):
                add(("accept a cost increase", part), moved_worse, worse[True])
                add(("stay", part), is_stay, pstay)
            for what, x in (("unchanged", streak), ("changed", went)):
                for part in ["%s in the last %d steps" % (what, y) for y in (1, 2, 4, 8, 16) if x >= y]:
                    add(("accept a cost increase", part), moved_worse, worse[True])
                    add(("stay", part), is_stay, pstay)
            streak, went = (streak + 1, 0) if is_stay else (0, went + 1)
            if k > 200:
                add(("accept a cost increase", "steps from %d" % (k // 100 * 100)), moved_worse, worse[True])
            add(("accept no increase", half), (not is_stay) and not moved_worse, worse[False])
            for kd in kinds:
                add(("addition" if kd == "+" else "removal", "all"),
                    (not is_stay) and distinct[0][1][0] == kd, kinds[kd])
            if is_stay:
                stay += 1
            else:
                acc += 1
                c, _, seq, m, _ = distinct[0]
                c = cost(m)
    for key in sorted(groups):
        g = groups[key]
        w.log(key, g.n, g.s, g.e)
        if g.tail() < ALPHA:
            raise Violation("wrong-acceptance", "%s (%s steps): happened %d times in %d steps, the Metropolis rule "
                            "gives %.1f +- %.1f" % (key[0], key[1], g.s, g.n, g.e, math.sqrt(g.v)))
    w.probes["tracked_steps"] += tracked
    w.probes["ambiguous_stops"] += ambiguous
    return {"nontrivial": acc > 0 and stay > 0}


def shrink(plan):
    if plan["mode"] == "track":
        for b in (1, 2, plan["bundle"] // 2):
            if 0 < b < plan["bundle"]:
                yield dict(plan, bundle=b)
        for s in (1, 2, 5, plan["cfg"]["steps"] // 2):
            if s < plan["cfg"]["steps"]:
                yield dict(plan, cfg=dict(plan["cfg"], steps=s))
    else:
        for c in shrink_cfg(plan["cfg"]):
            yield dict(plan, cfg=c)
