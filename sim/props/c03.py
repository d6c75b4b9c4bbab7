import collections

from ..walk import Walk, fixed_walks, long_cfg, rand_cfg, shrink_cfg, windows
from ..walkchecks import check_edits, log_walk, moves, unit_of
from ..world import Violation

ID = "C03"
TITLE = "Every search step is one legal edit, or leaves the sequence unchanged"
QUICK, THOROUGH = 600, 60000
RULE = ("One run is one compilation of a random configuration, re-run for every smaller step limit from the same "
        "random state; consecutive states are compared entry by entry. Non-trivial: at least one accepted edit.")


def gen(i, rng, tier):
    fw = fixed_walks()
    if i < len(fw):
        return {"cfg": fw[i]}
    if i % 5 == 0:
        cfg = long_cfg(rng)
        if rng.random() < 0.4:      # gates that do nothing are gates too
            cfg["prims"] = cfg["prims"][:2] + [{"k": "fixed", "g": ["id", 2], "apply": None}]
            cfg["probs"] = None
            if cfg.get("counts"):
                cfg["counts"] = [1] * len(cfg["prims"])
        return {"cfg": cfg, "at": windows(rng, cfg["steps"], 5 if tier == "quick" else 20)}
    cfg = rand_cfg(rng, max_steps=44 if tier == "thorough" else 24)
    if rng.random() < 0.5:
        cfg["threshold"] = None
        cfg["append_p"] = rng.choice([0.5, 0.6, 0.75])
        cfg["rate"] = rng.choice([0.0, 0.1, 0.5, 5.0])
    if i % 10 == 3:      # gates next to their own inverses, additions only or removals from nothing
        n = cfg["n"] = rng.choice([1, 1, 2])
        names = [["h"], ["x"], ["z"], ["t"], ["cnot"], ["id", 4]][:4 if n == 1 else 6]
        cfg.update(prims=[{"k": "fixed", "g": g, "apply": None} for g in rng.sample(names, rng.choice([1, 2, 3]))], probs=None,
                   append_p=rng.choice([1.0, 1.0, 0.9, 0.0]), rate=rng.choice([0.0, 0.0, 0.1]), threshold=None, entropy=None,
                   target=["haar", rng.randrange(10 ** 6)], layered=False, steps=rng.choice([12, 24]))
        cfg.pop("counts", None)
    return {"cfg": cfg}


def possible(cfg, kind, step):
    """A search that never proposes additions cannot add, and one that only proposes additions cannot remove."""
    if cfg.get("entropy") is None and ((cfg["append_p"] == 1.0 and kind[0] == "-") or (cfg["append_p"] == 0.0 and kind[0] == "+")):
        raise Violation("illegal-step", "step %d is the edit %s although the probability of an addition is %r"
                        % (step, kind, cfg["append_p"]))


def run(plan, w):
    cfg = plan["cfg"]
    walk = Walk(w, cfg)
    res = walk.run()
    if "at" in plan:
        return run_window(plan, w, walk, res)
    states, costs = walk.prefixes(res)
    unit = unit_of(cfg)
    kinds = check_edits(walk, states, unit)
    for k, n in collections.Counter(kinds).items():
        w.probes["step " + k] += n
    for j, k in enumerate(kinds):
        possible(cfg, k, j + 1)
    for j, k in enumerate(kinds):
        if k == "same" and j and unit and abs(costs[-1][j] - costs[-1][j - 1]) > 1e-9:
            raise Violation("cost-without-edit", "step %d left the sequence as it was but the cost went from %.12g "
                            "to %.12g" % (j + 1, costs[-1][j - 1], costs[-1][j]))
    log_walk(w, states, costs)
    return {"nontrivial": moves(states) > 0}


def run_window(plan, w, walk, res):
    got = walk.window(res, plan["at"])
    unit = unit_of(plan["cfg"])
    moved = 0
    for j in sorted(got):
        if j - 1 in got:
            try:
                k = check_edits(walk, [got[j - 1][0], got[j][0]], unit)[0]
            except Violation as e:
                raise Violation(e.kind, "(step %d) %s" % (j, e.detail[-600:]))
            possible(plan["cfg"], k, j)
            moved += k != "same"
            if k == "same" and j > 1 and unit and abs(got[j][1][-1] - got[j - 1][1][-1]) > 1e-9:
                raise Violation("cost-without-edit", "step %d left the sequence as it was but its cost changed" % j)
            w.log(j, len(got[j][0]), k)
    return {"nontrivial": moved > 0}


def shrink(plan):
    if "at" in plan:
        for j in plan["at"]:
            if j + 1 in plan["at"] and len(plan["at"]) > 2:
                yield dict(plan, at=[j, j + 1])
        return
    for c in shrink_cfg(plan["cfg"]):
        yield dict(plan, cfg=c)
