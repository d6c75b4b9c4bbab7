import numpy as np

from ..rav import Rav, rand_rav, shrink_rav
from ..walk import Walk, rand_cfg, shrink_cfg
from ..walkchecks import check_layers
from ..world import Violation

ID = "C07"
TITLE = "Layered sequences are always made of whole layers"
QUICK, THOROUGH = 2200, 80000
RULE = ("One run is one layered compilation seen at every step limit, one layered RAV or one XEB generation of a "
        "random configuration. Non-trivial: the output has at least one layer.")


def gen(i, rng, tier):
    if rng.random() < 0.65:
        cfg = rand_cfg(rng, layered=True, max_steps=30 if tier == "thorough" else 18)
        if rng.random() < 0.5:
            cfg["rate"] = rng.choice([0.0, 0.05])
        if rng.random() < 0.6:
            cfg["threshold"] = None
        if i % 12 == 5:
            long_layers(rng, cfg)
        return {"cfg": cfg, "mode": "compile", "npc": rng.choice([None, None, None, "int64", "int32"])}
    cfg = rand_rav(rng, mode=rng.choice(["lrav", "lrav", "xeb"]))
    if i % 12 == 5:
        long_layers(rng, cfg)
        cfg["length"] = min(cfg["length"], 3)
    return {"cfg": cfg, "mode": "rav"}


def long_layers(rng, cfg):
    """Layers of many gates."""
    on = [j for j, c in enumerate(cfg["counts"]) if c]
    total = rng.choice([8, 9, 16, 17, 31, 32, 33, 34, 40, 64, 65])
    parts = [cfg["counts"][j] for j in on]
    while sum(parts) < total:
        parts[rng.randrange(len(parts))] += min(total - sum(parts), rng.choice([1, 3, 8, total]))
    cfg["counts"] = [parts[on.index(j)] if j in on else c for j, c in enumerate(cfg["counts"])]
    cfg["steps"] = min(cfg["steps"], 10)


def run(plan, w):
    cfg = plan["cfg"]
    if plan["mode"] == "compile":
        walk = Walk(w, cfg)
        if plan.get("npc"):      # counts that come out of numpy arrays
            walk.counts = {p: c if j % 3 == 2 else np.dtype(plan["npc"]).type(c) for j, (p, c) in enumerate(walk.counts.items())}
        res = walk.run()
        k = len(res.cost_by_step)
        sizes = []
        for j in range(k + 1):
            r = res if j == k else walk.run(steps=j)
            sizes.append(check_layers(walk.gs, r.compiled_sequence, cfg["counts"], "sequence after %d steps" % j))
        w.log(sizes, [float(c) for c in res.cost_by_step])
        return {"nontrivial": max(sizes) > 0}
    rv = Rav(w, cfg)
    res = rv.run()
    layers = check_layers(rv.gs, res.compiled_sequence, cfg["counts"], cfg["mode"] + " sequence")
    if layers < cfg["length"]:
        raise Violation("missing-layers", "%d layers in a sequence that begins with %d random ones"
                        % (layers, cfg["length"]))
    if cfg["mode"] == "xeb" and layers != cfg["length"]:
        raise Violation("extra-layers", "XEB sequence with %d layers instead of %d" % (layers, cfg["length"]))
    w.log(layers, res.compiled_sequence.get_display_output())
    return {"nontrivial": layers > 0}


def shrink(plan):
    if plan["mode"] == "compile":
        for c in shrink_cfg(plan["cfg"]):
            yield dict(plan, cfg=c)
    else:
        for c in shrink_rav(plan["cfg"]):
            yield dict(plan, cfg=c)
