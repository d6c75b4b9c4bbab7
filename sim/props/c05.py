import itertools

from ..gates import prim_qubits, Ctx, GateSet, rand_counts, rand_prims, rand_probs, usable
from ..rav import Rav, rand_rav, shrink_rav
from ..walk import Walk, fixed_walks, rand_cfg, rand_entropy, rand_n, shrink_cfg
from ..walkchecks import assign, check_entries
from ..world import Violation, reseed

from stoqcompiler.compiler import Compiler

ID = "C05"
TITLE = "Generated sequences contain only gates the user allowed"
QUICK, THOROUGH = 4000, 80000
RULE = ("One run is one compilation, RAV, layered RAV or XEB generation, or a batch of random entries or layers, of a "
        "random configuration (placement restrictions, gates without placements, parameter ranges, probabilities, "
        "hostile entropy); each entry is matched against the configured gates by an independent matrix model. "
        "Non-trivial: the output has at least one entry.")


def gen(i, rng, tier):
    fw = fixed_walks()
    if i < len(fw):
        return {"cfg": fw[i], "mode": "compile"}
    r = rng.random()
    if rng.random() < 0.12:
        return outside(rng)
    if rng.random() < 0.15:
        return same_names(rng)
    if r < 0.45:
        cfg = rand_cfg(rng, max_steps=60, empty=0.12)
        cfg["entropy"] = rand_entropy(rng, 0.35)
        if rng.random() < 0.5:
            cfg["append_p"] = rng.choice([0.8, 1.0])
            cfg["rate"] = 0.0
        return {"cfg": cfg, "mode": "compile"}
    if r < 0.7:
        cfg = rand_rav(rng, empty=0.12)
        cfg["entropy"] = rand_entropy(rng, 0.35)
        return {"cfg": cfg, "mode": "rav"}
    n = rand_n(rng)
    prims = rand_prims(rng, n, lo=1, hi=5, empty=0.15)
    cfg = {"n": n, "prims": prims, "probs": rand_probs(rng, prims), "counts": rand_counts(rng, prims),
           "entropy": rand_entropy(rng, 0.4), "seed": rng.randrange(2 ** 31), "draws": rng.choice([5, 20, 60]),
           "container": "ndarray" if rng.random() < 0.2 else "list"}
    return {"cfg": cfg, "mode": "entry" if rng.random() < 0.7 else "layer"}


def same_names(rng):
    """Several different gates that share a name (and size), each with its own placements."""
    n = rng.choice([2, 2, 3])
    q = rng.choice([1, 1, 2])
    places = [list(x) for x in itertools.permutations(range(n), q)]
    rng.shuffle(places)
    k = rng.randint(2, min(4, len(places)))
    cut = sorted(rng.sample(range(1, len(places)), k - 1)) if rng.random() < 0.3 else list(range(1, k))
    parts = [places[a:b] for a, b in zip([0] + cut, cut + [len(places)])]
    if cut == list(range(1, k)):
        parts = [p[:1] for p in parts]
    kind = rng.choice(["haar", "tev", "probe"])
    prims = []
    for p in parts:
        if kind == "haar":
            prims.append({"k": "fixed", "g": ["haar", 2 ** q, rng.randrange(10 ** 6)], "apply": p})
        elif kind == "tev":
            prims.append({"k": "tev", "d": 2 ** q, "h": 7, "t0": round(rng.uniform(-2, 0), 3), "t1": round(rng.uniform(0.1, 2), 3),
                          "apply": p})
        else:
            a = round(rng.uniform(0, 3), 3)
            f = "zrot" if q == 1 else "cry"
            prims.append({"k": "probe", "f": f, "name": "same", "params": [["t", a, a + round(rng.uniform(0.1, 1), 3), False]], "apply": p})
    base = {"n": n, "prims": prims, "probs": rand_probs(rng, prims), "entropy": None, "seed": rng.randrange(2 ** 31), "container": "list"}
    mode = rng.choice(["entry", "layer", "compile", "rav"])
    if mode == "compile":
        return {"mode": mode, "cfg": dict(rand_cfg(rng, max_steps=40), n=n, prims=prims, probs=base["probs"], layered=False,
                                          counts=None, target=["haar", rng.randrange(10 ** 5)], append_p=1.0, rate=0.0)}
    if mode == "rav":
        return {"mode": mode, "cfg": dict(rand_rav(rng, mode="rav", n=n), prims=prims, probs=base["probs"], length=12)}
    return {"mode": mode, "cfg": dict(base, counts=[rng.choice([1, 2]) for _ in prims], draws=20)}


def outside(rng):
    """Gates that may only act on qubits the system does not have, or has only in part."""
    mode = rng.choice(["compile", "compile", "rav"])
    if mode == "compile":
        cfg = rand_cfg(rng, max_steps=20)
    else:
        cfg = rand_rav(rng, max_steps=12)
        cfg["length"] = max(1, cfg["length"])
    n = cfg["n"]
    prims = cfg["prims"]
    for j in range(len(prims)):
        if j == 0 or rng.random() < 0.3:
            q = prim_qubits(prims[j])
            lists = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                top = rng.choice([n, n + 1, n + 2])
                lists.append(rng.sample(range(top), min(q, top)))
            if rng.random() < 0.5:
                lists = [[x + (n + 2 if k == 0 else 0) for k, x in enumerate(lst)] for lst in lists]
            prims[j]["apply"] = lists
    if cfg.get("probs"):
        cfg["probs"] = None
    if cfg.get("target", [""])[0] in ("word", "near"):
        cfg["target"] = ["haar", 3]
    return {"cfg": cfg, "mode": mode, "outside": True}


def run(plan, w):
    cfg = plan["cfg"]
    if plan.get("outside"):
        s = (Walk if plan["mode"] == "compile" else Rav)(w, cfg)
        out = s.start()
        if out.hang:
            raise Violation("hang", "a gate that may only act outside the system makes the call run forever")
        if not out.ok:
            w.log("refused", type(out.exc).__name__)
            return {"nontrivial": True}
        m = check_entries(s.gs, out.value.compiled_sequence)
        w.log([x[0][0] for x in m])
        return {"nontrivial": bool(m)}
    if plan["mode"] == "compile":
        walk = Walk(w, cfg)
        res = walk.run()
        m = check_entries(walk.gs, res.compiled_sequence)
        gs = walk.gs
    elif plan["mode"] == "rav":
        rv = Rav(w, cfg)
        res = rv.run()
        m = check_entries(rv.gs, res.compiled_sequence)
        gs = rv.gs
    else:
        gs = GateSet(cfg["prims"], cfg["n"], Ctx(w))
        reseed(cfg["seed"], cfg["entropy"])
        m = []
        cont = gs.container(cfg["container"])
        counts = gs.counts(cfg["counts"])
        for _ in range(cfg["draws"]):
            if plan["mode"] == "entry":
                e = w.must("drawing a random entry", Compiler.create_random_sequence_entry, 2 ** cfg["n"], cont,
                           None if cfg["probs"] is None else list(cfg["probs"]))
                m.append(gs.match(e))
            else:
                layer = list(w.must("drawing a random layer", Compiler.create_random_layer, 2 ** cfg["n"], counts))
                lm = [gs.match(e) for e in layer]
                if not assign([set(i for i, _ in x) for x in lm], cfg["counts"]):
                    raise Violation("wrong-layer", "a random layer does not have the configured counts %s"
                                    % cfg["counts"])
                m.extend(lm)
    probs = None if plan["mode"] == "layer" else cfg.get("probs")
    for x in m:
        if all(not usable(cfg["prims"][i]) for i, _ in x):
            raise Violation("not-allowed", "a gate without any permitted placement was used")
        if probs is not None and all(probs[i] == 0 for i, _ in x):
            raise Violation("zero-probability", "gate %s with probability 0 was used" % gs.names[x[0][0]])
    w.log([(x[0][0], x[0][1]) for x in m])
    w.probes["entries_matched"] += len(m)
    return {"nontrivial": bool(m)}


def shrink(plan):
    cfg = plan["cfg"]
    if plan.get("outside"):
        for s in (0, 1, 2, 5):
            if s < cfg["steps"]:
                yield dict(plan, cfg=dict(cfg, steps=s))
    elif plan["mode"] == "compile":
        for c in shrink_cfg(cfg):
            yield dict(plan, cfg=c)
    elif plan["mode"] == "rav":
        for c in shrink_rav(cfg):
            yield dict(plan, cfg=c)
    else:
        for d in (1, 2, cfg["draws"] // 2):
            if 0 < d < cfg["draws"]:
                yield dict(plan, cfg=dict(cfg, draws=d))
        if cfg["entropy"]:
            yield dict(plan, cfg=dict(cfg, entropy=None))
        if plan["mode"] == "entry" and cfg["probs"]:
            yield dict(plan, cfg=dict(cfg, probs=None))
