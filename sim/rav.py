"""Simulated RAV / layered RAV / XEB generation."""
import numpy as np

from .gates import Ctx, GateSet, rand_counts, rand_prims, rand_probs
from .walk import rand_entropy, rand_n, shrink_cfg
from .world import Violation, reseed

from stoqcompiler.verification import Verification

BASE, PER = 300000, 2500


def rand_rav(rng, mode=None, max_steps=40, **kw):
    n = kw.pop("n", None) or min(3, rand_n(rng))
    prims = rand_prims(rng, n, **kw)
    mode = mode or rng.choice(["rav", "rav", "lrav", "lrav", "xeb"])
    cfg = {"mode": mode, "n": n, "prims": prims, "container": "ndarray" if rng.random() < 0.1 else "list",
           "probs": rand_probs(rng, prims) if mode == "rav" else None,
           "length": rng.choice([0, 1, 2, 3, 5, 8, 13]) if mode == "rav" else rng.choice([0, 1, 2, 3, 5]),
           "threshold": rng.choice([None, 1.0, 0.999, 0.9, 0.7, 0.5, 0.3, 0.1, rng.random()]),
           "append_p": rng.choice([0.5, 0.5, 0.8, 0.3, 1.0, 0.0]),
           "steps": rng.choice([1, 2, 5, 10, max_steps]), "entropy": rand_entropy(rng),
           "seed": rng.randrange(2 ** 31)}
    if mode != "rav":
        cfg["counts"] = rand_counts(rng, prims)
        cfg["layered"] = True
    return cfg


class Rav:
    def __init__(self, world, cfg):
        self.world, self.cfg = world, cfg
        self.n = cfg["n"]
        self.d = 2 ** self.n
        self.ctx = Ctx(world)
        self.gs = GateSet(cfg["prims"], self.n, self.ctx)
        self.container = self.gs.container(cfg.get("container", "list"))
        self.probs = None if cfg.get("probs") is None else list(cfg["probs"])
        self.counts = self.gs.counts(cfg["counts"]) if cfg.get("counts") else None
        self.unit = sum(cfg["counts"]) if cfg.get("counts") else 1

    def start(self, threshold="cfg", steps="cfg", seed=None, budget=None, fault=None, keep_entropy=False,
              length=None):
        c = self.cfg
        th = c["threshold"] if threshold == "cfg" else threshold
        st = c["steps"] if steps == "cfg" else steps
        ln = c["length"] if length is None else length
        if not keep_entropy:
            reseed(c["seed"] if seed is None else seed, c.get("entropy"))
        if budget is None:
            budget = BASE + PER * (self.unit + 3) * (st + 1 + ln)
        if c["mode"] == "rav":
            return self.world.call(Verification.generate_rav_sequence, self.d, self.container, ln, th,
                                   c["append_p"], self.probs, st, budget=budget, fault=fault)
        if c["mode"] == "lrav":
            return self.world.call(Verification.generate_layered_rav_sequence, self.d, self.counts, ln, th,
                                   c["append_p"], st, budget=budget, fault=fault)
        return self.world.call(Verification.generate_xeb_sequence, self.d, self.counts, ln,
                               budget=budget, fault=fault)

    def run(self, **kw):
        out = self.start(**kw)
        if out.hang:
            raise Violation("hang", "the generation did not finish within its step budget")
        if not out.ok:
            raise Violation("unexpected-error", "the generation failed: %r" % out)
        return out.value


def shrink_rav(cfg):
    for ln in sorted({0, 1, cfg["length"] // 2, cfg["length"] - 1}):
        if 0 <= ln < cfg["length"]:
            yield dict(cfg, length=ln)
    for c in shrink_cfg(dict(cfg, target=["id"], rate=0.1)):
        c.pop("target", None)
        c.pop("rate", None)
        yield c


_ = np
