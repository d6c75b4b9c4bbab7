"""Simulated compilations: configurations, runs, and the step-by-step reconstruction of a search."""
import numpy as np

from . import refs
from .gates import (Ctx, Ent, GateSet, PROBES, TOL, prim_matrix, prim_params, prim_qubits, product,
                    rand_counts, rand_prims, rand_probs, read, usable)
from .world import Violation, reseed, rng_for

from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import Unitary
from stoqcompiler.verification import Verification

COST_TOL = 1e-9
PER_STEP = 2500
BASE = 300000


def sample_values(rng, p):
    ps = prim_params(p)
    return [] if ps is None else [rng.choice([lo, hi, lo + (hi - lo) * rng.random()]) for _, lo, hi, _ in ps]


def rand_place(rng, p, n):
    if p.get("apply"):
        return list(rng.choice(p["apply"]))
    x = list(range(n))
    rng.shuffle(x)
    return x[:prim_qubits(p)]


def target_matrix(t, prims, n):
    k = t[0]
    if k == "id":
        return np.eye(2 ** n, dtype=complex)
    if k == "haar":
        return refs.haar(2 ** n, rng_for("target", t[1]))
    if k == "word":
        m = np.eye(2 ** n, dtype=complex)
        for i, vals, ap in t[1]:
            m = refs.embed(prim_matrix(prims[i], vals), ap, n) @ m
        return m * np.exp(1j * t[2])
    if k == "near":  # a word multiplied by a small rotation
        m = target_matrix(["word", t[1], 0.0], prims, n)
        h = refs.hermitian(2 ** n, rng_for("near", t[2]))
        return refs.expih(h, t[3]) @ m
    raise KeyError(k)


def rand_target(rng, prims, n):
    r = rng.random()
    if r < 0.06:
        return ["id"]
    if r < 0.35:
        return ["haar", rng.randrange(10 ** 6)]
    ok = [i for i, p in enumerate(prims) if usable(p)]
    word = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        i = rng.choice(ok)
        word.append([i, sample_values(rng, prims[i]), rand_place(rng, prims[i], n)])
    if r < 0.8:
        return ["word", word, rng.choice([0.0, 1.0, np.pi, -2.2])]
    return ["near", word, rng.randrange(1000), rng.choice([1e-7, 1e-5, 1e-3, 0.1])]


def rand_threshold(rng):
    r = rng.random()
    if r < 0.2:
        return None
    if r < 0.3:
        return 1.0
    if r < 0.36:
        return 0.0
    if r < 0.6:
        return rng.choice([0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 0.9995, 0.99995, 0.999999, 0.99999999])
    return rng.random()


def rand_entropy(rng, share=0.15):
    if rng.random() < share:
        a, b, c = (rng.choice([0, 0.02, 0.1, 0.2]) for _ in range(3))
        return {"mode": "hostile", "p": [a, b, min(c, 0.45 - a - b) if a + b < 0.45 else 0]}
    return None


def rand_n(rng):
    return rng.choice([1, 1, 2, 2, 2, 3, 3]) if rng.random() < 0.97 else 4


def rand_cfg(rng, layered=None, max_steps=24, **kw):
    n = kw.pop("n", None) or rand_n(rng)
    prims = rand_prims(rng, n, **kw)
    if layered is None:
        layered = rng.random() < 0.35
    cfg = {"n": n, "prims": prims, "probs": rand_probs(rng, prims),
           "container": "ndarray" if rng.random() < 0.12 else "list",
           "append_p": rng.choice([0.5, 0.5, 0.5, 0.8, 0.2, 0.65, 1.0, 0.0, rng.random()]),
           "rate": rng.choice([0.1, 0.1, 0.1, 0.0, 1.0, 10.0, 1000.0, rng.random()]),
           "target": rand_target(rng, prims, n), "threshold": rand_threshold(rng),
           "steps": rng.choice([0, 1, 2, 3]) if rng.random() < 0.12 else rng.randint(4, max_steps),
           "layered": layered, "entropy": rand_entropy(rng), "seed": rng.randrange(2 ** 31)}
    if layered:
        cfg["counts"] = rand_counts(rng, prims)
        cfg["probs"] = None
    if not layered and rng.random() < 0.08:
        near_threshold(rng, cfg)
    return cfg


def near_threshold(rng, cfg):
    """A target close to a short word, and a threshold that the word just meets or just misses."""
    prims, n = cfg["prims"], cfg["n"]
    ok = [i for i, p in enumerate(prims) if usable(p) and prim_params(p) is None]
    word = []
    for _ in range(rng.choice([0, 1, 1, 2]) if ok else 0):
        i = rng.choice(ok)
        word.append([i, [], rand_place(rng, prims[i], n)])
    t = ["near", word, rng.randrange(1000), 10 ** rng.uniform(-3.5, -0.3)]
    d = refs.dist(target_matrix(t, prims, n), target_matrix(["word", word, 0.0], prims, n))
    cfg["target"] = t
    cfg["threshold"] = min(1.0, max(0.0, 1.0 - d * rng.choice([0.5, 0.9, 1.1, 1.5, 1.5, 3, 10])))


def shrink_cfg(cfg):
    """Smaller configurations, most aggressive first."""
    def w(**k):
        d = dict(cfg)
        d.update(k)
        return d
    for s in sorted({0, 1, 2, cfg["steps"] // 2, cfg["steps"] - 1}):
        if 0 <= s < cfg["steps"]:
            yield w(steps=s)
    used = set()
    if cfg["target"][0] in ("word", "near"):
        used = {x[0] for x in cfg["target"][1]}
        if len(cfg["target"][1]) > 1:
            yield w(target=[cfg["target"][0], cfg["target"][1][:1]] + cfg["target"][2:])
    if cfg["target"][0] != "id":
        yield w(target=["id"])
    for i in reversed(range(len(cfg["prims"]))):
        if len(cfg["prims"]) > 1 and i not in used and i == len(cfg["prims"]) - 1:
            k = {"prims": cfg["prims"][:i]}
            if cfg.get("probs"):
                t = sum(cfg["probs"][:i])
                if t <= 0:
                    continue
                k["probs"] = [x / t for x in cfg["probs"][:i]]
            if cfg.get("counts"):
                if sum(cfg["counts"][:i]) == 0:
                    continue
                k["counts"] = cfg["counts"][:i]
            yield w(**k)
    for key, v in (("entropy", None), ("probs", None), ("container", "list"), ("rate", 0.1),
                   ("append_p", 0.5)):
        if cfg.get(key) != v:
            yield w(**{key: v})
    if cfg.get("counts") and max(cfg["counts"]) > 1:
        yield w(counts=[min(c, 1) for c in cfg["counts"]])


class Walk:
    """One configuration, built once; compilations of it can be run any number of times."""

    def __init__(self, world, cfg):
        self.world, self.cfg = world, cfg
        self.n = cfg["n"]
        self.d = 2 ** self.n
        self.ctx = Ctx(world)
        self.gs = GateSet(cfg["prims"], self.n, self.ctx)
        self.tm = target_matrix(cfg["target"], cfg["prims"], self.n)
        self.target = Unitary(self.d, self.tm.copy(), "T")
        self.container = self.gs.container(cfg.get("container", "list"))
        self.probs = None if cfg.get("probs") is None else list(cfg["probs"])
        self.counts = self.gs.counts(cfg["counts"]) if cfg.get("layered") else None

    def compiler(self):
        c = self.cfg
        return self.world.must("building a Compiler", Compiler, self.d, self.container, self.probs,
                               c["append_p"], c["rate"])

    def args(self, steps, threshold="cfg", layered=None):
        c = self.cfg
        th = c["threshold"] if threshold == "cfg" else threshold
        lay = c.get("layered") if layered is None else layered
        a = [self.target]
        if lay:
            a.append(self.counts)
        a += [th, steps]
        return ("compile_layered" if lay else "compile"), a

    def start(self, compiler=None, steps=None, threshold="cfg", seed=None, budget=None, fault=None,
              layered=None, keep_entropy=False):
        """Runs one compilation; returns the Outcome."""
        c = self.cfg
        steps = c["steps"] if steps is None else steps
        comp = compiler if compiler is not None else self.compiler()
        if not keep_entropy:
            reseed(c["seed"] if seed is None else seed, c.get("entropy"))
        name, a = self.args(steps, threshold, layered)
        if budget is None:
            unit = int(sum(self.counts.values())) if self.counts else 1
            budget = BASE + PER_STEP * (steps + 1) * (unit + 3)
        return self.world.call(getattr(comp, name), *a, budget=budget, fault=fault)

    def run(self, **kw):
        out = self.start(**kw)
        if out.hang:
            raise Violation("hang", "the compilation did not finish within its step budget")
        if not out.ok:
            raise Violation("unexpected-error", "the compilation failed: %r" % out)
        return out.value

    def state(self, result):
        return read(result.compiled_sequence, self.n)

    def prefixes(self, result):
        """States after 0..K steps, by re-running with smaller limits from the same random state."""
        k = len(result.cost_by_step)
        states, costs = [], []
        for j in range(k + 1):
            r = result if j == k else self.run(steps=j)
            states.append(self.state(r))
            costs.append([float(x) for x in r.cost_by_step])
        return states, costs

    def window(self, result, js):
        """States and costs after the steps js (as far as the search went), in the same way."""
        k = len(result.cost_by_step)
        out = {}
        for j in js:
            if j not in out and 0 <= j <= k:
                r = result if j == k else self.run(steps=j)
                out[j] = (self.state(r), [float(x) for x in r.cost_by_step])
        return out

    def dist(self, ents):
        return refs.dist(self.tm, product(ents, self.n))


def windows(rng, steps, k):
    """Steps of a long search to look at: the neighbourhoods of round numbers and of random places."""
    out = set()
    for _ in range(k):
        c = rng.choice([rng.randrange(steps), 2 ** rng.randrange(4, 9), 10 * rng.randint(1, max(1, steps // 10)), 100, 50, 64, 128])
        out.update(j for j in (c - 1, c, c + 1) if 0 <= j <= steps)
    return sorted(out)


def long_cfg(rng, sizes=(70, 130, 130, 210)):
    """A search that keeps moving for a long time."""
    cfg = rand_cfg(rng, n=rng.choice([1, 1, 2, 2, 3]))
    cfg.update(threshold=None, steps=rng.choice(sizes), append_p=rng.choice([0.5, 0.5, 0.6, 0.75]),
               rate=rng.choice([0.0, 0.0, 0.01, 0.1, 1.0]), target=["haar", rng.randrange(10 ** 6)], entropy=None)
    return cfg


def fixed_walks():
    """Hand-picked corner configurations that every search check starts with."""
    h = {"k": "fixed", "g": ["h"], "apply": None}
    t = {"k": "fixed", "g": ["t"], "apply": None}
    cn = {"k": "fixed", "g": ["cnot"], "apply": [[0, 1], [1, 0]]}
    base = {"probs": None, "container": "list", "append_p": 0.5, "rate": 0.1, "layered": False,
            "entropy": None}
    out = []
    for th in (None, 1.0, 0.999999, 0.0):
        for word in ([[0, [], [0]]], [[0, [], [0]], [1, [], [0]]]):
            out.append(dict(base, n=1, prims=[h, t], target=["word", word, 0.3], threshold=th, steps=30))
    out.append(dict(base, n=1, prims=[h], target=["id"], threshold=None, steps=5))
    out.append(dict(base, n=1, prims=[h], target=["id"], threshold=1.0, steps=5))
    out.append(dict(base, n=2, prims=[h, cn], target=["word", [[1, [], [1, 0]]], 0.0], threshold=1.0, steps=30))
    out.append(dict(base, n=2, prims=[h, cn], target=["haar", 5], threshold=None, steps=0))
    out.append(dict(base, n=2, prims=[h, cn], target=["haar", 5], threshold=0.0, steps=9))
    out.append(dict(base, n=2, prims=[h, cn], target=["haar", 6], threshold=0.4, steps=30, container="ndarray"))
    out.append(dict(base, n=1, prims=[h, t], target=["word", [[0, [], [0]], [1, [], [0]]], 0.0],
                    threshold=1.0, steps=30, layered=True, counts=[1, 1]))
    out.append(dict(base, n=1, prims=[h, t], target=["id"], threshold=None, steps=12, append_p=0.0))
    for i, c in enumerate(out):
        c["seed"] = 1000 + i
    return out
