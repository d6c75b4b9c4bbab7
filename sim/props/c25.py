import math

import numpy as np

from .. import refs
from ..sched import Scheduler, rand_policy, shrink_policy
from ..stats import ALPHA, ks_tail
from ..world import MON, Violation, reseed, rng_for
from .c28 import finish_threads

from stoqcompiler.unitary import Unitary

ID = "C25"
TITLE = "Random unitaries are unitary and Haar distributed"
QUICK, THOROUGH = 1600, 10000
RULE = ("One run draws random gates of one size from a seeded random state (also under extreme draws, from several threads, and "
        "after a failed draw): all must be fresh unitaries of unit determinant; for ordinary draws the squared overlaps with "
        "random states, traces and relative traces are compared with their Haar distributions. Non-trivial: two draws or more.")
ASSUMES = "a statistical alarm is raised only below probability 1e-10 per test"


def gen(i, rng, tier):
    d = rng.choice([2, 2, 3, 4, 4, 8, 1, 5, 6, 7, 16, 32] if i % 3 else [2, 3, 4, 8, 2, 3, 4, 8, 16, 5, 32])
    base = {"d": d, "seed": rng.randrange(2 ** 31)}
    if i % 3 == 0:
        n = 600 if i % 12 else 4000
        return dict(base, mode="stat", draws=(n if tier == "quick" else 4000) // (3 if d > 8 else 1))
    if i % 9 == 1:
        t = rng.choice([2, 3])
        return dict(base, mode="threads", draws=rng.choice([2, 5]), threads=t, policy=rand_policy(rng, 100), line=True)
    return dict(base, mode="one", draws=rng.choice([1, 3, 10]), line=True, call=True,
                entropy={"mode": "hostile", "p": [rng.choice([0, 0.05, 0.2])] * 2 + [rng.choice([0, 0.05])]} if rng.random() < 0.4 else None,
                fault=rng.choice([None, {"kind": "interrupt", "k": rng.randrange(20)}, {"kind": "alloc", "k": rng.randrange(8)}]))


def check_one(u, d, fresh=True):
    m = np.asarray(u.get_matrix())
    if m.shape != (d, d) or u.get_dimension() != d:
        raise Violation("wrong-size", "asked for dimension %d, got %s" % (d, m.shape))
    if not np.all(np.isfinite(m)) or np.max(np.abs(m @ m.conj().T - np.eye(d))) > 1e-8:
        raise Violation("not-unitary", "a random gate of dimension %d is not unitary" % d)
    if abs(np.linalg.det(m) - 1) > 1e-7:
        raise Violation("determinant", "determinant %s" % np.linalg.det(m))
    return m.copy()


def run(plan, w):
    d = plan["d"]
    if plan["mode"] == "stat":
        return stat(plan, w)
    reseed(plan["seed"], plan.get("entropy"))
    ms = []
    if plan["mode"] == "threads":
        outs = [[] for _ in range(plan["threads"])]
        sch = Scheduler(plan["seed"], plan["policy"])
        for o in outs:
            def body(o=o):
                for _ in range(plan["draws"]):
                    o.append(check_one(Unitary.random(d), d))
            sch.add(body)
        MON.budget = 10 ** 6
        h = sch.run()
        MON.budget = None
        finish_threads(w, sch)
        ms = [m for o in outs for m in o]
        info = {"sched": h, "switches": sch.switches}
    else:
        if plan.get("fault"):
            w.call(Unitary.random, d, fault=plan["fault"])
        for _ in range(plan["draws"]):
            out = w.call(Unitary.random, d)
            if not out.ok:
                raise Violation("unexpected-error", "a random gate could not be made: %r" % out)
            ms.append(check_one(out.value, d))
        info = {}
    if d > 1 and not plan.get("entropy"):
        for a in range(len(ms)):
            for b in range(a):
                if refs.phase_diff(ms[a], ms[b]) < 1e-6:
                    raise Violation("not-fresh", "two draws gave the same gate")
    w.log([abs(np.trace(m)) for m in ms])
    return dict(info, nontrivial=len(ms) > 1)


def stat(plan, w):
    d, n = plan["d"], plan["draws"]
    reseed(plan["seed"])
    ms = [check_one(w.must("a random gate", Unitary.random, d), d) for _ in range(n)]
    rng = rng_for("states", plan["seed"])
    beta = (lambda x: 1 - (1 - min(1.0, max(0.0, x))) ** (d - 1))

    def ks(what, xs, cdf=beta):
        tail, dist = ks_tail(xs, cdf)
        w.log(what, dist)
        if tail < ALPHA:
            raise Violation("not-haar", "%s over %d gates of dimension %d deviates by %.3f from its Haar distribution (p=%.1e)"
                            % (what, n, d, dist, tail))
    for r, c in ((0, 0), (d - 1, 0), (0, d - 1), (d // 2, d - 1)):
        ks("|U[%d,%d]|^2" % (r, c), [abs(m[r, c]) ** 2 for m in ms])
    for _ in range(2):
        a, b = refs.haar(d, rng)[:, 0], refs.haar(d, rng)[:, 0]
        ks("|<a|U|b>|^2", [abs(a.conj() @ m @ b) ** 2 for m in ms])
    rel = [a.conj().T @ b for a, b in zip(ms[::2], ms[1::2])]
    ks("overlap of consecutive gates", [abs(m[0, 0]) ** 2 for m in rel])
    v = refs.haar(d, rng)
    for what, xs in (("|tr U|^2", [abs(np.trace(m)) ** 2 for m in ms]),
                     ("|tr UV|^2", [abs(np.trace(m @ v)) ** 2 for m in ms]),
                     ("|tr U'W|^2", [abs(np.trace(m)) ** 2 for m in rel])):
        if d == 2:
            def cdf(x):
                t = math.acos(math.sqrt(min(1.0, max(0.0, x / 4))))
                return 1 - (2 / math.pi) * 2 * (t / 2 - math.sin(2 * t) / 4)
            ks(what, xs, cdf)
        dev = abs(sum(xs) - len(xs))
        tail = 2 * math.exp(-dev * dev / (2 * (len(xs) * 1.0 + d * d * dev / 3)))
        w.log(what, sum(xs))
        if tail < ALPHA:
            raise Violation("not-haar", "%s over %d gates of dimension %d has mean %.3f instead of 1 (p=%.1e)"
                            % (what, len(xs), d, sum(xs) / len(xs), tail))
    if d > 1:
        same_as_haar(d, ms, plan, w)
    return {"nontrivial": True}


def shape(m):
    """Statistics of one gate that do not depend on its phase."""
    d = len(m)
    ph = np.sort(np.angle(np.linalg.eigvals(m)))
    gaps = np.diff(np.append(ph, ph[0] + 2 * np.pi))
    out = {"|tr U|": abs(np.trace(m)), "|tr U^2|": abs(np.trace(m @ m)), "|tr U^3|": abs(np.trace(m @ m @ m)),
           "smallest eigenvalue gap": gaps.min(), "largest eigenvalue gap": gaps.max(),
           "largest entry": np.abs(m).max(), "smallest entry": np.abs(m).min(),
           "|tr conj(U) U|": abs(np.trace(m.conj() @ m)), "phase of two entries": np.angle(m[0, 0] * np.conj(m[0, 1])),
           "phase of four entries": abs(np.angle(m[0, 0] * m[1, 1] * np.conj(m[0, 1] * m[1, 0]))),
           "product of entries": abs(m[0, 0] * m[1, 1]), "determinant of a block": abs(np.linalg.det(m[:(d + 1) // 2, :(d + 1) // 2]))}
    if d % 2 == 0 and d > 2:
        k = d // 2
        for what, x in (("first", m.reshape(2, k, 2, k).transpose(0, 2, 1, 3)), ("last", m.reshape(k, 2, k, 2).transpose(1, 3, 0, 2))):
            s = np.linalg.svd(x.reshape(4, k * k), compute_uv=False)
            out["splitting off the %s qubit" % what] = s[0] / d ** 0.5
            out["least part for the %s qubit" % what] = s[-1]
    return out


REF = {}


def same_as_haar(d, ms, plan, w):
    """Two-sample Kolmogorov-Smirnov tests against reference gates (QR of a complex Ginibre matrix)."""
    if d not in REF:
        r = rng_for("haar reference", d)
        REF[d] = [shape(refs.haar(d, r)) for _ in range(4000 if d <= 8 else 1500)]
    ref = REF[d]
    got = [shape(m) for m in ms]
    for k in ref[0]:
        a, b = np.sort([x[k] for x in got]), np.sort([x[k] for x in ref])
        both = np.concatenate([a, b]) + 0.0
        dist = float(np.max(np.abs(np.searchsorted(a, both + 1e-9, side="right") / len(a)
                                   - np.searchsorted(b, both + 1e-9, side="right") / len(b))))
        m = len(a) * len(b) / (len(a) + len(b))
        tail = 6 * math.exp(-2 * m * dist * dist)       # the constant covers small samples
        w.log(k, dist)
        if tail < ALPHA:
            raise Violation("not-haar", "%s over %d gates of dimension %d differs from Haar gates: distribution functions %.3f "
                            "apart (p=%.1e)" % (k, len(ms), d, dist, tail))


def shrink(plan):
    if plan["mode"] == "threads":
        for p in shrink_policy(plan["policy"]):
            yield dict(plan, policy=p)
    if plan["mode"] == "one" and plan.get("fault"):
        yield dict(plan, fault=None)
    for k in (1, 2, plan["draws"] // 2):
        if 0 < k < plan["draws"]:
            yield dict(plan, draws=k)
