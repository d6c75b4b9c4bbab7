import numpy as np

from .. import refs
from ..hams import Ham, rand_ham, read_evolution
from ..stats import ALPHA, multi_tail
from ..walkchecks import check_range, cost_tol, costs_of, must_not_stop, must_stop
from ..world import Violation, reseed
from .c06 import uniform

ID = "C23"
TITLE = "Hamiltonian compilation uses only allowed evolution steps"
QUICK, THOROUGH = 300, 20000
LIMIT = 10000
RULE = ("One run compiles a random Hamiltonian's evolution from a seeded random state, some after an interrupted or failed "
        "attempt on the same object, and checks every entry against the reference evolution under the labelled terms for the "
        "reported time, the costs, and the stopping contract against the exact evolution; others check over many "
        "searches that end with their first step which terms, times and directions are used; a few runs have an unreachable "
        "target and must end at the step limit. Non-trivial: the search made a step.")


def gen(i, rng, tier):
    if i % 150 == 4 or (tier == "thorough" and i % 500 == 9):
        # never reachable exactly: must end at the limit
        return {"ham": {"n": 1, "terms": [["word", "Z", 1.0]]}, "t": 0.37, "max_t": 0.11, "th": None, "simul": False,
                "seed": rng.randrange(2 ** 31), "limit": True, "before": None, "k": 0}
    if i % 150 == 79:
        # steps far too short to get anywhere
        return {"ham": {"n": 1, "terms": [["word", "Z", 1.0], ["word", "X", 0.7]][:rng.choice([1, 2])]}, "t": rng.uniform(0.5, 1.2),
                "max_t": 10 ** rng.uniform(-9, -6), "th": rng.choice([None, None, 1.0, 0.99]), "simul": rng.random() < 0.5,
                "seed": rng.randrange(2 ** 31), "limit": True, "before": None, "k": 0}
    if i % 10 == 3:
        # a target without any overlap, so that nearly every search ends with its first step
        n = rng.choice([1, 1, 2, 3])
        tail = "".join(rng.choice("IXYZ") for _ in range(n - 1))
        k = rng.choice([1, 2, 3, 3, 4, 5])
        ops = [rng.choice("XYZ") for _ in range(k)] if rng.random() < 0.4 else list("XYZXY")[:k]
        return {"mode": "first", "ham": {"n": n, "terms": [["word", o + tail, round(rng.uniform(0.3, 1.5), 3)] for o in ops]},
                "max_t": rng.choice([0.1, 0.5, 1.0]), "simul": rng.random() < 0.7, "th": 1e-6,
                "many": 300 if tier == "quick" else 1200, "seed": rng.randrange(2 ** 31), "before": None, "k": 0}
    if i % 12 == 5:
        # a time far beyond the maximum step, which a short search may still reach roughly
        n = rng.choice([1, 1, 2])
        mt = rng.choice([0.02, 0.05, 0.1, 0.3])
        return {"ham": rand_ham(rng, n=n, lo=1, hi=4), "t": rng.choice([-1, 1, 1]) * mt * rng.choice([40, 100, 101, 128, 500, rng.uniform(50, 400)]),
                "max_t": mt, "th": rng.choice([0.5, 0.7, 0.9, None, rng.random()]), "simul": rng.random() < 0.5,
                "seed": rng.randrange(2 ** 31), "line": False, "call": True, "before": None, "k": 0}
    n = rng.choice([1, 1, 1, 2, 2, 3])
    h = rand_ham(rng, n=n, lo=1, hi=4)
    return {"ham": h, "t": rng.choice([0.0, 0.1, 0.4, 1.0, -0.5, rng.uniform(0, 4)]),
            "max_t": rng.choice([0.1, 0.5, 1.0, 2.0, 10 ** rng.uniform(-2, 1)]),
            "th": rng.choice([0.0, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, None, 1.0, rng.random()]),
            "simul": rng.random() < 0.5, "seed": rng.randrange(2 ** 31), "line": rng.random() < 0.4, "call": True,
            "before": rng.choice([None, None, "fault", "stoq", "simul"]), "k": rng.randrange(3000)}


def check_steps(ham, ents, max_t, simul, where="entry"):
    """Every entry is an allowed evolution step; returns their times."""
    allowed = ham.steps(simul)
    times, labels = [], []
    cache = {}
    for j, e in enumerate(ents):
        label, v, m, ap = read_evolution(e, ham.n)
        if label not in allowed:
            raise Violation("wrong-label", "%s %d is labelled %r; allowed are %s" % (where, j, label, sorted(allowed)))
        if v is None or v[1]:
            raise Violation("wrong-time", "%s %d (%s) reports no time" % (where, j, label))
        t = float(v[0])
        if not abs(t) <= max_t * (1 + 1e-12):
            raise Violation("too-long-step", "%s %d (%s) evolves for %.12g, the maximum is %.12g" % (where, j, label, t, max_t))
        if sorted(ap) != list(range(ham.n)):
            raise Violation("wrong-qubits", "%s %d (%s) acts on qubits %s of %d" % (where, j, label, ap, ham.n))
        if label not in cache:
            cache[label] = [np.linalg.eigh(g) for g in allowed[label]]
        if min(refs.phase_diff(m, (v_ * np.exp(1j * w_ * t)) @ v_.conj().T) for w_, v_ in cache[label]) > 1e-6:
            raise Violation("wrong-evolution", "%s %d (%s, t=%.6g) is not the evolution under those terms" % (where, j, label, t))
        times.append(t)
        labels.append(label)
    return times, labels


def first(plan, w, ham):
    """The terms, times and directions of many first steps."""
    reseed(plan["seed"])
    t = np.pi / 2 / np.linalg.norm(ham.sum, 2)
    mt, simul = plan["max_t"], plan["simul"]
    times, labels = [], []
    for _ in range(plan["many"]):
        res = w.must("compiling", ham.lib.compile_stoq_sequence, t, mt, plan["th"], simul, budget=10 ** 6)
        ents = res.compiled_sequence.get_sequence_entries()
        costs = costs_of(res)
        if not costs:
            raise Violation("stopped-early", "no step was made towards a target without any overlap")
        if len(ents) == 1:
            a, b = check_steps(ham, ents, mt, simul)
            times += a
            labels += b
    n = len(times)
    want = sorted(ham.steps(simul))
    obs = [labels.count(x) for x in want]
    f = sum(1 for x in times if x > 0)
    w.log(n, obs, f, sum(times))
    if n < plan["many"] * 0.9:
        raise Violation("hang", "only %d of %d searches ended with one entry" % (n, plan["many"]))
    if multi_tail([f, n - f], [0.5, 0.5], n) < ALPHA / 10:
        raise Violation("directions", "%d of %d first steps are forward in time" % (f, n))
    if multi_tail(obs, [1 / len(want)] * len(want), n) < ALPHA / 10:
        raise Violation("uneven-steps", "the allowed steps %s were used %s times as a first step" % (want, obs))
    uniform("the lengths of first steps", [abs(x) / mt for x in times])
    return {"nontrivial": True}


def run(plan, w):
    ham = Ham(plan["ham"])
    if plan.get("mode") == "first":
        return first(plan, w, ham)
    reseed(plan["seed"])
    b = plan["before"]
    if b == "fault":
        w.call(ham.lib.compile_stoq_sequence, plan["t"], plan["max_t"], plan["th"], plan["simul"], budget=40000,
               fault={"kind": "interrupt" if plan.get("line") else "alloc", "k": plan["k"]})
    elif b in ("stoq", "simul"):
        w.call(ham.lib.compile_stoq_sequence, 0.3, plan["max_t"] * 2, 0.4, b == "simul", budget=20000)
    limit = plan.get("limit")
    budget = 10 ** 8 if limit else (60000 if plan.get("line") else 90000)
    out = w.call(ham.lib.compile_stoq_sequence, plan["t"], plan["max_t"], plan["th"], plan["simul"], budget=budget)
    if out.hang:
        if limit:
            raise Violation("hang", "a search for an unreachable target did not end at its step limit")
        w.probes["cut_off"] += 1
        w.log("cut off")
        return {"nontrivial": False}
    if not out.ok:
        raise Violation("unexpected-error", "the compilation failed: %r" % out)
    res = out.value
    costs = costs_of(res)
    k = len(costs)
    ents = res.compiled_sequence.get_sequence_entries()
    check_steps(ham, ents, plan["max_t"], plan["simul"])
    check_range(costs)
    u = refs.expih(ham.sum, plan["t"])
    p = np.eye(ham.d, dtype=complex)
    for e in ents:
        p = np.asarray(e.get_full_unitary(ham.d).get_matrix()) @ p
    d = refs.dist(u, p)
    if costs and not abs(costs[-1] - d) < cost_tol(k):
        raise Violation("false-cost", "last cost %.12g; the sequence is at distance %.12g from the exact evolution" % (costs[-1], d))
    if refs.phase_diff(np.asarray(res.compiled_sequence.product().get_matrix()), p) > 1e-7 + 1e-10 * k:
        raise Violation("wrong-product", "the product is not the product of the entries")
    full = [refs.dist(u, np.eye(ham.d))] + costs
    for j, c in enumerate(full[:-1]):
        if must_stop(c, plan["th"]):
            raise Violation("ran-on", "distance %.3g after step %d qualifies for threshold %r but the search went on" % (c, j, plan["th"]))
    if k > LIMIT:
        raise Violation("too-many-steps", "%d steps" % k)
    if k < LIMIT and must_not_stop(d, plan["th"]):
        raise Violation("stopped-early", "stopped after %d steps at distance %.6g, threshold %r" % (k, d, plan["th"]))
    if k == LIMIT:
        w.probes["ran_to_limit"] += 1
    if len(ents) > k:
        raise Violation("illegal-step", "%d entries after %d steps" % (len(ents), k))
    w.log(k, d, len(ents))
    return {"nontrivial": k > 0}


def shrink(plan):
    h = plan["ham"]
    if plan.get("mode") == "first":
        for m in (1, 40, plan["many"] // 2):
            if m < plan["many"]:
                yield dict(plan, many=m)
        return
    for i in range(len(h["terms"])):
        if len(h["terms"]) > 1:
            yield dict(plan, ham=dict(h, terms=h["terms"][:i] + h["terms"][i + 1:]))
    if plan.get("before"):
        yield dict(plan, before=None)
    if plan["simul"]:
        yield dict(plan, simul=False)
    for th in (0.0, 0.3):
        if plan["th"] is None or plan["th"] > th:
            yield dict(plan, th=th)
