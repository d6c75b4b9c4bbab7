import itertools
import math

import numpy as np

from .. import refs
from ..hams import Ham, rand_ham, rand_terms, read_evolution
from ..stats import ALPHA, chi2_tail, lag_tail, multi_tail
from ..world import Violation, reseed, rng_for

ID = "C21"
TITLE = "Trotter sequences contain each term once per step, in any order"
QUICK, THOROUGH = 1200, 30000
RULE = ("One run generates Trotter sequences from a seeded random state after other generators used the same Hamiltonian: "
        "'one' compares every entry with the reference evolution, checks that steps are permutations and the product is "
        "within the first-order bound; 'stat' compares the frequencies of step orders, of consecutive pairs and of the first "
        "order of a call with uniformity. Non-trivial: at least two terms.")
ASSUMES = "a statistical alarm is raised only below probability 1e-10 per test"


def gen(i, rng, tier):
    if i % 50 == 3:
        return {"mode": "many", "ham": {"n": rng.choice([1, 2, 3]), "terms": None}, "k": rng.choice([5, 6, 7, 8, 9, 12]),
                "steps": 120 if tier == "quick" else 800, "calls": 40 if tier == "quick" else 200, "seed": rng.randrange(2 ** 31)}
    if i % 10 == 7:
        k = rng.choice([2, 2, 3, 3, 4])
        return {"mode": "stat", "ham": {"n": 1, "terms": rand_terms(rng, 1, k, k)}, "steps": 250 if tier == "quick" else 1500,
                "calls": 60 if tier == "quick" else 300, "seed": rng.randrange(2 ** 31), "per": rng.choice([2, 2, 3, 4, 6, 7])}
    h = rand_ham(rng, lo=1, hi=5)
    return {"mode": "one", "ham": h, "t": rng.choice([0.0, 1.0, rng.uniform(-3, 3), rng.uniform(0, 12), 1e-6]),
            "steps": rng.choice([1, 1, 2, 3, 7, 20, 40]), "rand": rng.random() < 0.75, "seed": rng.randrange(2 ** 31),
            "before": rng.choice([None, None, "trotter", "qdrift", "stoq", "fault"]), "k": rng.randrange(200),
            "call": True, "line": True, "reads": rng.randrange(3)}


def run(plan, w):
    return {"one": one, "stat": stat, "many": many}[plan["mode"]](plan, w)


def many(plan, w):
    """More terms than orders can be counted for: positions of terms and neighbouring pairs."""
    k = plan["k"]
    h = plan["ham"]
    if h["terms"] is None:
        h = dict(h, terms=rand_terms(rng_for("c21", plan["seed"]), h["n"], k, k))
    ham = Ham(h)
    k = len(ham.mats)
    reseed(plan["seed"])
    seq = w.must("a Trotter sequence", ham.lib.get_trotter_sequence, 1.0, plan["steps"], True, budget=10 ** 8)
    chunks = check_trotter(ham, seq, 1.0, plan["steps"], True)
    firsts = []
    for _ in range(plan["calls"]):
        s = w.must("a Trotter sequence", ham.lib.get_trotter_sequence, 1.0, 1, True)
        firsts.append(check_trotter(ham, s, 1.0, 1, True)[0])
    for what, cs in (("of one call", chunks), ("of many calls", firsts)):
        for pos in range(k):
            test("terms at position %d %s" % (pos, what), [c[pos] for c in cs], k, w)
        # neighbours within one step are not independent of each other: take one pair per step
        pairs = [(c[2 * (j % (k // 2))], c[2 * (j % (k // 2)) + 1]) for j, c in enumerate(cs)]
        test("distances of neighbours %s" % what, [(b - a) % k - 1 for a, b in pairs], k - 1, w)
        test("order of neighbours %s" % what, [int(a < b) for a, b in pairs], 2, w)
        f = math.factorial(k)
        lags("steps of one call" if cs is chunks else "first steps of calls", cs, f, w)
        # McDiarmid's inequality for the number of different orders
        if len(set(cs)) < f * (1 - (1 - 1 / f) ** len(cs)) - 3.5 * math.sqrt(len(cs)):
            raise Violation("not-uniform", "only %d different orders of %d terms in %d steps" % (len(set(cs)), k, len(cs)))
        rep = sum(a == b for a, b in zip(cs, cs[1:]))
        if rep > 12 + len(cs) // 12:
            raise Violation("not-uniform", "%d of %d steps repeat the previous step's order of %d terms" % (rep, len(cs), k))
    return {"nontrivial": True}


def check_trotter(ham, seq, t, steps, rand):
    """Checks one sequence; returns the order of terms in every step."""
    k = len(ham.mats)
    ents = seq.get_sequence_entries()
    if len(ents) != k * steps:
        raise Violation("wrong-count", "%d entries for %d terms and %d steps" % (len(ents), k, steps))
    refm = {}
    orders = []
    for j, e in enumerate(ents):
        label, v, m, ap = read_evolution(e, ham.n)
        if not label.startswith("H") or not label[1:].isdigit() or int(label[1:]) >= k:
            raise Violation("wrong-label", "entry %d is labelled %r" % (j, label))
        i = int(label[1:])
        if v is None or abs(float(v[0]) - t / steps) > 1e-12 * max(1, abs(t)) or v[1]:
            raise Violation("wrong-time", "entry %d evolves for %s, the step is %.12g" % (j, v, t / steps))
        if i not in refm:
            refm[i] = refs.expih(ham.mats[i], t / steps)
        d = refs.phase_diff(m, refm[i])
        if d > 1e-6:
            raise Violation("wrong-evolution", "entry %d (%s, t=%.6g) differs from the evolution under term %d by %.2g"
                            % (j, label, t / steps, i, d))
        orders.append(i)
    chunks = [tuple(orders[a:a + k]) for a in range(0, len(orders), k)]
    for s, c in enumerate(chunks):
        if sorted(c) != list(range(k)):
            raise Violation("not-each-once", "step %d uses the terms %s" % (s, c))
        if not rand and c != tuple(range(k)):
            raise Violation("wrong-order", "without randomization step %d uses the order %s" % (s, c))
    return chunks


def one(plan, w):
    ham = Ham(plan["ham"])
    t, n = plan["t"], plan["steps"]
    reseed(plan["seed"])
    b = plan["before"]
    if b == "trotter":
        w.must("a Trotter sequence", ham.lib.get_trotter_sequence, 0.7, 3, True)
    elif b == "qdrift":
        w.must("a qDRIFT sequence", ham.lib.get_qdrift_sequence, 0.7, 3)
    elif b == "stoq":
        w.call(ham.lib.compile_stoq_sequence, 0.2, 1.0, 0.3, True, budget=20000)
    elif b == "fault":
        w.call(ham.lib.get_trotter_sequence, t, n, True, fault={"kind": ["alloc", "interrupt"][plan["k"] % 2], "k": plan["k"]})
    seq = w.must("a Trotter sequence", ham.lib.get_trotter_sequence, t, n, plan["rand"])
    chunks = check_trotter(ham, seq, t, n, plan["rand"])
    if not plan["rand"]:
        again = w.must("a Trotter sequence", ham.lib.get_trotter_sequence, t, n)
        check_trotter(ham, again, t, n, False)
    p = np.asarray(seq.product().get_matrix())
    u = refs.expih(ham.sum, t)
    z = np.vdot(p, u)
    if abs(z) > 0:
        p = p * (z / abs(z))
    # the distance after the best phase is at most that without it
    bound = t * t / (2 * n) * sum(np.linalg.norm(a @ c - c @ a, 2) for a, c in itertools.combinations(ham.mats, 2))
    # Frobenius-optimal phase is within a factor sqrt(d) of the spectral bound
    err = np.linalg.norm(p - u, "fro") / np.sqrt(ham.d)
    if err > bound + 1e-6:
        raise Violation("trotter-bound", "the product is at distance %.3g from the exact evolution, the bound is %.3g" % (err, bound))
    exact = w.must("the exact evolution", ham.lib.get_time_evolution_operator, t)
    if refs.phase_diff(np.asarray(exact.get_matrix()), u) > 1e-6:
        raise Violation("wrong-evolution", "the exact evolution operator is wrong")
    w.log(chunks, err)
    return {"nontrivial": len(ham.mats) > 1}


def stat(plan, w):
    ham = Ham(plan["ham"])
    k = len(ham.mats)
    perms = list(itertools.permutations(range(k)))
    idx = {p: i for i, p in enumerate(perms)}
    reseed(plan["seed"])
    f = len(perms)
    seq = w.must("a Trotter sequence", ham.lib.get_trotter_sequence, 1.0, plan["steps"], True, budget=10 ** 8)
    chunks = check_trotter(ham, seq, 1.0, plan["steps"], True)
    test("step orders", [idx[c] for c in chunks], f, w)
    if f <= 6:
        test("consecutive step orders", [idx[a] * f + idx[b] for a, b in zip(chunks[::2], chunks[1::2])], f * f, w)
        test("every second step's order", [idx[a] * f + idx[b] for a, b in zip(chunks, chunks[2:])][::3], f * f, w)
        half = len(chunks) // 2
        test("a step's and its mirror image's order", [idx[a] * f + idx[b] for a, b in list(zip(chunks, chunks[::-1]))[:half]], f * f, w)
        test("orders half a sequence apart", [idx[a] * f + idx[b] for a, b in zip(chunks, chunks[half:])][:half], f * f, w)
    lags("steps of one call", chunks, f, w)
    related("a step and its mirror image", list(zip(chunks, chunks[::-1]))[:len(chunks) // 2], f, w)
    related("steps half a sequence apart", list(zip(chunks, chunks[len(chunks) // 2:])), f, w)
    per = plan.get("per", 2)
    calls = []
    for _ in range(plan["calls"]):
        s = w.must("a Trotter sequence", ham.lib.get_trotter_sequence, 1.0, per, True)
        calls.append(check_trotter(ham, s, 1.0, per, True))
    lags("first steps of calls", [c[0] for c in calls], f, w)
    for a in range(per):
        test("step %d of a call" % a, [idx[c[a]] for c in calls], f, w)
        for b in range(a):
            related("steps %d and %d of a call" % (b, a), [(c[b], c[a]) for c in calls], f, w)
            if f == 2:
                test("steps of a call", [idx[c[b]] * f + idx[c[a]] for c in calls], f * f, w)
    return {"nontrivial": True}


def lags(what, orders, f, w):
    p, lag, same, of = lag_tail(orders, 1.0 / f)
    w.log(what, lag, same, of)
    if p < ALPHA:
        raise Violation("not-independent", "%s %d apart have the same order %d times in %d (p=%.1e)" % (what, lag, same, of, p))


def related(what, pairs, f, w):
    """How often one of two independent orders is the other one, or its reverse."""
    for how, n in (("the same", sum(a == b for a, b in pairs)), ("reversed", sum(a == b[::-1] for a, b in pairs))):
        p = multi_tail([n, len(pairs) - n], [1.0 / f, 1 - 1.0 / f], len(pairs))
        w.log(what, how, n, len(pairs))
        if p < ALPHA:
            raise Violation("not-independent", "%s have %s order %d times in %d (p=%.1e)" % (what, how, n, len(pairs), p))


def test(what, values, cells, w):
    obs = [0] * cells
    for v in values:
        obs[v] += 1
    p = chi2_tail(obs, [len(values) / cells] * cells)
    w.log(what, obs)
    if p < ALPHA:
        raise Violation("not-uniform", "%s over %d possibilities occur %s times (p=%.1e)" % (what, cells, obs[:40], p))


def shrink(plan):
    h = plan["ham"]
    if plan["mode"] == "many":
        for k in (5, plan["k"] - 1):
            if 5 <= k < plan["k"]:
                yield dict(plan, k=k)
        return
    for i in range(len(h["terms"])):
        if len(h["terms"]) > 1:
            yield dict(plan, ham=dict(h, terms=h["terms"][:i] + h["terms"][i + 1:]))
    if h.get("twin"):
        yield dict(plan, ham=dict(h, twin=False))
    if plan.get("before"):
        yield dict(plan, before=None)
    for s in (1, 2, plan["steps"] // 2):
        if 0 < s < plan["steps"]:
            yield dict(plan, steps=s)
