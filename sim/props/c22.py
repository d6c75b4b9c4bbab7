import numpy as np

from .. import refs
from ..hams import Ham, rand_ham, rand_terms, read_evolution
from ..stats import ALPHA, lag_tail, multi_tail
from ..world import Violation, reseed

ID = "C22"
TITLE = "QDRIFT sequences sample terms by weight with the right step"
QUICK, THOROUGH = 600, 40000
RULE = ("One run generates qDRIFT sequences from a seeded random state, some after failed or other generations: 'one' compares "
        "every entry (label, step, matrix) with the reference; 'stat' compares term frequencies, consecutive pairs and first "
        "draws of calls with the term weights. Non-trivial: at least two terms.")
ASSUMES = "a statistical alarm is raised only below probability 1e-10 per test"


def gen(i, rng, tier):
    if i % 6 == 3:
        h = {"n": rng.choice([1, 1, 2]), "terms": []}
        long = i % 24 == 3
        h["terms"] = rand_terms(rng, h["n"], 4 if long else 2, 6, tiny=1.0 if long else 0.3)
        if rng.random() < 0.15:
            h["twin"] = True
        return {"mode": "stat", "ham": h, "reps": 8000 if long else 400 if tier == "quick" else 3000, "calls": 120 if tier == "quick" else 600,
                "seed": rng.randrange(2 ** 31), "t": rng.uniform(-1, 2), "per": rng.choice([2, 2, 3, 4, 8, 9])}
    return {"mode": "one", "ham": rand_ham(rng, lo=1, hi=5), "t": rng.choice([0.0, 1.0, rng.uniform(-3, 3), rng.uniform(0, 20)]),
            "reps": rng.choice([1, 1, 2, 5, 17, 60]), "seed": rng.randrange(2 ** 31), "call": True, "line": True,
            "before": rng.choice([None, None, "trotter", "qdrift", "fault"]), "k": rng.randrange(300)}


def check_qdrift(ham, seq, t, reps):
    """Checks one sequence; returns the sets of terms each entry can come from."""
    k = len(ham.mats)
    lam = sum(ham.weights)
    ents = seq.get_sequence_entries()
    if len(ents) != reps:
        raise Violation("wrong-count", "%d entries for %d repetitions" % (len(ents), reps))
    step = lam * t / reps
    cache = {}
    out = []
    for j, e in enumerate(ents):
        label, v, m, ap = read_evolution(e, ham.n)
        num = label[1:].split(" ")[0]
        if not label.startswith("H") or not num.isdigit() or int(num) >= k:
            raise Violation("wrong-label", "entry %d is labelled %r" % (j, label))
        i = int(num)
        if v is None or abs(float(v[0]) - step) > 1e-9 * max(1, abs(step)) or v[1]:
            raise Violation("wrong-time", "entry %d evolves for %s, the step is %.12g" % (j, v, step))
        if i not in cache:
            cache[i] = refs.expih(ham.mats[i] / ham.weights[i], step)
        d = refs.phase_diff(m, cache[i])
        if d > 1e-6:
            raise Violation("wrong-evolution", "entry %d (%s, t=%.6g) differs from the evolution under normalized term %d by %.2g"
                            % (j, label, step, i, d))
        out.append(i)
    return out


def run(plan, w):
    ham = Ham(plan["ham"])
    t = plan["t"]
    reseed(plan["seed"])
    if plan["mode"] == "one":
        b = plan["before"]
        if b == "trotter":
            w.must("a Trotter sequence", ham.lib.get_trotter_sequence, 0.7, 3, True)
        elif b == "qdrift":
            w.must("a qDRIFT sequence", ham.lib.get_qdrift_sequence, 0.7, 3)
        elif b == "fault":
            w.call(ham.lib.get_qdrift_sequence, t, plan["reps"], fault={"kind": ["alloc", "interrupt"][plan["k"] % 2], "k": plan["k"]})
        seq = w.must("a qDRIFT sequence", ham.lib.get_qdrift_sequence, t, plan["reps"])
        got = check_qdrift(ham, seq, t, plan["reps"])
        p = np.eye(ham.d, dtype=complex)
        for i in got:
            p = refs.expih(ham.mats[i] / ham.weights[i], sum(ham.weights) * t / plan["reps"]) @ p
        if refs.phase_diff(np.asarray(seq.product().get_matrix()), p) > 1e-6:
            raise Violation("wrong-product", "the product is not the product of the listed steps")
        w.log(got)
        return {"nontrivial": len(ham.mats) > 1}
    k = len(ham.mats)
    twin = bool(plan["ham"].get("twin"))      # one term object listed twice: counted together
    wts = list(ham.weights)
    if twin:
        wts[0] += wts.pop()
        k -= 1
    pr = [x / sum(wts) for x in wts]

    def fold(i):
        return 0 if twin and i == k else i
    got = [fold(i) for i in check_qdrift(ham, w.must("a qDRIFT sequence", ham.lib.get_qdrift_sequence, t, plan["reps"],
                                                     budget=10 ** 8), t, plan["reps"])]
    test("terms", got, pr, w)
    pairs = [pr[a] * pr[b] for a in range(k) for b in range(k)]
    test("consecutive terms", [a * k + b for a, b in zip(got[::2], got[1::2])], pairs, w)
    half = len(got) // 2
    test("a term and its mirror image", [a * k + b for a, b in list(zip(got, got[::-1]))[:half]], pairs, w)
    test("terms half a sequence apart", [a * k + b for a, b in zip(got, got[half:])][:half], pairs, w)
    test("terms two apart", [a * k + b for a, b, c in zip(got[::4], got[2::4], got[3::4])], pairs, w)
    lags("terms of one call", got, pr, w)
    per = plan.get("per", 2)
    calls = []
    for _ in range(plan["calls"]):
        calls.append([fold(i) for i in check_qdrift(
            ham, w.must("a qDRIFT sequence", ham.lib.get_qdrift_sequence, t, per), t, per)])
    lags("first terms of calls", [c[0] for c in calls], pr, w)
    for a in range(per):
        test("terms at position %d of calls" % a, [c[a] for c in calls], pr, w)
        for b in range(a):
            test("terms at positions %d and %d of calls" % (b, a), [c[b] * k + c[a] for c in calls], pairs, w)
    return {"nontrivial": k > 1}


def lags(what, got, pr, w):
    p, lag, same, of = lag_tail(got, sum(x * x for x in pr))
    w.log(what, lag, same, of)
    if p < ALPHA:
        raise Violation("not-independent", "%s %d apart are the same %d times in %d (p=%.1e)" % (what, lag, same, of, p))


def test(what, values, probs, w):
    obs = [0] * len(probs)
    for v in values:
        obs[v] += 1
    p = multi_tail(obs, probs, len(values))
    w.log(what, obs)
    if p < ALPHA:
        raise Violation("wrong-frequencies", "%s occur %s times in %d draws, weights give %s (p=%.1e)" % (
            what, obs[:30], len(values), [round(len(values) * x, 1) for x in probs[:30]], p))


def shrink(plan):
    h = plan["ham"]
    for i in range(len(h["terms"])):
        if len(h["terms"]) > 1:
            yield dict(plan, ham=dict(h, terms=h["terms"][:i] + h["terms"][i + 1:]))
    if plan.get("before"):
        yield dict(plan, before=None)
    for r in (1, 2, plan["reps"] // 2):
        if 0 < r < plan["reps"]:
            yield dict(plan, reps=r)
