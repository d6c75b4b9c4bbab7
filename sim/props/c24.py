import numpy as np

from .. import refs
from ..hams import Ham, rand_ham
from ..walkchecks import check_range, cost_tol, costs_of, must_not_stop
from ..world import Violation, reseed
from ..stats import ALPHA, multi_tail
from .c06 import uniform
from .c23 import LIMIT, check_steps

ID = "C24"
FORWARD = 0.8
TITLE = "Hamiltonian RAV runs for the requested time and inverts itself"
QUICK, THOROUGH = 300, 20000
RULE = ("One run generates Hamiltonian RAV sequences from a seeded random state, some after interrupted attempts: 'one' splits "
        "the sequence at the requested time, checks every step, minimality, costs and the stopping contract against the "
        "identity; 'stat' (no search) checks over many steps that both directions and every allowed step occur as described. "
        "Non-trivial: at least two entries.")


def gen(i, rng, tier):
    n = rng.choice([1, 1, 1, 2])
    plan = {"ham": rand_ham(rng, n=n, lo=1, hi=3), "max_t": rng.choice([0.1, 0.5, 1.0, 2.0]), "simul": rng.random() < 0.5,
            "seed": rng.randrange(2 ** 31)}
    if i % 10 == 7:
        m = 300 if tier == "quick" else 1500
        if not plan["simul"]:
            plan["ham"] = rand_ham(rng, n=n, lo=1, hi=rng.choice([3, 4]))
        return dict(plan, mode="first", th=0.0, time=plan["max_t"] * rng.choice([1e-9, 0.02]), many=m, before=None, k=0)
    if i % 8 == 2:
        m = rng.choice([30, 60, 150])
        return dict(plan, mode="stat", th=0.0, time=plan["max_t"] * m, m=m, reps=(1200 if tier == "quick" else 4000) // m, before=None, k=0)
    return dict(plan, mode="one", th=rng.choice([0.0, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, rng.random()]),
                time=plan["max_t"] * rng.choice([0.0, 0.3, 1.0, 2.0, 4.0, rng.uniform(0, 8)]), line=rng.random() < 0.4, call=True,
                before=rng.choice([None, None, "fault", "stoq"]), k=rng.randrange(2500))


def first_steps(plan, w, ham):
    """The first step of many short sequences: direction, length and term."""
    mt, simul = plan["max_t"], plan["simul"]
    reseed(plan["seed"])
    ts, labels = [], []
    for _ in range(plan["many"]):
        res = w.must("generating", ham.lib.compile_rav_sequence, plan["time"], mt, 0.0, simul, budget=200000)
        ents = res.compiled_sequence.get_sequence_entries()
        if not ents:
            raise Violation("too-short", "no entry although a positive time was requested")
        u = ents[0].get_full_unitary(ham.d)
        ts.append(float(u.get_parameter_value("t")[0]))
        labels.append(u.get_operation_name())
    w.log(len(ts), sum(ts))
    spread(ham, ts, labels, mt, simul, "first steps")
    return {"nontrivial": True}


def spread(ham, ts, labels, mt, simul, what):
    """Terms, times and directions of random steps."""
    n = len(ts)
    f = sum(1 for t in ts if t > 0)
    if multi_tail([f, n - f], [FORWARD, 1 - FORWARD], n) < ALPHA / 10:
        raise Violation("directions", "%d of %d %s are forward in time" % (f, n, what))
    want = sorted(ham.steps(simul))
    obs = [labels.count(x) for x in want]
    k = [len(ham.steps(simul)[x]) for x in want]
    if multi_tail(obs, [x / sum(k) for x in k], n) < ALPHA / 10:
        raise Violation("uneven-steps", "the allowed steps %s were used %s times in %d %s" % (want, obs, n, what))
    uniform("the lengths of %s" % what, [abs(x) / mt for x in ts])


def run(plan, w):
    ham = Ham(plan["ham"])
    if plan["mode"] == "first":
        return first_steps(plan, w, ham)
    reseed(plan["seed"])
    mt, simul, th, time = plan["max_t"], plan["simul"], plan["th"], plan["time"]
    if plan["before"] == "fault":
        w.call(ham.lib.compile_rav_sequence, time, mt, th, simul, budget=40000,
               fault={"kind": "interrupt" if plan.get("line") else "alloc", "k": plan["k"]})
    elif plan["before"] == "stoq":
        w.call(ham.lib.compile_stoq_sequence, 0.3, mt, 0.4, not simul, budget=20000)
    out = w.call(ham.lib.compile_rav_sequence, time, mt, th, simul, budget=10 ** 8 if plan["mode"] == "stat" else 70000)
    if out.hang:
        if plan["mode"] == "stat":
            raise Violation("hang", "the random part did not end")
        w.probes["cut_off"] += 1
        w.log("cut off")
        return {"nontrivial": False}
    if not out.ok:
        raise Violation("unexpected-error", "the generation failed: %r" % out)
    res = out.value
    costs = costs_of(res)
    k = len(costs)
    ents = res.compiled_sequence.get_sequence_entries()
    times, labels = check_steps(ham, ents, mt, simul)
    tot, L = 0.0, 0
    while tot < time - 1e-9 and L < len(times):
        tot += abs(times[L])
        L += 1
    if tot < time - 1e-9:
        raise Violation("too-short", "all %d steps together last %.9g, %.9g were requested" % (len(times), tot, time))
    if k == 0 and len(ents) != L:
        raise Violation("too-long", "%d random steps; the first %d already last for the requested time" % (len(ents), L))
    if len(ents) - L > k:
        raise Violation("too-long", "%d entries after the random part, but only %d search steps" % (len(ents) - L, k))
    p, head = np.eye(ham.d, dtype=complex), None
    for j, e in enumerate(ents):
        if j == L:
            head = p
        p = np.asarray(e.get_full_unitary(ham.d).get_matrix()) @ p
    if head is None:
        head = p
    d = refs.dist(p, np.eye(ham.d))
    check_range(costs)
    if costs and not abs(costs[-1] - d) < cost_tol(k):
        raise Violation("false-cost", "last cost %.12g; the whole sequence is at distance %.12g from the identity" % (costs[-1], d))
    if k < LIMIT and must_not_stop(d, th):
        raise Violation("stopped-early", "%d search steps, distance %.6g, threshold %r" % (k, d, th))
    if k > LIMIT:
        raise Violation("too-many-steps", "%d steps" % k)
    if refs.phase_diff(np.asarray(res.compiled_sequence.product().get_matrix()), p) > 1e-7 + 1e-10 * (k + len(ents)):
        raise Violation("wrong-product", "the product is not the product of the entries")
    if k == 1 and len(ents) == L:
        d1 = refs.dist(head, np.eye(ham.d))
        if abs(costs[0] - d1) > 1e-8:
            raise Violation("false-cost", "one step without effect reports %.9g, the random part is at %.9g" % (costs[0], d1))
    w.log(len(ents), L, k, d)
    if plan["mode"] == "stat":
        # the number of steps depends on their lengths, but the first m are always made
        m = plan["m"]
        seqs = [(times[:m], labels[:m])]
        for _ in range(plan["reps"] - 1):
            more = w.must("generating", ham.lib.compile_rav_sequence, time, mt, th, simul, budget=10 ** 7)
            ts, ls = check_steps(ham, more.compiled_sequence.get_sequence_entries()[:m], mt, simul)
            if len(ts) < m:
                raise Violation("too-short", "%d steps of at most %.6g for a time of %.6g" % (len(ts), mt, time))
            seqs.append((ts, ls))
        spread(ham, [t for s in seqs for t in s[0]], [x for s in seqs for x in s[1]], mt, simul, "random steps")
        late = seqs if m < 60 else [(s[0][20:], s[1][20:]) for s in seqs]
        spread(ham, [t for s in late for t in s[0]], [x for s in late for x in s[1]], mt, simul, "later random steps")
        for a in (1, 2):
            after = [s[0][j] for s in seqs for j in range(a, m) if s[0][j - a] < 0]
            f = sum(1 for t in after if t > 0)
            if multi_tail([f, len(after) - f], [FORWARD, 1 - FORWARD], len(after)) < ALPHA / 10:
                raise Violation("directions", "%d of the %d steps made %d after a backward one are forward in time" % (f, len(after), a))
        same = sum(1 for s in seqs for x, y in zip(s[1], s[1][1:]) if x == y)
        pairs = (m - 1) * len(seqs)
        k = [len(x) for x in ham.steps(simul).values()]
        p = sum((x / sum(k)) ** 2 for x in k)
        if multi_tail([same, pairs - same], [p, 1 - p], pairs) < ALPHA / 10:
            raise Violation("uneven-steps", "%d of %d steps repeat the step before; %.1f are expected" % (same, pairs, p * pairs))
    return {"nontrivial": len(ents) > 1}


def shrink(plan):
    h = plan["ham"]
    for i in range(len(h["terms"])):
        if len(h["terms"]) > 1:
            yield dict(plan, ham=dict(h, terms=h["terms"][:i] + h["terms"][i + 1:]))
    if plan.get("before"):
        yield dict(plan, before=None)
    if plan["simul"]:
        yield dict(plan, simul=False)
    if plan["mode"] == "one":
        for t in (0.0, plan["time"] / 2):
            if t < plan["time"]:
                yield dict(plan, time=t)
