import copy

import numpy as np

from .. import hams, refs
from ..gates import product, read
from ..rav import Rav
from ..sched import Scheduler, rand_policy, shrink_policy
from ..seqsim import History, build_pool, rand_ops, rand_pool
from ..walk import Walk, rand_cfg
from ..walkchecks import (check_entries, check_layers, check_product, check_range, cost_tol, costs_of, must_not_stop,
                          must_stop)
from ..world import MON, SimInterrupt, Violation, reseed
from ..seqsim import check_text
from .c21 import check_trotter
from .c22 import check_qdrift
from .c23 import check_steps
from .c28 import finish_threads, verify

from stoqcompiler.unitary import UnitarySequence
from stoqcompiler.verification import Verification

ID = "C19"
TITLE = "Work in several threads stays correct under every interleaving"
QUICK, THOROUGH = 2000, 40000
RULE = ("One run is two to five simulated threads that compile on one compiler, generate, embed, edit own sequences, and "
        "read shared ones, sharing gates, entries, targets and Hamiltonians; a seeded scheduler (random, priority with "
        "change points, round robin) moves between them at lines of library code, and some threads are interrupted. Every "
        "thread's results are checked on their own. Non-trivial: at least two switches inside running operations.")
WE = {"first": 5, "last": 5, "rfirst": 3, "rlast": 3, "undo": 2, "product": 3, "entries": 0.7, "new": 0.5, "inverse": 0.7,
      "combine": 0.7, "embed": 1, "qasm": 0.5, "jaqal": 0.3, "display": 0.5, "copy": 0.3}
KINDS = ["compile", "compile", "compile", "rav", "edit", "edit", "shared", "shared", "ham", "embed"]


def gen(i, rng, tier):
    layered = rng.random() < 0.3
    cfg = rand_cfg(rng, layered=layered, max_steps=12, n=rng.choice([1, 2, 2, 3]), fixed_ok=True)
    cfg["entropy"] = None
    cfg["steps"] = rng.choice([3, 6, 12])
    cfg["append_p"] = rng.choice([0.5, 0.5, 0.8])
    cfg["rate"] = rng.choice([0.1, 1.0, 1000.0, 1000.0])
    if i % 6 == 1:
        cfg = race_cfg(rng)
    n = cfg["n"]
    pool = rand_pool(rng, n, lo=1, hi=4)
    threads = []
    same = rng.choice([None, None, "compile", "shared", "edit"])
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4, 5])):
        jobs = []
        for _ in range(rng.choice([1, 1, 2])):
            k = same or rng.choice(KINDS)
            if k == "compile":
                jobs.append([k, rng.choice([None, 1.0, 0.9, 0.6, 0.3]), rng.choice([1, 4, 8, 14]), rng.random() < 0.25])
            elif k == "rav":
                jobs.append([k, rng.choice([None, 0.9, 0.5, 0.0]), rng.choice([0, 1, 3]), rng.choice([1, 5])])
            elif k == "edit":
                jobs.append([k, [o for o in rand_ops(rng, WE, rng.choice([3, 8, 14]))]])
            elif k == "shared":
                jobs.append([k, [rng.choice(["product", "inverse", "combine", "qasm", "jaqal", "display", "entries", "copy"])
                                 for _ in range(rng.randint(1, 4))]])
            elif k == "ham":
                jobs.append([k, rng.choice(["trotter", "qdrift", "exact", "stoq"]), rng.uniform(0.2, 1.5), rng.choice([1, 2, 4])])
            else:
                jobs.append([k, [[rng.randrange(8), rng.randrange(3)] for _ in range(rng.randint(1, 4))]])
        threads.append(jobs)
    if i % 6 == 1:
        threads = [[["compile", rng.choice([None, 1.0]), rng.choice([8, 14, 20]), False]] for _ in range(rng.choice([2, 2, 3]))]
    return {"call": rng.random() < 0.3, "cfg": cfg, "pool": pool, "shared": [rng.randrange(8) for _ in range(rng.choice([0, 1, 2, 4]))],
            "ham": hams.rand_ham(rng, n=rng.choice([1, 2]), lo=2, hi=3), "threads": threads, "line": True,
            "copies": rng.random() < 0.3,
            "kill": [rng.choice([None] * 5 + [rng.randrange(600)]) for _ in threads],
            "policy": rand_policy(rng, 600 * len(threads)), "sseed": rng.randrange(2 ** 31)}


def race_cfg(rng):
    """For searches on one compiler at a temperature that hardly lets a cost increase pass."""
    c = rand_cfg(rng, layered=rng.random() < 0.3, n=rng.choice([2, 2, 3]), fixed_ok=True)
    return dict(c, entropy=None, threshold=None, steps=12, append_p=rng.choice([0.5, 0.7]), rate=1e4,
                target=["haar", rng.randrange(10 ** 6)])


def check_compile(walk, comp_cfg, res, th, steps, layered):
    cfg = walk.cfg
    k = len(res.cost_by_step)
    costs = costs_of(res)
    if k > steps:
        raise Violation("too-many-steps", "%d steps with a limit of %d" % (k, steps))
    check_range(costs)
    ents = check_product(res.compiled_sequence, walk.n, k)
    d = refs.dist(walk.tm, product(ents, walk.n))
    d0 = walk.dist([])
    full = [d0] + costs
    if costs and not abs(costs[-1] - d) < cost_tol(k):
        raise Violation("false-cost", "last cost %.12g, the sequence is at distance %.12g" % (costs[-1], d))
    for j, c in enumerate(full[:-1]):
        if must_stop(c, th):
            raise Violation("ran-on", "distance %.3g after step %d qualifies for %r but the search went on" % (c, j, th))
    if k < steps and must_not_stop(d, th):
        raise Violation("stopped-early", "%d of %d steps, distance %.6g, threshold %r" % (k, steps, d, th))
    only = None
    if layered:
        check_layers(walk.gs, res.compiled_sequence, cfg["counts"])
    else:
        m = check_entries(walk.gs, res.compiled_sequence, only)
        if len(m) > k:
            raise Violation("illegal-step", "%d entries after %d steps" % (len(m), k))
        if walk.probs:
            for x in m:
                if all(walk.probs[i] == 0 for i, _ in x):
                    raise Violation("gate-probability", "gate %s of probability 0 was used" % walk.gs.names[x[0][0]])
    cap = (2.0 ** walk.d) ** 2
    # consecutive costs are reachable by one edit only if the whole history is consistent: price of every accepted increase
    price = 0.0
    for j in range(1, k + 1):
        inc = full[j] - full[j - 1]
        if inc > 1e-9:
            if min(j * cfg["rate"], cap) * inc > 34:
                raise Violation("metropolis", "step %d accepted a cost increase of %.4g, which the annealing rule allows with "
                                "probability e^-%.0f" % (j, inc, min(j * cfg["rate"], cap) * inc))
            price += min(j * cfg["rate"], cap) * inc
    if price > 50 + 1.4 * k:        # probability below 2^k e^(-price/2) < 1e-10
        raise Violation("metropolis", "cost increases were accepted that the annealing rule allows with probability e^-%.0f: "
                        "%s" % (price, [round(c, 4) for c in full]))
    return ents


def check_rav(rv, res, th, length, steps):
    cfg = rv.cfg
    ents = check_product(res.compiled_sequence, rv.n, len(res.cost_by_step))
    L = length * rv.unit
    costs = costs_of(res)
    k = len(costs)
    if len(ents) < L or k > steps:
        raise Violation("random-part", "%d entries and %d steps for length %d, limit %d" % (len(ents), k, L, steps))
    if rv.unit and cfg["mode"] == "lrav":
        check_layers(rv.gs, res.compiled_sequence, cfg["counts"])
    else:
        check_entries(rv.gs, res.compiled_sequence)
    d = refs.dist(product(ents, rv.n), np.eye(rv.d))
    if costs and not abs(costs[-1] - d) < cost_tol(k):
        raise Violation("false-cost", "last cost %.12g, whole sequence at distance %.12g" % (costs[-1], d))
    if th == 0.0:
        if k or len(ents) != L:
            raise Violation("random-part", "random-only generation gave %d entries, %d steps" % (len(ents), k))
    elif k < steps and must_not_stop(d, th):
        raise Violation("stopped-early", "%d of %d steps, distance %.6g, threshold %r" % (k, steps, d, th))


class Quiet:
    """The operation interface History needs, without the (process-wide) budget and fault arming."""

    def __init__(self, w):
        self.w = w
        self.fired = w.fired

    def log(self, *a):
        pass

    def call(self, fn, *args, fault=None, budget=None, **kw):
        from ..world import Outcome
        try:
            return Outcome(True, fn(*args, **kw))
        except (SimInterrupt, Violation):
            raise
        except Exception as e:
            return Outcome(False, exc=e)

    def must(self, what, fn, *args, **kw):
        out = self.call(fn, *args, **kw)
        if not out.ok:
            raise Violation("unexpected-error", "%s failed: %r" % (what, out))
        return out.value


def run(plan, w):
    cfg = plan["cfg"]
    walk = Walk(w, cfg)
    comp = walk.compiler()
    rcfg = {"mode": "lrav" if cfg.get("layered") else "rav", "n": cfg["n"], "prims": cfg["prims"], "probs": walk.probs,
            "counts": cfg.get("counts")}
    ham = hams.Ham(plan["ham"])
    pool = build_pool(plan["pool"])
    n = cfg["n"]
    idx = [a % len(pool) for a in plan["shared"]]
    shared = w.must("building the shared sequence", UnitarySequence, 2 ** n, [pool[i][0] for i in idx])
    sm = [pool[i][1] for i in idx]
    if plan["sseed"] % 2:
        shared.product()
    before = walk.gs.fingerprint()
    target_before = np.array(walk.target.get_matrix())
    reseed(cfg["seed"])
    q = Quiet(w)
    done = [0]
    shadow = History(q, {"n": n, "pool": plan["pool"], "ops": []}, {"entries", "product", "undo"})

    def shared_slot():
        from ..seqsim import Slot
        return Slot(shared, n, sm)

    def task(jobs, no):
        def body():
            for job in jobs:
                k = job[0]
                if k == "compile":
                    th, steps, other = job[1], job[2], job[3]
                    layered = bool(cfg.get("layered")) and not other
                    c = comp if not other else Walk(q, dict(cfg)).compiler()
                    if layered:
                        res = c.compile_layered(walk.target, walk.counts, th, steps)
                    else:
                        res = c.compile(walk.target, th, steps)
                    if other:
                        # gates were rebuilt: same specs, other objects
                        check_product(res.compiled_sequence, n, steps)
                        if len(res.cost_by_step) > steps:
                            raise Violation("too-many-steps", "%d steps" % len(res.cost_by_step))
                    else:
                        check_compile(walk, cfg, res, th, steps, layered)
                elif k == "rav":
                    rv = Rav.__new__(Rav)
                    rv.world, rv.cfg, rv.n, rv.d, rv.gs = w, rcfg, n, 2 ** n, walk.gs
                    rv.unit = sum(cfg["counts"]) if cfg.get("layered") else 1
                    if cfg.get("layered"):
                        res = Verification.generate_layered_rav_sequence(2 ** n, walk.counts, job[2], job[1], 0.5, job[3])
                    else:
                        res = Verification.generate_rav_sequence(2 ** n, walk.container, job[2], job[1], 0.5, walk.probs, job[3])
                    check_rav(rv, res, job[1], job[2], job[3])
                elif k == "edit":
                    h = History.__new__(History)
                    h.__dict__.update(shadow.__dict__)
                    h.plan = dict(shadow.plan, ops=job[1], every=4)
                    h.pool = pool
                    h.slots, h.disk = [], {}
                    h.new(0, 0)
                    h.run()
                elif k == "shared":
                    for o in job[1]:
                        s = shared_slot()
                        if o == "product":
                            shadow.check_product(s, "shared sequence")
                        elif o == "inverse":
                            t = shared.inverse()
                            s2 = type(s)(t, n, [e.inverse() for e in reversed(sm)])
                            shadow.check_entries(s2, "inverse of the shared sequence")
                            shadow.check_product(s2, "inverse of the shared sequence")
                        elif o == "combine":
                            t = UnitarySequence.combine(shared, shared)
                            s2 = type(s)(t, n, sm + sm)
                            shadow.check_entries(s2, "concatenation of the shared sequence")
                            shadow.check_product(s2, "concatenation of the shared sequence")
                        elif o == "entries":
                            shadow.check_entries(s, "shared sequence")
                        elif o == "copy":
                            s2 = type(s)(copy.deepcopy(shared), n, sm)
                            shadow.check_product(s2, "copy of the shared sequence")
                        else:
                            fn = {"qasm": shared.get_qasm, "jaqal": shared.get_jaqal, "display": shared.get_display_output}[o]
                            check_text(o, fn(), sm)
                elif k == "ham":
                    what, t, steps = job[1], job[2], job[3]
                    if what == "trotter":
                        check_trotter(ham, ham.lib.get_trotter_sequence(t, steps, True), t, steps, True)
                    elif what == "qdrift":
                        check_qdrift(ham, ham.lib.get_qdrift_sequence(t, steps), t, steps)
                    elif what == "exact":
                        u = ham.lib.get_time_evolution_operator(t)
                        if refs.phase_diff(np.asarray(u.get_matrix()), refs.expih(ham.sum, t)) > 1e-7:
                            raise Violation("wrong-evolution", "exact evolution in a thread is wrong")
                    else:
                        res = ham.lib.compile_stoq_sequence(t * 0.3, 1.0, 0.05)
                        check_steps(ham, read_all(res.compiled_sequence), 1.0, False)
                else:
                    for a, b in job[1]:
                        e, m = pool[a % len(pool)]
                        size = max(m.apply) + 1 + b
                        verify(e, m, e.get_full_unitary(2 ** size), size)
                done[0] += 1
        return body

    sch = Scheduler(plan["sseed"], plan["policy"])
    for no, (jobs, kill) in enumerate(zip(plan["threads"], plan["kill"])):
        sch.add(task(jobs, no), kill)
    MON.budget = 30000000
    h = sch.run()
    MON.budget = None
    finish_threads(w, sch)
    if walk.gs.fingerprint() != before:
        raise Violation("damaged-input", "the shared gates were changed")
    if not np.array_equal(target_before, walk.target.get_matrix()):
        raise Violation("damaged-input", "the shared target was changed")
    # everything still works, one after the other
    s = shared_slot()
    shadow.check_entries(s, "shared sequence afterwards")
    shadow.check_product(s, "shared sequence afterwards")
    for e, m in pool:
        verify(e, m, e.get_full_unitary(2 ** n), n)
    out = walk.start(compiler=comp)
    ref = walk.start()
    if not (out.ok and ref.ok):
        raise Violation("damaged", "a compilation on the shared compiler afterwards: %r, on a fresh one: %r" % (out, ref))
    if costs_of(out.value) != costs_of(ref.value) or [e.text for e in read(out.value.compiled_sequence, n)] != [
            e.text for e in read(ref.value.compiled_sequence, n)]:
        raise Violation("damaged", "afterwards the shared compiler gives other results than a fresh one")
    w.log(h, [t.lines for t in sch.tasks], done[0])
    return {"nontrivial": sch.switches > len(sch.tasks), "sched": h, "switches": sch.switches}


def read_all(seq):
    return seq.get_sequence_entries()


def shrink(plan):
    for p in shrink_policy(plan["policy"]):
        yield dict(plan, policy=p)
    t = plan["threads"]
    for i in range(len(t)):
        if t[i]:
            yield dict(plan, threads=t[:i] + [t[i][:-1]] + t[i + 1:])
        for j, job in enumerate(t[i]):
            if job[0] in ("edit", "shared", "embed") and len(job[1]) > 1:
                for a in range(len(job[1])):
                    nj = [job[0], job[1][:a] + job[1][a + 1:]]
                    yield dict(plan, threads=t[:i] + [t[i][:j] + [nj] + t[i][j + 1:]] + t[i + 1:])
    for i, k in enumerate(plan["kill"]):
        if k is not None:
            yield dict(plan, kill=plan["kill"][:i] + [None] + plan["kill"][i + 1:])
