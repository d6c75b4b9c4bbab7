import itertools
import math

import numpy as np

from .. import refs
from ..gates import Ctx, GateSet, PROBES, gate_of, prim_params, prim_qubits, rand_range
from ..stats import ALPHA, Group, ks_tail, multi_tail
from ..walk import Walk
from ..world import Violation, reseed

from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import Unitary
from stoqcompiler.verification import Verification

ID = "C06"
TITLE = "Random choices follow the configured probabilities"
QUICK, THOROUGH = 96, 4000
RULE = ("One run is one statistical experiment of thousands of seeded draws: gate choice, placement, parameters, joint "
        "independence, layer order, RAV's random part, or the additions and removals of a search followed at "
        "temperature infinity. Tests reject below 1e-10; outcomes of probability 0 are violations at once. "
        "Non-trivial: more than one outcome is possible.")
KINDS = ["prim", "prim", "place", "place_any", "param", "layer", "action", "action", "rav", "layer", "place", "param",
         "inwalk", "inwalk", "biglayer", "prim"]


def distinct_prims(rng, n, k):
    """Gates that can be told apart by name."""
    out = []
    names = [f for f, (q, _, _) in PROBES.items() if q <= min(n, 3)]
    for i in range(k):
        f = rng.choice(names)
        out.append({"k": "probe", "f": f, "name": "P%d%s" % (i, f), "apply": None,
                    "params": [["abcdef"[j], 0.0, 1.0, rng.random() < 0.5] for j in range(PROBES[f][1])]})
    return out


def rand_w(rng, k):
    while True:
        w = [rng.choice([0.0, 1.0, 1.0, rng.random(), 3.0, 0.012 * (0.3 + rng.random())]) for _ in range(k)]
        if sum(w) > 0:
            return [x / sum(w) for x in w]


def gen(i, rng, tier):
    kind = KINDS[i % len(KINDS)]
    n = rng.choice([1, 2, 2, 3])
    big = 1 if tier == "quick" else 4
    plan = {"kind": kind, "n": n, "seed": rng.randrange(2 ** 31), "draws": 6000 * big}
    if kind == "inwalk":
        return inwalk_plan(rng, plan)
    if kind in ("prim", "rav"):
        k = rng.choice([2, 3, 4, 6, 9, 12])
        plan["prims"] = distinct_prims(rng, n, k)
        plan["probs"] = rand_w(rng, k) if rng.random() < 0.7 else None
        if plan["probs"]:
            least = min(p for p in plan["probs"] if p > 0)
            if least < 0.02:
                plan["draws"] = int(min(25000, max(plan["draws"], 45 / least)))
        if rng.random() < 0.3:
            j = rng.randrange(k)
            if plan["probs"] is None or plan["probs"][j] < 1:
                plan["prims"][j]["apply"] = []
    elif kind == "place":
        p = distinct_prims(rng, n, 1)[0]
        q = prim_qubits(p)
        perms = list(itertools.permutations(range(n), q))
        rng.shuffle(perms)
        p["apply"] = [list(x) for x in perms[:rng.choice([1, 2, 3, 5])]]
        if i // len(KINDS) % 2:      # many permitted lists, in a larger system
            plan["n"] = n = rng.choice([4, 5, 6])
            while prim_qubits(p) < 2:
                p = distinct_prims(rng, n, 1)[0]
            q = prim_qubits(p)
            perms = list(itertools.permutations(range(n), min(q, n)))
            rng.shuffle(perms)
            p["apply"] = [list(x) for x in perms[:rng.choice([8, 15, 19, 30, 60])]]
        plan["prims"] = [p]
    elif kind == "place_any":
        plan["n"] = n = rng.choice([2, 3, 4])
        p = distinct_prims(rng, n, 1)[0]
        plan["prims"] = [p]
    elif kind == "param":
        p = distinct_prims(rng, n, 1)[0]
        while not p["params"]:
            p = distinct_prims(rng, n, 1)[0]
        for x in p["params"]:
            x[1], x[2] = rand_range(rng)
            if rng.random() < 0.4:
                x[1], x[2] = rng.choice([(0.0, 50.0), (-50.0, 50.0), (-30.0, 1.0), (0.0, 8 * math.pi), (10.0, 40.0), (-1.0, 15.0)])
        if rng.random() < 0.25:
            p = {"k": rng.choice(["rxy", "rxyz"]), "apply": None}
        plan["prims"] = [p]
    elif kind == "layer":
        k = rng.choice([2, 3, 3])
        plan["prims"] = distinct_prims(rng, n, k)
        plan["counts"] = rng.choice([[1, 1, 1], [2, 1, 1], [1, 2, 0], [3, 1, 0], [1, 1, 0], [2, 2, 0]])[:k]
        if sum(plan["counts"]) < 2:
            plan["counts"] = [1] * k
        plan["draws"] = 2000 * big
    elif kind == "biglayer":
        plan["counts"] = rng.choice([[4, 4], [3, 3, 3], [8, 2], [1] * 8, [1] * 11, [5, 1, 1], [2, 2, 2, 2, 2], [12, 1], [1, 17],
                                      [15, 15], [30, 1], [1] * 24, [20, 21], [11, 1, 11]])
        plan["prims"] = distinct_prims(rng, n, len(plan["counts"]))
        plan["draws"] = 900 * big if sum(plan["counts"]) < 20 else 400 * big
    elif kind == "action":
        k = rng.choice([2, 3])
        plan["n"] = rng.choice([1, 2])
        plan["cfg"] = {
            "n": plan["n"], "prims": [{"k": "fixed", "g": ["haar", 2 ** plan["n"], rng.randrange(10 ** 6)],
                                       "apply": [rng.sample(range(plan["n"]), plan["n"])]} for _ in range(k)],
            "probs": rand_w(rng, k) if rng.random() < 0.7 else None, "container": "list",
            "append_p": rng.choice([0.5, 0.5, 0.8, 0.25, 0.6, 1.0]), "rate": 0.0, "threshold": None,
            "target": ["haar", rng.randrange(10 ** 6)], "steps": 60, "layered": False, "entropy": None,
            "seed": rng.randrange(2 ** 31)}
        if rng.random() < 0.35:
            plan["cfg"].update(layered=True, probs=None, counts=[1] + [0] * (k - 1))
        plan["bundle"] = 20 * big
    return plan


def chi(what, obs, probs, total):
    keys = sorted(set(obs) | set(probs), key=str)
    for k in keys:
        if obs.get(k, 0) and probs.get(k, 0.0) <= 0:
            raise Violation("impossible-outcome", "%s %s occurred %d times although its probability is 0"
                            % (what, k, obs[k]))
    keys = [k for k in keys if probs.get(k, 0.0) > 0]
    t = multi_tail([obs.get(k, 0) for k in keys], [probs[k] for k in keys], total)
    if t < ALPHA:
        worst = max(keys, key=lambda k: abs(obs.get(k, 0) - probs[k] * total) / math.sqrt(probs[k] * total))
        raise Violation("wrong-distribution", "%s: %s occurred %d times in %d draws, expected %.1f (tail %.1e)"
                        % (what, worst, obs.get(worst, 0), total, probs[worst] * total, t))
    return t


def uniform(what, u, exact=True):
    """Numbers u, drawn from the uniform distribution over [0, 1]."""
    n = len(u)
    t, dev = ks_tail(u, lambda x: x)
    if t < ALPHA:
        raise Violation("wrong-distribution", "%s is not uniform (largest deviation of the distribution function %.3f "
                        "in %d draws)" % (what, dev, n))
    for cells in sorted({7, min(100, n // 60), min(1000, n // 100)}):
        if cells > 1 and n >= 60 * cells:
            chi("%s: cell of %d" % (what, cells), count(min(cells - 1, int(x * cells)) for x in u),
                {a: 1 / cells for a in range(cells)}, n)
    if exact and n >= 100 and n - len(set(u)) > 3 + n * n / 2 ** 26:
        raise Violation("wrong-distribution", "%s: only %d different values in %d draws" % (what, len(set(u)), n))


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def inwalk_plan(rng, plan):
    """Gates as they end up in the sequences of a search that accepts every addition, and in generated sequences."""
    n = rng.choice([1, 2, 2, 3])
    k = rng.choice([1, 2, 3])
    prims = distinct_prims(rng, n, k)
    for p in prims:
        q = prim_qubits(p)
        perms = list(itertools.permutations(range(n), q))
        if rng.random() < 0.5:
            rng.shuffle(perms)
            p["apply"] = [list(x) for x in perms[:rng.choice([2, 3, 6])]]
    if rng.random() < 0.5:      # parameterless gates, next to their own inverses
        names = [["h"], ["x"], ["z"]] + ([["cnot"], ["xx", 1.5707963267948966]] if n > 1 else [])
        for j, g in enumerate(rng.sample(names, k)):
            prims[j] = {"k": "fixed", "g": g, "apply": None if rng.random() < 0.7 else [rng.sample(range(n), refs.gate_qubits(g))]}
    src = rng.choice(["compile", "compile", "layered", "layered", "xeb", "lrav", "rav"])
    plan.update(n=n, prims=prims, src=src, probs=None, counts=None)
    if src in ("compile", "rav"):
        if rng.random() < 0.6:
            plan["probs"] = rand_w(rng, k)
    else:
        plan["counts"] = {1: [2], 2: [1, 1], 3: [1, 1, 1]}[k] if rng.random() < 0.6 else rng.choice(
            [[2, 1, 1], [1, 2, 0], [3, 1, 0], [1, 1, 0], [2, 2, 0]])[:k]
        if sum(plan["counts"]) < 2:
            plan["counts"] = [2] * k
    plan["unit"] = sum(plan["counts"]) if plan["counts"] else 1
    plan["length"] = rng.choice([1, 2, 5, 20, 40]) if plan["counts"] is None else rng.choice([1, 2, 4, 12])
    plan["draws"] = plan["draws"] // 2 // plan["unit"]
    return plan


def run_inwalk(plan, w):
    n, d = plan["n"], 2 ** plan["n"]
    gs = GateSet(plan["prims"], n, Ctx(w))
    prims, probs, counts, src, ln = list(gs.prims), plan["probs"], plan["counts"], plan["src"], plan["length"]
    unit = plan["unit"]
    cd = gs.counts(counts) if counts else None
    reseed(plan["seed"])
    target = Unitary(d, refs.haar(d, __import__("random").Random(plan["seed"])), "T")
    seqs = []

    def draw():
        for _ in range(max(1, plan["draws"] // ln)):
            if src in ("compile", "layered"):
                c = Compiler(d, prims, None if probs is None else list(probs), append_probability=1.0, annealing_rate=0.0)
                r = c.compile(target, None, ln) if src == "compile" else c.compile_layered(target, cd, None, ln)
            elif src == "rav":
                r = Verification.generate_rav_sequence(d, prims, ln, 0.0, unitary_primitive_probabilities=None
                                                       if probs is None else list(probs))
            elif src == "lrav":
                r = Verification.generate_layered_rav_sequence(d, cd, ln, 0.0)
            else:
                r = Verification.generate_xeb_sequence(d, cd, ln)
            seqs.append(r.compiled_sequence.get_sequence_entries())
    w.must("generating sequences", draw, budget=6000 * plan["draws"] * (unit + 1) + 10 ** 6)
    ids, places, allp = [], [], []
    for s in seqs:
        if len(s) != ln * unit:
            raise Violation("wrong-length", "%d entries instead of %d: additions with probability 1 at infinite "
                            "temperature" % (len(s), ln * unit))
        row = []
        for e in s:
            g = gate_of(e, d)
            i = gs.names.index(g.get_operation_name())
            ap = tuple(int(q) for q in e.get_apply_to())
            row.append((i, ap))
            for pn, lo, hi, _ in prim_params(plan["prims"][i]) or []:
                allp.append((i, pn, (float(g.get_parameter_value(pn)[0]) - lo) / (hi - lo)))
        places.append(row)
        ids.append([i for i, _ in row])
    perms = {}
    for i, p in enumerate(plan["prims"]):
        al = [tuple(a) for a in p["apply"]] if p["apply"] else list(itertools.permutations(range(n), prim_qubits(p)))
        perms[i] = {a: al.count(a) / len(al) for a in al}
    flat = [x for r in places for x in r]
    for i in perms:
        got = [a for j, a in flat if j == i]
        if got:
            chi("placement of gate %d" % i, count(got), perms[i], len(got))
            u = {}
            for j, pn, v in allp:
                if j == i:
                    u.setdefault(pn, []).append(v)
            for pn, v in u.items():
                lo, hi = [x[1:3] for x in prim_params(plan["prims"][i]) if x[0] == pn][0]
                uniform("parameter %s of gate %d in the sequences of %s" % (pn, i, src), v, hi - lo > 1e-3 * max(abs(lo), abs(hi)))
    # neighbours in the sequence: placements and gates are independent
    pairs = {}
    for r in places:
        for a, b in zip(r[0::2], r[1::2]):
            pairs.setdefault((a[0], b[0]), []).append((a[1], b[1]))
    for (i, j), got in sorted(pairs.items()):
        if len(got) > 200:
            chi("neighbouring placements", count(got), {(a, b): perms[i][a] * perms[j][b] for a in perms[i] for b in perms[j]}, len(got))
    if counts is None:
        pr = probs or [1 / len(prims)] * len(prims)
        pr = dict(enumerate(pr))
        for what, got in (("gate", [i for r in ids for i in r]), ("first gate", [r[0] for r in ids]), ("last gate", [r[-1] for r in ids])):
            chi(what, count(got), pr, len(got))
        got = [x for r in ids for x in zip(r[0::2], r[1::2])]
        if got:
            chi("neighbouring gates", count(got), {(a, b): pr[a] * pr[b] for a in pr for b in pr}, len(got))
    else:
        letters = [i for i, c in enumerate(counts) for _ in range(c)]
        orders = list(set(itertools.permutations(letters)))
        f = {o: 1 / len(orders) for o in orders}
        rows = [[tuple(r[a:a + unit]) for a in range(0, len(r), unit)] for r in ids]
        for what, got in (("layer order", [x for r in rows for x in r]), ("order of the first layer", [r[0] for r in rows]),
                          ("order of the last layer", [r[-1] for r in rows])):
            chi(what, count(got), f, len(got))
        got = [x for r in rows for x in zip(r[0::2], r[1::2])]
        if got:
            chi("orders of neighbouring layers", count(got), {(a, b): f[a] * f[b] for a in f for b in f}, len(got))
    w.log(src, ln, sorted(count([i for r in ids for i in r]).items()))
    return {"nontrivial": len(flat) > 100}


def run(plan, w):
    kind = plan["kind"]
    if kind == "inwalk":
        return run_inwalk(plan, w)
    if kind == "action":
        return run_action(plan, w)
    n, d, N = plan["n"], 2 ** plan["n"], plan["draws"]
    gs = GateSet(plan["prims"], n, Ctx(w))
    prims = list(gs.prims)
    reseed(plan["seed"])
    if kind in ("prim", "place", "place_any", "param"):
        probs = plan.get("probs")
        names, places, params = [], [], []

        def draw():
            for _ in range(N):
                e = Compiler.create_random_sequence_entry(d, prims, None if probs is None else list(probs))
                names.append(e)
        w.must("drawing random entries", draw, budget=8000 * N)
        ents = names
        if kind == "prim":
            ok = [p["apply"] is None or len(p["apply"]) > 0 for p in plan["prims"]]
            pr = probs or [1.0] * len(ok)
            pr = [x if o else 0.0 for x, o in zip(pr, ok)]
            pr = {nm: x / sum(pr) for nm, x in zip(gs.names, pr)}
            got = [gate_of(e, d).get_operation_name() for e in ents]
            t = chi("gate", count(got), pr, N)
            pairs = {(a, b): pr[a] * pr[b] for a in pr for b in pr}
            chi("consecutive gates", count(zip(got[0::2], got[1::2])), pairs, N // 2)
            w.log(kind, sorted(count(got).items()), t)
            return {"nontrivial": sum(1 for x in pr.values() if x > 0) > 1}
        got = [tuple(int(q) for q in e.get_apply_to()) for e in ents]
        q = prim_qubits(plan["prims"][0])
        if kind == "place":
            al = [tuple(x) for x in plan["prims"][0]["apply"]]
        else:
            al = list(itertools.permutations(range(n), q))
        if kind != "param" or plan["prims"][0]["apply"] is None:
            pl = {a: al.count(a) / len(al) for a in al}
            t = chi("placement", count(got), pl, N)
            w.log(kind, sorted(count(got).items()), t)
            if kind != "param":
                return {"nontrivial": len(pl) > 1}
        ps = prim_params(plan["prims"][0])
        cols = []
        for pn, lo, hi, _ in ps:
            v = [float(gate_of(e, d).get_parameter_value(pn)[0]) for e in ents[:N]]
            if min(v) < lo or max(v) > hi:
                raise Violation("impossible-outcome", "parameter %s=%r outside [%r, %r]" % (
                    pn, min(v) if min(v) < lo else max(v), lo, hi))
            if hi - lo < 1e-12:
                continue
            u = [(x - lo) / (hi - lo) for x in v]
            cols.append(u)
            uniform("parameter %s over [%r, %r]" % (pn, lo, hi), u, hi - lo > 1e-3 * max(abs(lo), abs(hi)))
            w.log(pn, lo, hi, sum(u) / N)
            g = 4
            cell = {(a, b): 1 / g / g for a in range(g) for b in range(g)}
            q4 = [min(g - 1, int(x * g)) for x in u]
            chi("consecutive values of " + pn, count(zip(q4[0::2], q4[1::2])), cell, N // 2)
            if len(al) > 1:
                chi("value and placement", count(zip(q4, got)), {(a, b): 1 / g / len(al) for a in range(g)
                                                                 for b in al}, N)
        g = 4
        for a in range(len(cols)):
            for b in range(a):
                qa = [min(g - 1, int(x * g)) for x in cols[a]]
                qb = [min(g - 1, int(x * g)) for x in cols[b]]
                chi("pair of parameters", count(zip(qa, qb)), {(x, y): 1 / g / g for x in range(g)
                                                               for y in range(g)}, N)
        return {"nontrivial": bool(cols)}
    if kind == "layer":
        counts = plan["counts"]
        cd = gs.counts(counts)
        letters = [i for i, c in enumerate(counts) for _ in range(c)]
        allp = list(set(itertools.permutations(letters)))
        got, got2 = [], []

        def draw():
            for j in range(N):
                layer = Compiler.create_random_layer(d, cd)
                got.append(tuple(gs.names.index(gate_of(e, d).get_operation_name()) for e in layer))
        w.must("drawing random layers", draw, budget=30000 * N)
        t = chi("layer order", count(got), {a: 1 / len(allp) for a in allp}, N)
        # first positions of consecutive layers are independent
        f = {a: 1 / len(allp) for a in allp}
        if len(allp) <= 6:
            chi("orders of consecutive layers", count(zip(got[0::2], got[1::2])),
                {(a, b): f[a] * f[b] for a in allp for b in allp}, N // 2)
        w.log(kind, sorted(count(got).items()), t)
        return {"nontrivial": len(allp) > 1}
    if kind == "biglayer":
        return run_biglayer(plan, w, gs, N, d)
    # random part of RAV
    ok = [p["apply"] is None or len(p["apply"]) > 0 for p in plan["prims"]]
    pr = plan["probs"] or [1.0] * len(ok)
    pr = [x if o else 0.0 for x, o in zip(pr, ok)]
    pr = {nm: x / sum(pr) for nm, x in zip(gs.names, pr)}
    got = []

    def draw():
        for j in range(N // 60):
            r = Verification.generate_rav_sequence(
                d, prims, 20, 0.0, unitary_primitive_probabilities=None if plan["probs"] is None
                else list(plan["probs"]))
            got.append([gate_of(e, d).get_operation_name()
                        for e in r.compiled_sequence.get_sequence_entries()])
    w.must("generating random sequences", draw, budget=20000 * N)
    flat = [x for g in got for x in g]
    t = chi("gate in a random sequence", count(flat), pr, len(flat))
    chi("first gate of a random sequence", count(g[0] for g in got), pr, len(got))
    chi("last gate of a random sequence", count(g[-1] for g in got), pr, len(got))
    w.log(kind, sorted(count(flat).items()), t)
    return {"nontrivial": sum(1 for x in pr.values() if x > 0) > 1}


def run_biglayer(plan, w, gs, N, d):
    """Layers with too many orders to count: the gate at every place, and the pairs of gates at several pairs of places."""
    counts = plan["counts"]
    cd, tot = gs.counts(counts), sum(counts)
    got = []

    def draw():
        for j in range(N):
            got.append(tuple(gs.names.index(gate_of(e, d).get_operation_name()) for e in Compiler.create_random_layer(d, cd)))
    w.must("drawing random layers", draw, budget=8000 * N * tot)
    for r in got:
        if [r.count(j) for j in range(len(counts))] != list(counts):
            raise Violation("wrong-layer", "a layer of the gates %s where counts %s are configured" % (r, counts))
    ids = range(len(counts))
    one = {i: counts[i] / tot for i in ids}
    two = {(i, j): counts[i] * (counts[j] - (i == j)) / tot / (tot - 1) for i in ids for j in ids}
    two = {k: v for k, v in two.items() if v > 0}
    for a in range(tot):
        chi("gate at place %d of %d" % (a, tot), count(r[a] for r in got), one, N)
        for b in (a + 1, a + 2, tot - 1):
            if a < b < tot:
                chi("gates at places %d and %d of %d" % (a, b, tot), count((r[a], r[b]) for r in got), two, N)
        chi("gate at place %d of consecutive layers" % a, count((x[a], y[a]) for x, y in zip(got[0::2], got[1::2])),
            {(i, j): one[i] * one[j] for i in ids for j in ids}, N // 2)
    w.log("biglayer", got[:3])
    return {"nontrivial": len(counts) > 1}


def run_action(plan, w):
    """Follows a search at infinite temperature, where every proposal is accepted."""
    cfg = plan["cfg"]
    walk = Walk(w, cfg)
    n, d = walk.n, walk.d
    mats = [refs.embed(refs.gate(p["g"]), p["apply"][0], n) for p in cfg["prims"]]
    if cfg["layered"]:
        mats = mats[:1]
    pg = cfg["probs"] or [1 / len(mats)] * len(mats)
    pa = cfg["append_p"]
    td = walk.tm.conj().T
    groups, bins, nb = {}, {}, 0

    def cost(m):
        return 1.0 - abs(np.einsum("ij,ji->", td, m)) / d

    for b in range(plan["bundle"]):
        res = walk.run(seed=(cfg["seed"] + 104729 * b) % 2 ** 31)
        seq, m, c = [], np.eye(d, dtype=complex), cost(np.eye(d))
        for k, seen in enumerate(res.cost_by_step, 1):
            props = []
            for g, mg in enumerate(mats):
                props.append((pa / 2 * pg[g], "+first", g, [g] + seq, m @ mg))
                props.append((pa / 2 * pg[g], "+last", g, seq + [g], mg @ m))
            if seq:
                props.append(((1 - pa) / 2, "-first", None, seq[1:], m @ mats[seq[0]].conj().T))
                props.append(((1 - pa) / 2, "-last", None, seq[:-1], mats[seq[-1]].conj().T @ m))
            else:
                props.append((1 - pa, "-none", None, seq, m))
            hit = [x for x in props if abs(cost(x[4]) - seen) < 2e-9]
            if not hit:
                break
            if any(x[3] != hit[0][3] for x in hit):
                break
            p = sum(x[0] for x in hit)
            if p == 0:
                raise Violation("impossible-outcome", "step %d made the edit %s of gate %s, whose probability is 0"
                                % (k, hit[0][1], hit[0][2]))
            # classes of proposals with the same effect
            classes = {}
            for x in props:
                key = tuple(x[3])
                classes.setdefault(key, [0.0, x[1][0], set(), x[2]])
                classes[key][0] += x[0]
                classes[key][2].add(x[1])
            chosen = tuple(hit[0][3])
            for what in ("+", "-"):
                groups.setdefault("additions" if what == "+" else "removals", Group()).add(
                    classes[chosen][1] == what, sum(v[0] for v in classes.values() if v[1] == what))
            for end in ("+first", "-first", "+last", "-last"):
                pe = sum(v[0] for v in classes.values() if v[2] == {end})
                groups.setdefault("edits " + end, Group()).add(classes[chosen][2] == {end}, pe)
            for g in range(len(mats)):
                pgx = sum(v[0] for v in classes.values() if v[3] == g)
                groups.setdefault("additions of gate %d" % g, Group()).add(classes[chosen][3] == g, pgx)
            seq, m = hit[0][3], hit[0][4]
            c = cost(m)
            nb += 1
    for key in sorted(groups):
        g = groups[key]
        w.log(key, g.n, g.s, g.e)
        if g.tail() < ALPHA:
            raise Violation("wrong-distribution", "%s: %d in %d steps, expected %.1f +- %.1f"
                            % (key, g.s, g.n, g.e, math.sqrt(g.v)))
    w.probes["followed_steps"] += nb
    return {"nontrivial": nb > 10}


def shrink(plan):
    if plan["kind"] == "action":
        for b in (1, 2, plan["bundle"] // 2):
            if 0 < b < plan["bundle"]:
                yield dict(plan, bundle=b)
        for s in (1, 3, 10, 30):
            if s < plan["cfg"]["steps"]:
                yield dict(plan, cfg=dict(plan["cfg"], steps=s))
    else:
        for dr in (60, 240, 600, 1500, plan["draws"] // 2):
            if dr < plan["draws"]:
                yield dict(plan, draws=dr)
