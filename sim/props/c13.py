import copy

import numpy as np

from .. import hams, refs
from ..gates import Ctx, GateSet, build_prim, read, same_list, rand_prims
from ..rav import Rav, rand_rav, shrink_rav
from ..walk import Walk, rand_cfg, shrink_cfg
from ..work import CUT, diff, result_value, seq_value
from ..world import Violation, reseed

from stoqcompiler.unitary import Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry

ID = "C13"
TITLE = "Inputs are never modified and results share nothing"
QUICK, THOROUGH = 5000, 40000
RULE = ("One run builds objects, works with them, lets the user change every list that was handed in and every result "
        "that was handed out at seeded moments, and compares all other objects with their state before. Non-trivial: "
        "at least one user-side change happened after an object was built from the list, or to a returned object.")


def gen(i, rng, tier):
    mode = ["compile", "rav", "sequence", "ham", "compile", "sequence"][i % 6]
    plan = {"mode": mode, "script": rng.randrange(2 ** 31)}
    if mode == "compile":
        plan["cfg"] = rand_cfg(rng, max_steps=16)
        plan["cfg"]["entropy"] = None
        plan["cfg"]["append_p"] = rng.choice([0.5, 0.7, 1.0])
    elif mode == "rav":
        plan["cfg"] = rand_rav(rng, max_steps=10)
        plan["cfg"]["entropy"] = None
    elif mode == "sequence":
        plan["n"] = rng.choice([1, 2, 3])
        plan["gates"] = [refs.rand_gate(rng, plan["n"]) for _ in range(rng.randint(1, 6))]
        plan["nd"] = rng.random() < 0.3
        plan["tiny"] = rng.choice([0, 1, 2])
        plan["early"] = rng.choice([0, 1, 2])
    else:
        plan["ham"] = hams.rand_ham(rng, n=rng.choice([1, 2]), lo=2)
        plan["t"] = rng.uniform(0.1, 1.5)
    if mode in ("compile", "rav"):
        ps = plan["cfg"]["prims"]
        if len(ps) > 1 and rng.random() < 0.3:       # a gate without any placement
            j = rng.randrange(len(ps))
            c, cnt = plan["cfg"]["probs"], plan["cfg"].get("counts")
            rest = [x for x in range(len(ps)) if x != j and ps[x].get("apply") != []]
            t = plan["cfg"].get("target")
            used = {x[0] for x in t[1]} if t and t[0] in ("word", "near") else set()
            if rest and j not in used and (c is None or sum(c[x] for x in rest) > 0) and (not cnt or sum(cnt[x] for x in rest) > 0):
                ps[j]["apply"] = []
                if cnt:
                    cnt[j] = 0
        plan["np"] = rng.random() < 0.3
        plan["keep"] = rng.random() < 0.4
    return plan


def user_edits_lists(rng, walk, raw):
    """The user changes every list that was used to build things."""
    if isinstance(walk.container, list):
        r = rng.random()
        if r < 0.5:
            walk.container.clear()
        else:
            walk.container.append(walk.container[0])
            walk.container[0] = UnitaryPrimitive(Unitary(2, refs.gate(["x"]), "OTHER"), [[0]])
    else:
        for j in range(len(walk.container)):
            walk.container[j] = UnitaryPrimitive(Unitary(2, refs.gate(["x"]), "OTHER"), [[0]])
    if walk.probs is not None:
        for j in range(len(walk.probs)):
            walk.probs[j] = 0.0
    for lists in raw:
        if isinstance(lists, np.ndarray):
            lists[:] = 99
        elif lists:
            for inner in lists:
                if isinstance(inner, list) and inner:
                    inner[0] = 99
            lists.append([0, 0])
            del lists[0]


def run(plan, w):
    rng = __import__("random").Random(plan["script"])
    if plan["mode"] in ("compile", "rav"):
        return searches(plan, w, rng)
    if plan["mode"] == "sequence":
        return sequences(plan, w, rng)
    return hamiltonians(plan, w, rng)


def snapshot(s, target):
    out = {"gates": s.gs.fingerprint(), "probs": None if s.probs is None else [float(x) for x in s.probs],
           "container": [s.gs.prims.index(p) for p in s.container],
           "counts": None if s.counts is None else [(s.gs.prims.index(p), c) for p, c in s.counts.items()]}
    if target is not None:
        out["target"] = np.asarray(target.get_matrix()).round(12).tolist()
        out["target_text"] = target.get_display_name()
    return out


def same_snapshot(a, b, when):
    for k in a:
        if a[k] != b[k]:
            raise Violation("input-modified", "%s modified the %s" % (when, k))


def searches(plan, w, rng):
    cfg = plan["cfg"]
    n = cfg["n"]
    s = (Walk if plan["mode"] == "compile" else Rav)(w, cfg)
    # rebuild the gates from lists the user keeps
    raw = []
    prims = []
    for p in cfg["prims"]:
        lists = None if p.get("apply") is None else [list(x) for x in p["apply"]]
        raw.append(lists)
        built = build_prim(dict(p, apply=None), s.ctx)
        prims.append(UnitaryPrimitive(built.get_unitary(), lists))
    if plan.get("np"):
        # numpy versions of the lists
        prims, raw = [], []
        for p in cfg["prims"]:
            lists = None if p.get("apply") is None else np.array([list(x) for x in p["apply"]]) if p["apply"] else []
            raw.append(lists)
            prims.append(UnitaryPrimitive(build_prim(dict(p, apply=None), s.ctx).get_unitary(), lists))
        if s.probs is not None:
            s.probs = np.array(s.probs)
    persistent = keep_matrices(s.ctx) if plan.get("keep") else None
    s.gs.prims = prims
    s.container = s.gs.container(cfg.get("container", "list"))
    if s.counts is not None:
        s.counts = s.gs.counts(cfg["counts"])
    target = getattr(s, "target", None)
    before = snapshot(s, target)
    comp = s.compiler() if plan["mode"] == "compile" else None

    def go(seed=None):
        return s.run(compiler=comp, seed=seed) if comp is not None else s.run(seed=seed)
    r1 = go()
    v1 = result_value(r1, n)
    same_snapshot(before, snapshot(s, target), "the call")
    for arr, was in (persistent or {}).values():
        if not np.array_equal(arr, was):
            raise Violation("input-modified", "an array returned by a gate function was modified: %r, was %r" % (
                arr.ravel()[:4], was.ravel()[:4]))
    r2 = go(cfg["seed"] + 1)
    v2 = result_value(r2, n)
    p2 = np.array(r2.compiled_sequence.product().get_matrix())
    changed = vandalise(rng, r1, n)
    if persistent:
        for arr, _ in persistent.values():
            arr[:] = 0.5
        s.ctx.keep = None
    if diff(v2, result_value(r2, n)):
        raise Violation("shared-results", "editing one result changed another: %s" % diff(v2, result_value(r2, n)))
    if np.max(np.abs(p2 - r2.compiled_sequence.product().get_matrix())) > 1e-12:
        raise Violation("shared-results", "editing one result changed another's product")
    same_snapshot(before, snapshot(s, target), "editing a result")
    # the user's own lists change; the compiler and the gates were built before
    if comp is not None:
        user_edits_lists(rng, s, raw)
        changed = True
        if s.gs.fingerprint() != before["gates"]:
            raise Violation("aliased-input", "changing the placement lists after building gates changed the gates")
    else:
        for lists in raw:
            if isinstance(lists, np.ndarray):
                lists[:] = 99
            elif lists:
                for inner in lists:
                    inner[0] = 99
                lists.clear()
        if s.gs.fingerprint() != before["gates"]:
            raise Violation("aliased-input", "changing the placement lists after building gates changed the gates")
    v3 = result_value(go(), n)
    if diff(v1, v3):
        raise Violation("aliased-input", "after the user changed their own lists and a returned result, the same call "
                        "gives another result: %s" % diff(v1, v3))
    w.log(v1["costs"], [e[0] for e in v1["entries"]])
    return {"nontrivial": changed}


def keep_matrices(ctx):
    """Gate functions return arrays they keep, with tiny entries where the exact matrix has zeros."""
    kept = {}

    def keep(name, values, m):
        key = (name, tuple(values))
        if key not in kept:
            m = np.where(np.abs(m) < 1e-15, 3e-13 + 1e-13j, m)
            kept[key] = (m, m.copy())
        return kept[key][0]
    ctx.keep = keep
    return kept


def vandalise(rng, res, n):
    """The user edits a returned result."""
    seq = res.compiled_sequence
    ents = seq.get_sequence_entries()
    before = seq_value(seq, n)
    for e in ents:
        ap = e.get_apply_to()
        if isinstance(ap, list) and ap:
            ap[0] = 7
        m = e.get_full_unitary(2 ** n).get_matrix() if False else None
        del m
    ents.clear()
    if diff(before, seq_value(seq, n)):
        raise Violation("shared-entries", "editing the entries read from a sequence changed the sequence: %s"
                        % diff(before, seq_value(seq, n)))
    res.cost_by_step.append(-1.0)
    if len(res.cost_by_step) > 1:
        res.cost_by_step[0] = 17.0
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.randrange(4)
        if k == 0:
            seq.append_last(UnitarySequenceEntry(Unitary(2, refs.gate(["x"]), "NEW"), [0]))
        elif k == 1:
            seq.append_first(UnitarySequenceEntry(Unitary(2, refs.gate(["h"]), "NEW"), [n - 1]))
        elif k == 2:
            seq.remove_first()
        else:
            seq.remove_last()
    return True


def sequences(plan, w, rng):
    n = plan["n"]
    d = 2 ** n
    mats, ents, aps, gates = [], [], [], []
    for g in plan["gates"]:
        q = refs.gate_qubits(g)
        ap = rng.sample(range(n), q)
        arr = refs.gate(g).astype(complex)
        if plan["tiny"]:
            arr = np.where(np.abs(arr) < 1e-15, 2e-13 - 3e-14j, arr)
            if plan["tiny"] == 2:
                arr = arr * np.exp(0.3j)
        u = Unitary(2 ** q, arr, "G")
        gates.append(u)
        aps.append(list(ap))
        mats.append(arr)
        lst = aps[-1]
        ents.append(UnitarySequenceEntry(u, lst))
    refs_before = [m.copy() for m in mats]
    src = list(ents)
    if plan["nd"]:
        arr = np.empty(len(src), dtype=object)
        arr[:] = src
        src = arr
    if plan.get("early"):
        early(plan, w, ents, aps, mats, n)
    seq = w.must("building a sequence", UnitarySequence, d, src)
    want = [refs.embed(m, list(a), n) for m, a in zip(mats, aps)]
    v0 = seq_value(seq, n)
    e0 = [e.get_full_unitary(d).get_display_name() for e in ents]
    other = w.must("building a second sequence", UnitarySequence, d, src)
    third = appended(w, rng, ents, d)
    v3 = seq_value(third, n)
    if diff(v0, v3, 1e-9):
        raise Violation("aliased-input", "adding entries one by one gives another sequence: %s" % diff(v0, v3, 1e-9))
    # sequence-level operations must not touch inputs
    seq.product()
    inv = w.must("inverting", seq.inverse)
    comb = w.must("concatenating", UnitarySequence.combine, seq, other, seq)
    vi, vc = seq_value(inv, n), seq_value(comb, n)
    for a, b in zip(mats, refs_before):
        if not np.array_equal(a, b):
            raise Violation("input-modified", "the matrix handed to a gate was modified")
    if [e.get_full_unitary(d).get_display_name() for e in ents] != e0:
        raise Violation("input-modified", "sequence operations changed the entries they were given")
    # the user changes everything that was handed in
    for a in aps:
        a[0] = 99
        a.append(0)
    for m in mats:
        m[:] = 0
    if plan["nd"]:
        src[0] = None
    else:
        src.clear()
    # and edits one of the sequences
    for _ in range(3):
        k = rng.randrange(3)
        if k == 0:
            seq.remove_first()
        elif k == 1:
            seq.append_last(UnitarySequenceEntry(Unitary(2, refs.gate(["x"]), "NEW"), [0]))
        else:
            got = seq.get_sequence_entries()
            for e in got:
                ap = e.get_apply_to()
                ap[0] = 5
    for what, s, v in (("second sequence built from the same entries", other, v0),
                       ("sequence the same entries were added to", third, v3),
                       ("inverse", inv, vi), ("concatenation", comb, vc)):
        dd = diff(v, seq_value(s, n), 1e-9)
        if dd:
            raise Violation("aliased-input", "changing the input lists and editing one sequence changed the %s: %s"
                            % (what, dd))
    m = np.eye(d, dtype=complex)
    for x in want:
        m = x @ m
    if refs.phase_diff(np.asarray(third.product().get_matrix()), m) > 1e-7:
        raise Violation("aliased-input", "the product of a sequence changed with the inputs added to it")
    if refs.phase_diff(np.asarray(other.product().get_matrix()), m) > 1e-7:
        raise Violation("aliased-input", "the product of a sequence changed with its inputs")
    for e, nm in zip(ents, e0):
        if e.get_full_unitary(d).get_display_name() != nm:
            raise Violation("aliased-input", "changing the qubit list after building an entry changed the entry")
    # the entries handed in change as well
    for e, u in zip(ents, gates):
        ap = e.get_apply_to()
        if isinstance(ap, list):
            ap[0] = 7
        u.get_matrix()[:] = 0
        e.get_full_unitary(d).get_matrix()[:] = 0
    for what, s, v in (("second sequence built from the same entries", other, v0),
                       ("sequence the same entries were added to", third, v3),
                       ("inverse", inv, vi), ("concatenation", comb, vc)):
        dd = diff(v, seq_value(s, n), 1e-9)
        if dd:
            raise Violation("aliased-input", "changing the entries a sequence was built from changed the %s: %s" % (what, dd))
    w.log([x[0] for x in v0])
    return {"nontrivial": True}


def appended(w, rng, ents, d):
    """The same entries, added one by one at either end, with the product read at some moment or never."""
    seq = w.must("an empty sequence", UnitarySequence, d)
    k = rng.randrange(len(ents) + 1)            # the entries from k on are added last, those before it first
    order = list(range(k, len(ents))) + list(range(k - 1, -1, -1))
    read_at = rng.randrange(2 * len(ents))
    for j, i in enumerate(order):
        if j == read_at:
            seq.product()
        w.must("adding an entry", seq.append_last if i >= k else seq.append_first, ents[i], bool(rng.randrange(2)))
    return seq


def early(plan, w, ents, aps, mats, n):
    """What is read from a sequence before anything else is done with it belongs to the reader as well."""
    d = 2 ** n
    want = [refs.embed(m, list(a), n) for m, a in zip(mats, aps)]
    mine = [UnitarySequenceEntry(Unitary(2 ** len(a), m.copy(), "E"), list(a)) for a, m in zip(aps, mats)]
    seq = w.must("building a sequence", UnitarySequence, d, list(mine))
    got = seq.get_sequence_entries()
    for e in got:
        e.get_full_unitary(d).get_matrix()[:] = 0
        ap = e.get_apply_to()
        if isinstance(ap, list):
            if plan["early"] == 1:
                ap[:] = [n + 5] * len(ap)
            else:
                ap.reverse()
    got.clear()
    again = seq.get_sequence_entries()
    if len(again) != len(want):
        raise Violation("shared-entries", "clearing a list of entries read from a new sequence changed the sequence")
    for j, (e, m, a) in enumerate(zip(again, want, aps)):
        if [int(q) for q in e.get_apply_to()] != list(a) or refs.phase_diff(np.asarray(e.get_full_unitary(d).get_matrix()), m) > 1e-9:
            raise Violation("shared-entries", "changing entries read from a new sequence changed its entry %d" % j)
    p = np.eye(d, dtype=complex)
    for m in want:
        p = m @ p
    if refs.phase_diff(np.asarray(seq.product().get_matrix()), p) > 1e-9:
        raise Violation("shared-entries", "changing entries read from a new sequence changed its product")


def hamiltonians(plan, w, rng):
    h = hams.Ham(plan["ham"])
    n = h.n
    keep = [m.copy() for m in h.inputs]
    ref_m = [np.array(t.get_matrix()) for t in h.terms]
    exact = np.array(h.lib.get_time_evolution_operator(plan["t"]).get_matrix())

    def suite():
        reseed(plan["script"])
        out = [seq_value(h.lib.get_ideal_sequence(plan["t"], 3), n),
               seq_value(h.lib.get_trotter_sequence(plan["t"], 3), n),
               seq_value(h.lib.get_trotter_sequence(plan["t"], 3, True), n),
               seq_value(h.lib.get_trotter_sequence(plan["t"], 2), n),
               seq_value(h.lib.get_qdrift_sequence(plan["t"], 4), n)]
        o = w.call(h.lib.compile_stoq_sequence, plan["t"], 0.4, 0.35, bool(plan["script"] & 1), budget=60000)
        out.append(result_value(o.value, n) if o.ok else CUT)
        return out
    a = w.must("Hamiltonian sequences", suite, budget=10 ** 7)
    for m, k in zip(h.inputs, keep):
        if not np.array_equal(m, k):
            raise Violation("input-modified", "the matrix handed to a Hamiltonian term was modified")
    for t, m in zip(h.terms, ref_m):
        if not np.array_equal(np.asarray(t.get_matrix()), m):
            raise Violation("input-modified", "generating sequences changed a Hamiltonian term")
    h.term_list.reverse()
    h.term_list.append(h.term_list[0])
    if rng.random() < 0.5:
        h.term_list.clear()
    b = w.must("Hamiltonian sequences", suite, budget=10 ** 7)
    if CUT in (a[-1], b[-1]):
        a, b = a[:-1], b[:-1]
    d = diff(a, b)
    if d:
        raise Violation("aliased-input", "after the user changed their own term list (and after earlier calls), the "
                        "same calls give other results: %s" % d)
    if refs.phase_diff(exact, np.asarray(h.lib.get_time_evolution_operator(plan["t"]).get_matrix())) > 1e-9:
        raise Violation("aliased-input", "the evolution operator changed with the user's term list")
    w.log([x[0] for s in a[:5] for x in s])
    return {"nontrivial": True}


def shrink(plan):
    if plan["mode"] == "compile":
        for c in shrink_cfg(plan["cfg"]):
            yield dict(plan, cfg=c)
    elif plan["mode"] == "rav":
        for c in shrink_rav(plan["cfg"]):
            yield dict(plan, cfg=c)
    elif plan["mode"] == "sequence":
        for j in range(len(plan["gates"])):
            if len(plan["gates"]) > 1:
                yield dict(plan, gates=plan["gates"][:j] + plan["gates"][j + 1:])
    elif len(plan["ham"]["terms"]) > 2:
        yield dict(plan, ham=dict(plan["ham"], terms=plan["ham"]["terms"][:-1]))


_ = (Ctx, GateSet, read, same_list, rand_prims)
