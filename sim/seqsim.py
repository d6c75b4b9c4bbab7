"""Histories over several live sequences that share entry objects, checked against a list model."""
import copy
import pickle
import re

import numpy as np

from . import refs
from .gates import TOL, PROBES, PD, Unitary, UnitarySequence, UnitarySequenceEntry
from .world import Violation, rng_for

HEAD = re.compile(r"^\s*(#|//)")
TEXTS = ("qasm", "jaqal", "display")


class ModelEnt:
    """One entry: gate matrix on its own qubits, placement, label."""
    __slots__ = ("name", "params", "apply", "m", "inv", "cache")

    def __init__(self, name, params, apply, m, inv=False):
        self.name, self.params, self.apply, self.m, self.inv = name, params, tuple(apply), m, inv
        self.cache = {}

    def full(self, n):
        if n not in self.cache:
            self.cache[n] = refs.embed(self.m, self.apply, n)
        return self.cache[n]

    def inverse(self):
        return ModelEnt(self.name, self.params, self.apply, self.m.conj().T, not self.inv)

    def __repr__(self):
        return "%s%s%s" % (self.name, "†" if self.inv else "", list(self.apply))


# ---------------------------------------------------------------- pool of entries

def rand_pool_gate(rng, n):
    r = rng.random()
    if r < 0.7:
        return {"g": refs.rand_gate(rng, min(n, 3))}
    if r < 0.9:
        k = rng.choice(["rxy", "rxyz", "tev"] + (["xx", "gms2"] if n >= 2 else []))
        v = {"rxy": 2, "rxyz": 3}.get(k, 1)
        return {"p": k, "v": [rng.uniform(0, 2 * np.pi) if k != "tev" else rng.uniform(-1, 1) for _ in range(v)],
                "npf": rng.random() < 0.5, "h": rng.randrange(1000)}
    # a user-made gate with its own labels
    names = [f for f, (q, _, _) in PROBES.items() if q <= n and PROBES[f][1] and not f.startswith("hash")]
    f = rng.choice(names)
    return {"u": f, "v": [rng.uniform(-7, 7) for _ in range(PROBES[f][1])],
            "ang": [rng.random() < 0.5 for _ in range(PROBES[f][1])], "name": rng.choice(["gate", "My gate", "G_1", "λ/N", "I", "X", "H", "T", "CNOT", "U"])}


def gate_parts(s):
    """(qubits, reference matrix, name, params, builder)"""
    if "g" in s:
        g = s["g"]
        name, params = refs.gate_label(g)
        return refs.gate_qubits(g), refs.gate(g), name, params, lambda: refs.lib_gate(g)
    if "p" in s:
        from .gates import prim_matrix, prim_params, prim_name, build_prim
        k = s["p"]
        p = {"k": "gms" if k == "gms2" else k, "n": 2, "d": 2, "h": s["h"], "t0": -1.0, "t1": 1.0}
        vals = [np.float64(v) for v in s["v"]] if s["npf"] else list(s["v"])
        params = [(a[0], v, a[3]) for a, v in zip(prim_params(p), s["v"])]
        q = {"rxy": 1, "rxyz": 1, "tev": 1}.get(k, 2)
        return q, np.asarray(prim_matrix(p, s["v"])), prim_name(p), params, \
            lambda: build_prim(p, None).get_unitary().as_unitary(np.array(vals) if s["npf"] else vals)
    if "r" in s:
        d = 2 ** s["q"]
        m = refs.haar(d, rng_for("alias", s["r"]))
        return s["q"], m, s["name"] or "U", [], lambda: Unitary(d, m.copy(), s["name"]) if s["name"] else Unitary(d, m.copy())
    f = s["u"]
    q, _, fn = PROBES[f]
    m = np.asarray(fn(*s["v"]), complex)
    params = [("abc"[i], v, a) for i, (v, a) in enumerate(zip(s["v"], s["ang"]))]
    return q, m, s["name"], params, lambda: Unitary(2 ** q, m, s["name"], {a: (b, c) for a, b, c in params})


def gate_q(s):
    if "g" in s:
        return refs.gate_qubits(s["g"])
    if "r" in s:
        return s["q"]
    if "p" in s:
        return 2 if s["p"] in ("xx", "gms2") else 1
    return PROBES[s["u"]][0]


def rand_pool(rng, n, lo=2, hi=7, outside=0.0):
    out = []
    for _ in range(rng.randint(lo, hi)):
        s = rand_pool_gate(rng, n)
        q = gate_q(s)
        top = n
        if rng.random() < outside:
            top = n + 3
        s["apply"] = rng.sample(range(top), min(q, top))
        s["kind"] = rng.choice(["list", "list", "np", "tuple", "array"])
        if rng.random() < 0.15:
            s["inv"] = True
        out.append(s)
    if rng.random() < 0.35:
        out += alias_gates(rng, n, rng.choice([2, 3]))
    if n > 1 and rng.random() < 0.3:
        out += shared_gate(rng, n)
    return out


def shared_gate(rng, n):
    """One gate object used by several entries, on the same qubits in another order and on other qubits."""
    s = rand_pool_gate(rng, n)
    if rng.random() < 0.6:
        s = {"g": rng.choice([["cnot"], ["cnot"], ["ccnot"] if n > 2 else ["cnot"], ["haar", 4, rng.randrange(10 ** 6)]])}
    s["grp"] = rng.randrange(10 ** 6)
    q = min(gate_q(s), n)
    ap = rng.sample(range(n), q)
    out = []
    for _ in range(rng.choice([2, 3])):
        out.append(dict(s, apply=list(ap), kind="list"))
        ap = list(reversed(ap)) if rng.random() < 0.7 else rng.sample(range(n), q)
    return out


def alias_gates(rng, n, k):
    """Different gates that look alike: same name, no parameters, often on the same qubits."""
    out = []
    q = rng.randint(1, min(n, 2))
    ap = rng.sample(range(n), q)
    name = rng.choice([None, None, "G", "U", "I", "X"])
    for _ in range(k):
        if rng.random() < 0.3:
            ap = rng.sample(range(n), q)
        out.append({"r": rng.randrange(10 ** 6), "q": q, "name": name, "apply": list(ap), "kind": "list"})
    return out


def build_pool(specs):
    groups = {}
    return [build_entry(s, groups) for s in specs]


def build_entry(s, groups=None):
    q, m, name, params, builder = gate_parts(s)
    g = s.get("grp")
    if g is None or groups is None:
        u = builder()
    else:
        if g not in groups:
            groups[g] = builder()
        u = groups[g]
    if s.get("inv"):
        u = u.inverse()
        m = m.conj().T
    ap = list(s["apply"])
    given = {"list": ap, "np": [np.int64(a) for a in ap], "tuple": tuple(ap), "array": np.array(ap)}[s["kind"]]
    return UnitarySequenceEntry(u, given), ModelEnt(name, params, ap, m, bool(s.get("inv")))


# ---------------------------------------------------------------- histories

class Slot:
    __slots__ = ("seq", "n", "ents", "undo")

    def __init__(self, seq, n, ents, undo=None):
        self.seq, self.n, self.ents = seq, n, list(ents)
        self.undo = [None] if undo is None else undo


def rand_ops(rng, weights, k, faults=0.0, read_faults=0.0):
    kinds = list(weights)
    ws = [weights[x] for x in kinds]
    out = []
    for o in rng.choices(kinds, ws, k=k):
        op = [o, rng.randrange(64), rng.randrange(64), rng.random() < 0.7]
        f = None
        if o in EDITS and rng.random() < faults:
            f = {"kind": rng.choice(["alloc", "alloc", "numeric"]), "k": int(10 ** rng.uniform(0, 2.1)) - 1}
        if o in READS and rng.random() < read_faults:
            kd = rng.choice(["interrupt", "interrupt", "alloc"])
            f = {"kind": kd, "k": int(10 ** rng.uniform(0, 2.6)) - 1}
        if f:
            op.append(f)
        out.append(op)
    return out


def long_ones(i, rng, plan, every=14):
    """Every so often, a history about sequences that are long from the start."""
    if i % every == 9 % every:
        plan["size"] = rng.choice([16, 20, 32, 33, 64, 65, 65, 100, 128, 129, 140])
        plan["ops"] = plan["ops"][:rng.choice([3, 6, 10, 16])]
        plan["every"] = 8
        if plan["n"] > 2:
            plan["size"] //= 2
    return plan


def burst(rng, ops):
    """In the middle of a history: one recorded edit, many that are not recorded, then undo."""
    a = rng.choice([0, 0, rng.randrange(64)])
    mid = [[rng.choice(["rlast", "rfirst", "first", "last", "last"]), a, rng.randrange(64), True]]
    grow = rng.random() < 0.7
    for _ in range(rng.choice([2, 6, 14, 14, 40])):
        mid.append([rng.choice(["first", "last"] if grow else ["first", "last", "rfirst", "rlast"]), a, rng.randrange(64), False])
        if rng.random() < 0.05:
            mid.append(["product", a, 0, False])
    mid.append(["undo", a, 0, True])
    at = rng.choice([0, rng.randint(0, len(ops))])
    return ops[:at] + mid + ops[at:]


EDITS = {"first", "last", "rfirst", "rlast", "undo"}
READS = {"product", "entries", "inverse", "combine", "qasm", "jaqal", "display", "copy", "length", "embed"}


def _shuffle_pick(ws, idx):
    return ws[idx % len(ws)]


class History:
    """Runs ops on live sequences next to the model.  checks: subset of {"entries", "product", "undo", "text", "pure"}"""

    def __init__(self, w, plan, checks):
        self.w, self.plan, self.checks = w, plan, checks
        self.n = plan["n"]
        self.pool = build_pool(plan["pool"])
        self.slots = []
        self.stats = {"edits": 0, "undos": 0, "derived": 0, "failed": 0, "reads": 0, "removed": 0, "restored": 0}
        self.disk = {}
        self.new(0, 0)

    # ---- helpers

    def new(self, a, b, kind=None):
        k = (a * 7 + b) % 5 if len(self.slots) else 0
        if self.plan.get("size") and (a + b) % 3 != 1:      # a long sequence from the start
            k = max(0, self.plan["size"] + (a + 2 * b) % 3 - 1)
        n = self.n + (1 if b % 4 == 3 and self.n < 4 else 0)
        idx = [(a + j * (1 + b)) % len(self.pool) for j in range(k)]
        if b % 3 == 1 and idx:
            idx = [idx[0]] * len(idx)          # one entry object several times
        idx = [i for i in idx if max(self.pool[i][1].apply) < n]
        ents = [self.pool[i][0] for i in idx]
        if not ents and b % 2:
            seq = self.w.must("an empty sequence", UnitarySequence, 2 ** n)
        else:
            if (a + b) % 3 == 0:
                arr = np.empty(len(ents), dtype=object)
                for i, e in enumerate(ents):
                    arr[i] = e
                ents = arr
            seq = self.w.must("building a sequence from %s" % type(ents).__name__, UnitarySequence, 2 ** n, ents)
            if isinstance(ents, list):
                ents.append("the user reuses this list")
        self.put(Slot(seq, n, [self.pool[i][1] for i in idx]), a)

    def put(self, s, a):
        if len(self.slots) < 5:
            self.slots.append(s)
        else:
            self.slots[1 + a % 4] = s

    # ---- one operation

    def op(self, op):
        o, a, b, flag = op[:4]
        fault = op[4] if len(op) > 4 else None
        s = self.slots[a % len(self.slots)]
        getattr(self, "do_" + o)(s, a, b, flag, fault)
        self.w.log(o, a % len(self.slots), len(s.ents))

    def edit(self, s, what, fn, args, after, save, fault, undo_after=None):
        """after: the model entries if the edit takes place; None if it must be refused."""
        before = s.ents
        out = self.w.call(fn, *args, fault=fault)
        if out.hang:
            raise Violation("hang", "%s did not end" % what)
        if after is None:
            if out.ok:
                raise Violation("accepted", "%s was not refused" % what)
            self.stats["failed"] += 1
            if out.fired:
                return self.settle(s, [(before, s.undo)], what)
            return self.settle(s, [(before, s.undo)], what)
        if out.ok:
            s.ents = after
            if undo_after is not None:
                s.undo = undo_after
            self.stats["edits"] += 1
            return None
        if not out.fired:
            raise Violation("unexpected-error", "%s failed: %r" % (what, out))
        self.stats["failed"] += 1
        undo_mid = list(s.undo) + ([before] if save else [])
        cands = [(before, undo_mid), (after, undo_mid + (undo_after or []))]
        return self.settle(s, cands, what + " failing with a simulated %s" % fault["kind"])

    def settle(self, s, cands, what):
        """After a failed edit: which of the candidate states does the sequence hold?"""
        got = self.read(s)
        for ents, undo in cands:
            if self.matches(got, ents, s.n) is None:
                s.ents, s.undo = ents, undo
                break
        else:
            raise Violation("torn-edit", "after %s the sequence holds %s; it held %s" % (
                what, [g[0] + str(list(g[1])) for g in got], s.ents))
        if "product" in self.checks or "failed" in self.checks:
            self.check_product(s, "after " + what)

    # ---- reading

    def read(self, s, n=None):
        out = []
        ents = self.w.must("reading the entries", s.seq.get_sequence_entries)
        for e in ents:
            u = e.get_full_unitary(2 ** (n or s.n))
            out.append((u.get_operation_name(), tuple(int(q) for q in e.get_apply_to()), np.asarray(u.get_matrix()), u))
        if s.seq.get_length() != len(out):
            raise Violation("wrong-length", "get_length() is %d for %d entries" % (s.seq.get_length(), len(out)))
        return out

    @staticmethod
    def matches(got, ents, n):
        if len(got) != len(ents):
            return "%d entries instead of %d" % (len(got), len(ents))
        for i, (g, m) in enumerate(zip(got, ents)):
            if g[0] != m.name:
                return "entry %d is %s instead of %s" % (i, g[0], m.name)
            if g[1] != m.apply:
                return "entry %d is applied to %s instead of %s" % (i, list(g[1]), list(m.apply))
            if refs.phase_diff(g[2], m.full(n)) > TOL:
                return "entry %d (%r) has a different matrix" % (i, m)
            for pn, v, ang in m.params:
                r = g[3].get_parameter_value(pn)
                if r is None or abs(float(r[0]) - v) > 1e-12 or bool(r[1]) != bool(ang):
                    return "entry %d reports %s=%s instead of %s" % (i, pn, r, v)
        return None

    def check_entries(self, s, when):
        got = self.read(s)
        d = self.matches(got, s.ents, s.n)
        if d is None and "marks" in self.checks:
            for i, (g, m) in enumerate(zip(got, s.ents)):
                line = g[3].get_display_name()
                why = display_line(line.strip(), m)
                if why:
                    d = "entry %d is shown as %r: %s" % (i, line, why)
                    break
        if d:
            raise Violation("wrong-entries", "%s: %s; expected %s" % (when, d, s.ents[:12]))

    def expected_product(self, s):
        m = np.eye(2 ** s.n, dtype=complex)
        for e in s.ents:
            m = e.full(s.n) @ m
        return m

    def check_product(self, s, when, fault=None):
        out = self.w.call(s.seq.product, fault=fault)
        self.stats["reads"] += 1
        if not out.ok:
            if out.hang or not out.fired:
                raise Violation("unexpected-error", "%s: the product cannot be read: %r" % (when, out))
            return
        d = refs.phase_diff(np.asarray(out.value.get_matrix()), self.expected_product(s))
        if d > 1e-9 + 1e-11 * len(s.ents):
            raise Violation("wrong-product", "%s: the product of %d entries is off by %.2g" % (when, len(s.ents), d))

    # ---- edits

    def do_first(self, s, a, b, flag, fault, last=False):
        e, m = self.pool[b % len(self.pool)]
        fits = max(m.apply) < s.n
        after = (s.ents + [m] if last else [m] + s.ents) if fits else None
        fn = s.seq.append_last if last else s.seq.append_first
        args = [e] if flag and b % 2 else [e, flag]
        self.edit(s, "adding %r %s" % (m, "last" if last else "first"), fn, args, after, flag, fault,
                  [s.ents] if flag else None)

    def do_last(self, s, a, b, flag, fault):
        self.do_first(s, a, b, flag, fault, last=True)

    def do_rfirst(self, s, a, b, flag, fault, last=False):
        fn = s.seq.remove_last if last else s.seq.remove_first
        args = [] if flag and b % 2 else [flag]
        if not s.ents:
            out = self.w.call(fn, *args, fault=fault)
            if not out.ok and not out.fired:
                raise Violation("unexpected-error", "removing from an empty sequence failed: %r" % out)
            return
        after = s.ents[:-1] if last else s.ents[1:]
        self.stats["removed"] += 1
        self.edit(s, "removing the %s entry" % ("last" if last else "first"), fn, args, after, flag, fault,
                  [s.ents] if flag else None)

    def do_rlast(self, s, a, b, flag, fault):
        self.do_rfirst(s, a, b, flag, fault, last=True)

    def do_undo(self, s, a, b, flag, fault):
        before = s.ents
        out = self.w.call(s.seq.undo, fault=fault)
        cands = [u for u in s.undo if u is not None]
        if out.hang:
            raise Violation("hang", "undo did not end")
        if out.ok:
            if not cands:
                raise Violation("undo-accepted", "undo with nothing to undo was accepted")
            got = self.read(s)
            for u in cands:
                why = self.matches(got, u, s.n)
                if why is None:
                    break
            else:
                raise Violation("wrong-undo", "undo gives %s; expected %s" % (
                    [g[0] + str(list(g[1])) for g in got], " or ".join(map(str, cands))))
            s.ents, s.undo = u, [None]
            self.stats["undos"] += 1
            if flag:
                self.check_product(s, "after undo")
            return
        if out.fired:
            self.settle(s, [(before, s.undo)] + [(u, [None] + s.undo) for u in cands], "a failing undo")
            return
        if None not in s.undo:
            raise Violation("undo-refused", "undo was refused after a recorded change: %r" % out)
        s.undo = [None]
        self.check_entries(s, "after a refused undo")

    def do_bad(self, s, a, b, flag, fault):
        """Things that must be refused without effect."""
        e, m = self.pool[b % len(self.pool)]
        k = b % 4
        if k == 0:
            bad = None
        elif k == 1:
            bad = self.w.must("a gate", e.get_full_unitary, 2 ** (max(m.apply) + 1))
        elif k == 2:
            bad = UnitarySequenceEntry(Unitary.identity(2), [s.n])
        else:
            bad = UnitarySequenceEntry(Unitary.identity(2 ** (s.n + 1)), list(range(s.n + 1)))
        fn = s.seq.append_first if a % 2 else s.seq.append_last
        self.edit(s, "adding something that does not fit", fn, [bad, flag], None, flag, fault)

    # ---- reads

    def read_op(self, what, fn, *args, fault=None):
        out = self.w.call(fn, *args, fault=fault)
        self.stats["reads"] += 1
        if out.ok:
            return out.value
        if out.hang or not out.fired:
            raise Violation("unexpected-error", "%s failed: %r" % (what, out))
        self.stats["failed"] += 1
        return None

    def do_product(self, s, a, b, flag, fault):
        if "product" in self.checks or "failed" in self.checks or "undo" in self.checks or "copy" in self.checks:
            self.check_product(s, "product", fault)
        else:
            self.read_op("product", s.seq.product, fault=fault)

    def do_entries(self, s, a, b, flag, fault):
        if fault:
            self.read_op("entries", s.seq.get_sequence_entries, fault=fault)
            return
        got = self.w.must("reading the entries", s.seq.get_sequence_entries)
        if flag:
            for e in got:                     # what was read belongs to the user
                ap = e.get_apply_to()
                if isinstance(ap, list):
                    ap.reverse()
            got.clear()
        self.check_entries(s, "entries")

    def do_length(self, s, a, b, flag, fault):
        v = self.read_op("length", s.seq.get_length, fault=fault)
        if v is not None and v != len(s.ents):
            raise Violation("wrong-length", "get_length() is %d, the history implies %d" % (v, len(s.ents)))

    def do_embed(self, s, a, b, flag, fault):
        e, m = self.pool[b % len(self.pool)]
        n = max(self.n, max(m.apply) + 1) + a % 2
        if n > 5:
            return
        v = self.read_op("embedding", e.get_full_unitary, 2 ** n, fault=fault)
        if v is not None and "embed" in self.checks and refs.phase_diff(np.asarray(v.get_matrix()), m.full(n)) > TOL:
            raise Violation("wrong-embedding", "%r in a %d-qubit system is wrong" % (m, n))

    def do_new(self, s, a, b, flag, fault):
        self.new(a, b)

    def do_big(self, s, a, b, flag, fault):
        """A long sequence built at once."""
        n = s.n
        ok = [p for p in self.pool if max(p[1].apply) < n]
        if not ok:
            return
        rng = rng_for("big", a, b, len(s.ents))
        pick = [rng.choice(ok) for _ in range([40, 100, 128, 129, 150, 200, 257, 300, 520][(a + b) % 9])]
        t = Slot(self.w.must("building a long sequence", UnitarySequence, 2 ** n, [e for e, _ in pick]), n, [m for _, m in pick])
        if flag:
            self.check_product(t, "a sequence built from %d entries" % len(pick))
        for k in range(b % 4):
            e, m = rng.choice(ok)
            self.edit(t, "adding to a long sequence", t.seq.append_last, [e, bool(k % 2)], t.ents + [m], bool(k % 2), None,
                      [t.ents] if k % 2 else None)
        self.check_product(t, "a long sequence")
        if b % 5 == 0:
            self.put(t, a)

    def do_inverse(self, s, a, b, flag, fault):
        v = self.read_op("inverse", s.seq.inverse, fault=fault)
        if v is None:
            return
        t = Slot(v, s.n, [e.inverse() for e in reversed(s.ents)])
        self.stats["derived"] += 1
        if "derived" in self.checks:
            self.check_entries(t, "inverse")
            if flag:
                self.check_product(t, "inverse")
                self.check_refused_undo(t, "a new inverse")
        self.put(t, b)

    def do_combine(self, s, a, b, flag, fault):
        like = [x for x in self.slots if x.n == s.n]
        parts = [s] + (like[:b % 3] if b % 4 else [like[(b // 4 + j) % len(like)] for j in range(1 + b // 4 % 7)])
        if b % 2:
            parts.reverse()
        if sum(len(p.ents) for p in parts) > (500 if self.plan.get("size") else 60):
            return
        v = self.read_op("combine", UnitarySequence.combine, *[p.seq for p in parts], fault=fault)
        if v is None:
            return
        t = Slot(v, s.n, [e for p in parts for e in p.ents])
        self.stats["derived"] += 1
        if "derived" in self.checks:
            self.check_entries(t, "concatenation")
            if flag:
                self.check_product(t, "concatenation")
                self.check_refused_undo(t, "a new concatenation")
        self.put(t, b)

    def check_refused_undo(self, t, what):
        out = self.w.call(t.seq.undo)
        if out.ok:
            raise Violation("undo-accepted", "undo on %s was accepted" % what)
        self.check_entries(t, "after a refused undo on %s" % what)

    def do_mixed(self, s, a, b, flag, fault):
        """Concatenating systems of different sizes is refused."""
        other = [x for x in self.slots if x.n != s.n]
        if not other:
            return
        out = self.w.call(UnitarySequence.combine, s.seq, other[0].seq)
        if out.ok:
            raise Violation("accepted", "sequences of %d and %d qubits were concatenated" % (s.n, other[0].n))

    # ---- texts

    def do_qasm(self, s, a, b, flag, fault, kind="qasm"):
        fn = {"qasm": s.seq.get_qasm, "jaqal": s.seq.get_jaqal, "display": s.seq.get_display_output}[kind]
        v = self.read_op(kind, fn, fault=fault)
        if v is None:
            return
        if "text" in self.checks or "copy" in self.checks:
            check_text(kind, v, s.ents)

    def do_jaqal(self, s, a, b, flag, fault):
        self.do_qasm(s, a, b, flag, fault, "jaqal")

    def do_display(self, s, a, b, flag, fault):
        self.do_qasm(s, a, b, flag, fault, "display")

    # ---- copies, saves, crashes

    def do_copy(self, s, a, b, flag, fault):
        fn = copy.deepcopy if b % 2 else (lambda x: pickle.loads(pickle.dumps(x, protocol=2 + b % 4)))
        v = self.read_op("copying", fn, s.seq, fault=fault)
        if v is None:
            return
        self.stats["derived"] += 1
        t = Slot(v, s.n, s.ents, list(s.undo))
        if flag:
            self.put(t, b)
        else:                                # the copy replaces the original, which is gone
            s.seq = t.seq

    def do_save(self, s, a, b, flag, fault):
        self.disk[a % len(self.slots)] = (self.w.must("saving", pickle.dumps, s.seq, 2 + b % 4), s.n, s.ents, list(s.undo))

    def do_crash(self, s, a, b, flag, fault):
        """Everything in memory is lost; sequences that were saved come back as saved."""
        slots = []
        for i, x in enumerate(self.slots):
            if i in self.disk:
                raw, n, ents, undo = self.disk[i]
                slots.append(Slot(self.w.must("restoring", pickle.loads, raw), n, ents, list(undo)))
                self.stats["restored"] += 1
        self.w.fired["crash"] += 1
        self.pool = build_pool(self.plan["pool"])
        self.disk = {i: self.disk[j] for i, j in enumerate(sorted(self.disk))}
        self.slots = []
        if slots:
            self.slots = slots
        else:
            self.new(0, 0)

    # ---- end of the run

    def finish(self):
        for i, s in enumerate(self.slots):
            self.check_entries(s, "at the end, sequence %d" % i)
            if "text" in self.checks:
                for k in TEXTS:
                    self.do_qasm(s, 0, 0, True, None, k)
            if "product" in self.checks or "failed" in self.checks or "derived" in self.checks or "copy" in self.checks:
                self.check_product(s, "at the end, sequence %d" % i)
        if "undo" in self.checks or "failed" in self.checks or "copy" in self.checks:
            for s in self.slots:
                self.do_undo(s, 0, 0, True, None)
                out = self.w.call(s.seq.undo)
                if out.ok:
                    raise Violation("undo-accepted", "a second undo of one change was accepted")
                self.check_entries(s, "after a refused undo")
                self.check_product(s, "after undo")
        for i, s in enumerate(self.slots):
            self.check_entries(s, "at the end, sequence %d" % i)

    def run(self):
        for i, op in enumerate(self.plan["ops"]):
            self.op(op)
            if "entries" in self.checks and (i % self.plan.get("every", 3) == 0):
                s = self.slots[op[1] % len(self.slots)]
                self.check_entries(s, "after %s" % op[0])
        self.finish()
        return self.stats


# ---------------------------------------------------------------- text oracles

NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)"


def check_text(kind, text, ents):
    lines = [x for x in text.split("\n") if x.strip() and not HEAD.match(x)]
    if len(lines) != len(ents):
        raise Violation("wrong-text", "the %s text has %d lines for %d entries: %r" % (kind, len(lines), len(ents), text[:400]))
    for i, (line, e) in enumerate(zip(lines, ents)):
        why = {"qasm": qasm_line, "jaqal": jaqal_line, "display": display_line}[kind](line.strip(), e)
        if why:
            raise Violation("wrong-text", "%s line %d %r: %s (entry %r %s)" % (kind, i, line, why, e, e.params))


def _num(tok, want, tol):
    try:
        v = float(tok)
    except ValueError:
        return "%r is no number" % tok
    if abs(v - want) > tol + 1e-12 * abs(want):
        return "value %s, expected %.9f" % (tok, want)
    return None


def _qubits(tok, e, sep):
    want = sep.join("q[%d]" % q for q in e.apply)
    return None if re.sub(r"\s*,\s*", ",", tok.strip()) == want else "qubits %r, expected %r" % (tok, want)


def qasm_line(line, e):
    if not line.startswith(e.name):
        return "does not start with the name"
    rest = line[len(e.name):]
    m = re.match(r"^\s*(?:\(([^()]*)\))?\s+(q\[.*\])\s*;\s*$", rest)
    if not m:
        return "not of the form name(parameters) qubits;"
    toks = [t.strip() for t in m.group(1).split(",")] if m.group(1) else []
    if len(toks) != len(e.params):
        return "%d parameters, expected %d" % (len(toks), len(e.params))
    for t, (pn, v, ang) in zip(toks, e.params):
        if ang:
            if not t.startswith("pi*"):
                return "angle %s is not given as a multiple of pi" % pn
            r = _num(t[3:], v / np.pi, 0.51e-7)
        else:
            r = _num(t, v, 0.51e-7)
        if r:
            return r
    return _qubits(m.group(2), e, ",")


def jaqal_line(line, e):
    if not line.startswith(e.name):
        return "does not start with the name"
    rest = line[len(e.name):].split()
    k = len(e.apply)
    r = _qubits(" ".join(rest[:k]), e, " ")
    if r:
        return r
    toks = rest[k:]
    if len(toks) != len(e.params):
        return "%d parameters, expected %d" % (len(toks), len(e.params))
    for t, (pn, v, ang) in zip(toks, e.params):
        r = _num(t, v, 0.51e-7)
        if r:
            return r
    return None


def display_line(line, e):
    if not line.startswith(e.name):
        return "does not start with the name"
    rest = line[len(e.name):].strip()
    marked = rest.endswith("†")
    if marked != e.inv:
        return "marked as an inverse" if marked else "not marked as an inverse"
    if marked:
        rest = rest[:-1]
    m = re.match(r"^\[([^\]]*)\]\s*(?:\((.*)\))?$", rest)
    if not m:
        return "not of the form name[qubits](parameters)"
    try:
        qs = [int(x) for x in m.group(1).split(",")]
    except ValueError:
        return "qubits %r are not plain numbers" % m.group(1)
    if qs != list(e.apply):
        return "qubits %s, expected %s" % (qs, list(e.apply))
    toks = [t.strip() for t in m.group(2).split(",")] if m.group(2) else []
    if len(toks) != len(e.params):
        return "%d parameters, expected %d" % (len(toks), len(e.params))
    for t, (pn, v, ang) in zip(toks, e.params):
        k, _, val = t.partition("=")
        if k.strip() != pn:
            return "parameter %r, expected %s" % (k, pn)
        if ang:
            if not val.endswith("π"):
                return "angle %s is not given as a multiple of π" % pn
            r = _num(val[:-1], v / np.pi, 0.51e-3)
        else:
            r = _num(val, v, 0.51e-4)
        if r:
            return r
    return None


# ---------------------------------------------------------------- plans

def shrink_history(plan):
    ops = plan["ops"]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield dict(plan, ops=ops[:a] + ops[a + size:])
        size //= 2
    for i in range(len(plan["pool"])):
        if len(plan["pool"]) > 1:
            yield dict(plan, pool=plan["pool"][:i] + plan["pool"][i + 1:])
    for i, o in enumerate(ops):
        if len(o) > 4:
            yield dict(plan, ops=ops[:i] + [o[:4]] + ops[i + 1:])
            if o[4]["k"]:
                yield dict(plan, ops=ops[:i] + [o[:4] + [dict(o[4], k=o[4]["k"] // 2)]] + ops[i + 1:])


_ = _shuffle_pick
