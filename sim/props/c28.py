import copy
import itertools
import pickle

import numpy as np

from .. import refs
from ..gates import TOL, UnitarySequenceEntry
from ..sched import Scheduler, rand_policy, shrink_policy
from ..seqsim import ModelEnt, build_entry, build_pool, display_line, gate_q, rand_pool, rand_pool_gate
from ..world import MON, SimInterrupt, Violation

ID = "C28"
TITLE = "An entry acts correctly in every system size, whatever came before"
QUICK, THOROUGH = 8000, 50000
RULE = ("One run embeds shared entry objects into systems of seeded sizes in a seeded order, in one thread or several under "
        "the thread scheduler, with interrupts at seeded lines and failing allocations; every embedding is compared with an "
        "independent tensor-contraction model (matrix, name, parameters, qubits) and systems too small must be refused every "
        "time. Non-trivial: an entry was embedded into two sizes or after a fault.")
STATE_MEASURE = "distinct (gate, placement, system size) embeddings checked"


def gen(i, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    pool = rand_pool(rng, n, lo=1, hi=4, outside=0.3)
    orders = rng.random() < 0.3
    if orders:
        pool = all_orders(rng)
    if i % 15 == 4:      # large systems
        big = rng.choice([6, 7, 7, 8])
        pool = all_orders(rng, big)
        return {"pool": pool, "ops": [[rng.choice(["embed"] * 5 + ["small", "inverse"]), rng.randrange(64), rng.randrange(2)]
                                      for _ in range(rng.choice([3, 6]))], "line": False, "call": False, "top": big}

    def ops(k, faults):
        out = []
        for _ in range(k):
            o = [rng.choice(["embed"] * 6 + ["small", "inverse", "copy", "perm", "nest", "nest"]), rng.randrange(64), 0 if orders and rng.random() < 0.6 else rng.randrange(4)]
            if rng.random() < faults:
                o.append({"kind": rng.choice(["interrupt", "interrupt", "alloc", "numeric"]), "k": int(10 ** rng.uniform(0, 2)) - 1})
            out.append(o)
        return out
    if i % 3 == 2:
        t = rng.choice([2, 2, 3, 4])
        return {"pool": pool, "threads": [ops(rng.randint(1, 4), 0) for _ in range(t)], "line": True, "call": rng.random() < 0.3,
                "copies": rng.random() < 0.3,
                "kill": [rng.choice([None, None, None, rng.randrange(80)]) for _ in range(t)],
                "policy": rand_policy(rng, 120 * t), "sseed": rng.randrange(2 ** 31), "top": 4}
    f = rng.choice([0, 0.3])
    return {"pool": pool, "ops": ops(rng.choice([4, 10, 16, 30 if orders else 10]), f), "line": f > 0, "call": f > 0, "top": 5}


def all_orders(rng, big=None):
    """One gate on many different ordered choices of qubits."""
    q, n = (rng.choice([1, 2, 2, 3]), big) if big else rng.choice([(2, 3), (2, 4), (3, 3), (3, 4), (2, 5), (1, 5)])
    perms = list(itertools.permutations(range(n), q))
    rng.shuffle(perms)
    if big:     # neighbouring qubits and the last one among them
        perms = [p for p in perms if max(p) - min(p) < q + rng.choice([0, 0, 3]) or n - 1 in p]
    while True:
        s = rand_pool_gate(rng, q)
        if gate_q(s) == q:
            break
    return [dict(s, apply=list(p), kind=rng.choice(["list", "np", "tuple"])) for p in perms[:rng.choice([6, 12, 24])]]


def verify(e, m, u, n):
    if u.get_dimension() != 2 ** n:
        raise Violation("wrong-size", "%r embedded in %d qubits has dimension %d" % (m, n, u.get_dimension()))
    d = refs.phase_diff(np.asarray(u.get_matrix()), m.full(n))
    if d > TOL:
        raise Violation("wrong-embedding", "%r in a %d-qubit system is off by %.2g" % (m, n, d))
    if u.get_operation_name() != m.name:
        raise Violation("wrong-label", "%r in a %d-qubit system is called %r" % (m, n, u.get_operation_name()))
    for pn, v, ang in m.params:
        r = u.get_parameter_value(pn)
        if r is None or abs(float(r[0]) - v) > 1e-12 or bool(r[1]) != bool(ang):
            raise Violation("wrong-label", "%r in a %d-qubit system reports %s=%s instead of %s" % (m, n, pn, r, v))
    if tuple(int(q) for q in e.get_apply_to()) != m.apply:
        raise Violation("wrong-qubits", "%r reports qubits %s" % (m, e.get_apply_to()))
    shown = u.get_display_name()
    why = display_line(shown.strip(), m)
    if why:
        raise Violation("wrong-label", "%r in a %d-qubit system is shown as %r: %s" % (m, n, shown, why))
    want = "q[" + "],q[".join(map(str, m.apply)) + "]"
    if want not in u.get_qasm():
        raise Violation("wrong-qubits", "%r in a %d-qubit system is exported as %r" % (m, n, u.get_qasm()))


class Subject:
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.pool = [list(x) for x in build_pool(plan["pool"])]
        self.states = set()
        self.sizes = set()
        self.faulted = 0

    def size(self, m, b):
        return min(max(m.apply) + 1 + b, max(self.plan["top"], max(m.apply) + 1))

    def do(self, op, call):
        o, a, b = op[:3]
        k = a % len(self.pool)
        e, m = self.pool[k]
        n = self.size(m, b)
        if n > 9:
            return
        if o == "small":
            top = max(m.apply)
            for small in {top, max(0, top - b)}:
                out = call(e.get_full_unitary, 2 ** small)
                if out.hang or (out.ok and not out.fired):
                    raise Violation("accepted", "%r was embedded into a system of %d qubits" % (m, small))
                self.faulted += bool(out.fired)
            return
        if o == "inverse":
            # an entry made from the embedded gate itself, in the bigger system
            out = call(e.get_full_unitary, 2 ** n)
            if out.ok:
                inv = call(out.value.inverse)
                if inv.ok:
                    verify(e, m.inverse(), inv.value, n)
            return
        if o == "nest":
            self.nest(e, m, n, b, call)
            return
        if o == "copy":
            self.pool[k] = [copy.deepcopy(e) if b % 2 else pickle.loads(pickle.dumps(e)), m]
            return
        if o == "perm":
            out = call(e.get_permute_matrix, 2 ** n)
            if out.ok:
                p = np.asarray(out.value.todense() if hasattr(out.value, "todense") else out.value)
                if not np.array_equal(p @ p.T, np.eye(2 ** n)):
                    raise Violation("wrong-permutation", "the permutation for %r in %d qubits is none" % (m, n))
            return
        out = call(e.get_full_unitary, 2 ** n)
        if out.ok:
            verify(e, m, out.value, n)
            self.states.add((m.name, m.apply, n))
            self.sizes.add((k, n))
        elif out.hang or not out.fired:
            raise Violation("unexpected-error", "embedding %r in %d qubits failed: %r" % (m, n, out))
        else:
            self.faulted += 1

    def spare(self, op):
        """A copy made while other threads use the entry."""
        e, m = self.pool[op[1] % len(self.pool)]
        try:
            c = copy.deepcopy(e) if op[2] % 4 else pickle.loads(pickle.dumps(e))
        except Exception as ex:
            raise Violation("unexpected-error", "copying %r while other threads use it failed: %r" % (m, ex))
        n = self.size(m, op[2])
        if n <= 6:
            verify(c, m, c.get_full_unitary(2 ** n), n)

    def nest(self, e, m, n, b, call):
        """An embedding, or its inverse, used as the gate of a new entry; the embedding itself stays as it was."""
        out = call(e.get_full_unitary, 2 ** n)
        if not out.ok:
            return
        u, um = out.value, m
        if b % 2:
            inv = call(u.inverse)
            if not inv.ok:
                return
            u, um = inv.value, m.inverse()
        perm = list(itertools.permutations(range(n)))
        top = min(n + b % 3, 6)
        ap = [(q + (top - n if b > 1 else 0)) % top for q in perm[(7 * b + 3 * n) % len(perm)]]
        new = call(UnitarySequenceEntry, u, list(ap))
        if new.ok:
            nm = ModelEnt(um.name, um.params, ap, um.full(n), um.inv)
            for size in (top, top + 1):
                if size <= 6:
                    full = call(new.value.get_full_unitary, 2 ** size)
                    if full.ok:
                        verify(new.value, nm, full.value, size)
                        self.states.add((m.name, tuple(ap), size, "nested"))
                    else:
                        self.failed(full, nm, size)
        else:
            self.failed(new, um, n)
        verify(e, um, u, n)
        for inverted in (False, True):
            x = call(e.get_full_unitary, 2 ** n)
            if x.ok and inverted:
                x = call(x.value.inverse)
            if x.ok:
                verify(e, m.inverse() if inverted else m, x.value, n)
            else:
                self.failed(x, m, n)

    def failed(self, out, m, n):
        if out.hang or not out.fired:
            raise Violation("unexpected-error", "embedding %r in %d qubits failed: %r" % (m, n, out))
        self.faulted += 1

    def final(self):
        for k, (e, m) in enumerate(self.pool):
            for n in range(max(m.apply) + 1, min(5, max(self.plan["top"], max(m.apply) + 1)) + 1):
                out = self.w.call(e.get_full_unitary, 2 ** n)
                if not out.ok:
                    raise Violation("unexpected-error", "embedding %r in %d qubits failed: %r" % (m, n, out))
                verify(e, m, out.value, n)
                self.states.add((m.name, m.apply, n))


class Plain:
    def __init__(self, ok, value=None, fired=None):
        self.ok, self.value, self.fired, self.hang = ok, value, fired, False

    def __repr__(self):
        return repr(self.value)


def direct(fn, *args):
    try:
        return Plain(True, fn(*args))
    except SimInterrupt:
        raise
    except Exception as ex:
        return Plain(False, ex)


def run(plan, w):
    s = Subject(w, plan)
    if "ops" in plan:
        for op in plan["ops"]:
            fault = op[3] if len(op) > 3 else None
            s.do(op, lambda fn, *a: w.call(fn, *a, fault=fault))
            w.log(op[0], op[1], len(s.states))
        s.final()
        return {"nontrivial": len(s.sizes) > 1 or s.faulted > 0, "states": sorted(map(str, s.states))}
    sch = Scheduler(plan["sseed"], plan["policy"])
    for ops, kill in zip(plan["threads"], plan["kill"]):
        def body(ops=ops):
            for op in ops:
                if op[0] != "copy":
                    s.do(op, direct)
                else:
                    s.spare(op)
        sch.add(body, kill)
    MON.budget = 2000000
    h = sch.run()
    MON.budget = None
    finish_threads(w, sch)
    s.final()
    w.log(h, [t.lines for t in sch.tasks])
    return {"nontrivial": sch.switches > 1, "sched": h, "switches": sch.switches, "states": sorted(map(str, s.states))}


def finish_threads(w, sch):
    for t in sch.tasks:
        if t.killed:
            w.fired["thread_interrupt"] += 1
        if t.error is not None and not (t.killed and isinstance(t.error, SimInterrupt)):
            raise Violation("unexpected-error", "thread %d failed: %s: %s" % (t.idx, type(t.error).__name__, str(t.error)[:300]))


def shrink(plan):
    if "ops" in plan:
        o = plan["ops"]
        for i in range(len(o)):
            yield dict(plan, ops=o[:i] + o[i + 1:])
        for i in range(len(o)):
            if len(o[i]) > 3:
                yield dict(plan, ops=o[:i] + [o[i][:3]] + o[i + 1:])
        return
    for p in shrink_policy(plan["policy"]):
        yield dict(plan, policy=p)
    t = plan["threads"]
    for i in range(len(t)):
        if t[i]:
            yield dict(plan, threads=t[:i] + [t[i][:-1]] + t[i + 1:])
    for i, k in enumerate(plan["kill"]):
        if k is not None:
            yield dict(plan, kill=plan["kill"][:i] + [None] + plan["kill"][i + 1:])
