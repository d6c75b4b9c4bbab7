"""Random workloads over the whole public interface, as JSON operations with structurally comparable results."""
import copy
import random

import numpy as np

from . import hams, rav, walk
from .gates import Ctx, GateSet, rand_counts, rand_prims, rand_probs, read
from .world import Violation, reseed

from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import Unitary

CUT = ["cut off"]


def seq_value(seq, n):
    out = []
    for e in seq.get_sequence_entries():
        u = e.get_full_unitary(2 ** n)
        out.append([u.get_display_name(), [int(q) for q in e.get_apply_to()], mat_value(u.get_matrix())])
    return out


def mat_value(m):
    m = np.asarray(m)
    return [[float(x.real) for x in m.ravel()], [float(x.imag) for x in m.ravel()]]


def result_value(res, n):
    return {"entries": seq_value(res.compiled_sequence, n), "costs": [float(c) for c in res.cost_by_step]}


def diff(a, b, tol=1e-9, path=""):
    """First structural difference of two values, or None."""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or abs(a - b) <= tol * max(1, abs(a)) or (a != a and b != b):
            return None
        return "%s: %r / %r" % (path, a, b)
    if type(a) is not type(b):
        return "%s: %r / %r" % (path, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: keys %s / %s" % (path, sorted(a), sorted(b))
        for k in a:
            r = diff(a[k], b[k], tol, path + "." + str(k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d / %d items" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, tol, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if a == b else "%s: %r / %r" % (path, a, b)


def rand_op(rng, kinds=None):
    k = rng.choice(kinds or ["compile", "compile", "layered", "rav", "lrav", "xeb", "entry", "layer", "haar",
                             "trotter", "qdrift", "stoq", "hrav"])
    if k in ("compile", "layered"):
        c = walk.rand_cfg(rng, layered=k == "layered", max_steps=25)
        c["entropy"] = None
        return {"op": "compile", "cfg": c}
    if k in ("rav", "lrav", "xeb"):
        c = rav.rand_rav(rng, mode=k, max_steps=25)
        c["entropy"] = None
        return {"op": "rav", "cfg": c}
    if k in ("entry", "layer"):
        n = walk.rand_n(rng)
        prims = rand_prims(rng, n)
        return {"op": k, "n": n, "prims": prims, "probs": rand_probs(rng, prims), "counts": rand_counts(rng, prims),
                "draws": rng.choice([1, 4, 12])}
    if k == "haar":
        return {"op": k, "d": rng.choice([2, 3, 4, 5, 8]), "draws": rng.choice([1, 2, 5])}
    h = hams.rand_ham(rng, n=rng.choice([1, 1, 2]), lo=2)
    if k == "trotter":
        return {"op": k, "ham": h, "t": rng.uniform(-2, 3), "steps": rng.choice([1, 3, 8, 20]), "rand": rng.random() < .8}
    if k == "qdrift":
        return {"op": k, "ham": h, "t": rng.uniform(-2, 3), "steps": rng.choice([1, 5, 20])}
    return {"op": k, "ham": h, "t": rng.choice([0.1, 0.5, 1.0]), "max_t": rng.choice([0.2, 0.5, 1.0]),
            "th": rng.choice([0.3, 0.5, 0.6]), "simul": rng.random() < 0.5}


class Op:
    """An operation built once; run() executes it from the current random state."""

    def __init__(self, world, op):
        self.w, self.op = world, op
        k = op["op"]
        if k == "compile":
            self.walk = walk.Walk(world, op["cfg"])
            self.comp = self.walk.compiler()
        elif k == "rav":
            self.rav = rav.Rav(world, op["cfg"])
        elif k in ("entry", "layer"):
            self.gs = GateSet(op["prims"], op["n"], Ctx(world))
            self.cont = list(self.gs.prims)
            self.counts = self.gs.counts(op["counts"])
        elif k != "haar":
            self.ham = hams.Ham(op["ham"])

    def outcome(self, fault=None, comp=None):
        op = self.op
        k = op["op"]
        call = self.w.call
        if k == "compile":
            return self.walk.start(compiler=comp or self.comp, keep_entropy=True, fault=fault)
        if k == "rav":
            return self.rav.start(keep_entropy=True, fault=fault)
        if k == "entry":
            def f():
                return [Compiler.create_random_sequence_entry(2 ** op["n"], self.cont, op["probs"])
                        for _ in range(op["draws"])]
            return call(f, fault=fault)
        if k == "layer":
            def f():
                return [e for _ in range(op["draws"])
                        for e in Compiler.create_random_layer(2 ** op["n"], self.counts)]
            return call(f, fault=fault)
        if k == "haar":
            return call(lambda: [Unitary.random(op["d"]) for _ in range(op["draws"])], fault=fault)
        h = self.ham.lib
        if k == "trotter":
            return call(h.get_trotter_sequence, op["t"], op["steps"], op["rand"], fault=fault)
        if k == "qdrift":
            return call(h.get_qdrift_sequence, op["t"], op["steps"], fault=fault)
        fn = h.compile_stoq_sequence if k == "stoq" else h.compile_rav_sequence
        return call(fn, op["t"], op["max_t"], op["th"], op["simul"], fault=fault, budget=250000)

    def value(self, v):
        op = self.op
        k = op["op"]
        if k == "compile":
            return result_value(v, self.walk.n)
        if k == "rav":
            return result_value(v, self.rav.n)
        if k in ("entry", "layer"):
            return [[e.get_full_unitary(2 ** op["n"]).get_display_name(), [int(q) for q in e.get_apply_to()],
                     mat_value(e.get_full_unitary(2 ** op["n"]).get_matrix())] for e in v]
        if k == "haar":
            return [mat_value(u.get_matrix()) for u in v]
        if k in ("trotter", "qdrift"):
            return seq_value(v, self.ham.n)
        return result_value(v, self.ham.n)

    def run(self, must=True):
        """The value of the operation, or ["hang"] for a Hamiltonian search that was cut off."""
        out = self.outcome()
        if out.hang:
            if self.op["op"] in ("stoq", "hrav"):
                return CUT
            raise Violation("hang", "%s did not finish within its step budget" % self.op["op"])
        if not out.ok:
            raise Violation("unexpected-error", "%s failed: %r" % (self.op["op"], out))
        return self.value(out.value)

    def draws_continuous(self):
        """Whether two runs from different random states give different values (almost surely)."""
        k = self.op["op"]
        if k == "haar":
            return True
        return False


def random_state():
    s = np.random.get_state()
    return [s[1].tobytes().hex()[:64], int(s[2]), int(s[3]), float(s[4]), hash(random.getstate()) & 0xffffffff]


_ = (copy, read, reseed)
