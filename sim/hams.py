"""Hamiltonians: specs, library objects, reference evolution."""
import itertools

import numpy as np

from . import refs
from .world import rng_for

from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def term_matrix(t, n):
    if t[0] == "word":
        return t[2] * refs.pauli_word(t[1])
    if t[0] == "herm":
        return refs.hermitian(2 ** n, rng_for("herm", t[1]), t[2])
    if t[0] == "proj":  # |k><k|, a rank-one term
        m = np.zeros((2 ** n, 2 ** n), complex)
        m[t[1], t[1]] = t[2]
        return m
    raise KeyError(t[0])


def rand_terms(rng, n, lo=1, hi=4, tiny=0.0):
    """tiny: probability that some terms have weights of a thousandth to a hundredth of the others"""
    out = []
    k = rng.randint(lo, hi)
    if hi == 4 and rng.random() < 0.1:
        k = rng.choice([5, 6, 7])
    for _ in range(k):
        r = rng.random()
        c = rng.choice([1.0, -1.0, 0.5, rng.uniform(-2, 2) or 1.0, 10 ** rng.uniform(-2, 0.5)])
        if r < 0.7:
            w = "".join(rng.choice("IXYZ") for _ in range(n))
            out.append(["word", w, c])
        elif r < 0.9:
            out.append(["herm", rng.randrange(10 ** 5), abs(c) * 0.7 + 0.05])
        else:
            out.append(["proj", rng.randrange(2 ** n), c])
    if len(out) > 1 and rng.random() < tiny:
        for j in rng.sample(range(len(out)), rng.randint(1, len(out) // 2)):
            out[j] = ["word", "".join(rng.choice("XYZ") for _ in range(n)), rng.choice([-1, 1]) * 10 ** rng.uniform(-2.5, -1.3)]
    return out


class Ham:
    def __init__(self, spec):
        self.n = spec["n"]
        self.d = 2 ** self.n
        self.mats = [term_matrix(t, self.n) for t in spec["terms"]]
        self.inputs = [m.copy() for m in self.mats]
        self.terms = [HamiltonianTerm(m) for m in self.inputs]
        if spec.get("twin"):      # the same term object used twice
            self.terms.append(self.terms[0])
            self.mats.append(self.mats[0])
        self.term_list = list(self.terms)
        self.lib = Hamiltonian(self.term_list)
        self.weights = [float(np.linalg.norm(m, 2)) for m in self.mats]
        self.sum = np.sum(self.mats, axis=0)

    def subsets(self, simultaneous):
        k = len(self.mats)
        if not simultaneous:
            return [(i,) for i in range(k)]
        return [s for r in range(1, k + 1) for s in itertools.combinations(range(k), r)]

    def steps(self, simultaneous):
        """label -> [generator]"""
        out = {}
        for s in self.subsets(simultaneous):
            out.setdefault("H" + "+".join(map(str, s)), []).append(np.sum([self.mats[i] for i in s], axis=0))
        return out


def rand_ham(rng, n=None, lo=1, hi=4):
    n = n or rng.choice([1, 1, 2, 2, 3])
    h = {"n": n, "terms": rand_terms(rng, n, lo, hi)}
    if rng.random() < 0.1:
        h["twin"] = True
    return h


def read_evolution(entry, n):
    """(label, t, matrix, apply) of an evolution entry."""
    u = entry.get_full_unitary(2 ** n)
    v = u.get_parameter_value("t")
    return u.get_operation_name(), v, np.asarray(u.get_matrix()), tuple(int(q) for q in entry.get_apply_to())
