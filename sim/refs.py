"""Independent reference model of gates, embedding and distance (plain matrices)."""
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]], complex)
Z = np.array([[1, 0], [0, -1]], complex)


def rot(axis, theta):
    return np.cos(theta / 2) * I2 - 1j * np.sin(theta / 2) * axis


def controlled(m):
    d = len(m)
    out = np.eye(2 * d, dtype=complex)
    out[d:, d:] = m
    return out


def expih(h, t):
    w, v = np.linalg.eigh(np.asarray(h, complex))
    return (v * np.exp(1j * w * t)) @ v.conj().T


def embed(m, apply_to, n):
    """The gate m on qubits apply_to (in that order; qubit 0 is most significant) of an n-qubit system."""
    k = len(apply_to)
    d = 2 ** n
    t = np.eye(d, dtype=complex).reshape([2] * n + [d])
    g = np.asarray(m, complex).reshape([2] * (2 * k))
    r = np.tensordot(g, t, axes=(list(range(k, 2 * k)), list(apply_to)))
    r = np.moveaxis(r, list(range(k)), list(apply_to))
    return r.reshape(d, d)


def dist(a, b):
    return 1.0 - abs(np.vdot(a, b)) / a.shape[0]


def phase_diff(a, b):
    """Largest entry difference after aligning the global phase."""
    if a.shape != b.shape:
        return 9.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return 9.0
    z = np.vdot(a, b)
    if abs(z) < 0.5 * a.shape[0]:
        return 2.0
    return float(np.max(np.abs(a * (z / abs(z)) - b)))


def haar(d, rng):
    """rng: random.Random"""
    g = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(d)] for _ in range(d)])
    q, r = np.linalg.qr(g)
    dg = np.diagonal(r)
    return q * (dg / np.abs(dg))


def hermitian(d, rng, scale=1.0):
    g = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(d)] for _ in range(d)])
    return scale * (g + g.conj().T) / 2


def pauli_word(word):
    m = np.eye(1, dtype=complex)
    for c in word:
        m = np.kron(m, {"I": I2, "X": X, "Y": Y, "Z": Z}[c])
    return m


def gms(n, theta):
    g = np.eye(2 ** n, dtype=complex)
    for i in range(n):
        for j in range(i + 1, n):
            w = "".join("X" if q in (i, j) else "I" for q in range(n))
            g = (np.cos(theta) * np.eye(2 ** n) - 1j * np.sin(theta) * pauli_word(w)) @ g
    return g


CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex)
CCNOT = np.eye(8, dtype=complex)
CCNOT[6:, 6:] = X


def _qecc():
    # rows of the three-qubit phase-flip syndrome operation, as signs
    rows = ["++++++++", "+--+-++-", "++--++--", "+-+--+-+", "++++----",
            "+--++--+", "+-+-+-+-", "++----++"]
    return np.array([[1 if c == "+" else -1 for c in r] for r in rows], complex) / np.sqrt(8)


QECC = _qecc()


def gate(spec):
    """Reference matrix and number of qubits of a fixed gate, from its JSON spec."""
    k = spec[0]
    if k == "rx":
        return rot(X, spec[1])
    if k == "ry":
        return rot(Y, spec[1])
    if k == "rz":
        return rot(Z, spec[1])
    if k == "rphi":
        return rot(np.cos(spec[2]) * X + np.sin(spec[2]) * Y, spec[1])
    if k == "h":
        return (X + Z) / np.sqrt(2)
    if k == "t":
        return np.diag([1, np.exp(1j * np.pi / 4)])
    if k == "x":
        return X
    if k == "y":
        return Y
    if k == "z":
        return Z
    if k == "cnot":
        return CNOT
    if k == "ccnot":
        return CCNOT
    if k == "qecc":
        return QECC
    if k == "xx":
        return np.cos(spec[1]) * np.eye(4) - 1j * np.sin(spec[1]) * np.kron(X, X)
    if k == "gms":
        return gms(spec[1], spec[2])
    if k == "id":
        return np.eye(spec[1], dtype=complex)
    if k == "haar":
        from .world import rng_for
        return haar(spec[1], rng_for("haar", spec[2]))
    if k == "tev":
        from .world import rng_for
        return expih(hermitian(spec[1], rng_for("herm", spec[2])), spec[3])
    raise KeyError(k)


def lib_gate(spec):
    """The same gate built through the library."""
    from stoqcompiler.unitary import Unitary, UnitaryDefinitions as D
    k = spec[0]
    if k in ("rx", "ry", "rz", "rphi", "xx"):
        return getattr(D, k)(*spec[1:])
    if k in ("h", "t", "cnot", "ccnot"):
        return getattr(D, k)()
    if k in ("x", "y", "z"):
        return getattr(D, "sigma" + k)()
    if k == "qecc":
        return D.qecc_phase_flip()
    if k == "gms":
        return D.gms(spec[1], spec[2])
    if k == "id":
        return Unitary.identity(spec[1])
    if k == "haar":
        return Unitary(spec[1], gate(spec), "V%d" % spec[2])
    if k == "tev":
        from .world import rng_for
        return D.time_evolution(hermitian(spec[1], rng_for("herm", spec[2])), spec[3], "s%d" % spec[2])
    raise KeyError(k)


def gate_label(spec):
    """(operation name, [(parameter name, value, is_angle)]) the gate reports."""
    k = spec[0]
    if k in ("rx", "ry", "rz"):
        return "R" + k[1], [("θ", spec[1], True)]
    if k == "rphi":
        return "R", [("θ", spec[1], True), ("Φ", spec[2], True)]
    if k == "xx":
        return "XX", [("θ", spec[1], True)]
    if k == "gms":
        return "GMS%d" % spec[1], [("θ", spec[2], True)]
    if k == "id":
        return "I", []
    if k == "haar":
        return "V%d" % spec[2], []
    if k == "tev":
        return "Hs%d" % spec[2], [("t", spec[3], False)]
    return {"h": "H", "t": "T", "x": "X", "y": "Y", "z": "Z", "cnot": "CNOT",
            "ccnot": "CCNOT", "qecc": "QECC"}[k], []


def gate_qubits(spec):
    k = spec[0]
    if k in ("cnot", "xx"):
        return 2
    if k in ("ccnot", "qecc"):
        return 3
    if k == "gms":
        return spec[1]
    if k in ("id", "haar", "tev"):
        return int(spec[1]).bit_length() - 1
    return 1


def rand_angle(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0.0, np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi, np.pi / 4, 3 * np.pi])
    if r < 0.9:
        return rng.uniform(-2 * np.pi, 2 * np.pi)
    return rng.choice([rng.uniform(-100, 100), rng.uniform(-1e-3, 1e-3)])


def rand_gate(rng, max_q=3):
    """A random fixed-gate spec on at most max_q qubits."""
    one = ["rx", "ry", "rz", "rphi", "h", "t", "x", "y", "z", "haar1", "tev1", "id1"]
    two = ["cnot", "xx", "haar2", "gms2", "tev2", "id2"]
    three = ["ccnot", "qecc", "gms3", "haar3"]
    pool = list(one)
    if max_q >= 2:
        pool += two * 2
    if max_q >= 3:
        pool += three * 2
    k = rng.choice(pool)
    if k in ("rx", "ry", "rz", "xx"):
        return [k, rand_angle(rng)]
    if k == "rphi":
        return [k, rand_angle(rng), rand_angle(rng)]
    if k.startswith("haar"):
        return ["haar", 2 ** int(k[4]), rng.randrange(1000)]
    if k.startswith("tev"):
        return ["tev", 2 ** int(k[3]), rng.randrange(1000), rng.uniform(-2, 2)]
    if k.startswith("gms"):
        return ["gms", int(k[3]), rand_angle(rng)]
    if k.startswith("id"):
        return ["id", 2 ** int(k[2])]
    return [k]
