"""Gate sets: building the library's primitives from JSON specs, and matching entries against them."""
import numpy as np

from . import boot, refs
from .refs import X, Y, Z
from .world import SimInterrupt, SimUserError, Violation

from stoqcompiler.unitary import (  # noqa: E402
    ParameterizedUnitary, ParameterizedUnitaryDefinitions as PD, ParameterizedUnitaryParameter,
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry)
from stoqcompiler.compiler import Compiler, CompilerResult  # noqa: E402,F401

TOL = 1e-7
TWO_PI = 2 * np.pi


# ---------------------------------------------------------------- user-supplied gate functions

def _axis(a, b, c):
    return refs.expih(a * X + b * Y + c * Z, 1.0)


def _hashed(d, *vals):
    """A gate that is, over its parameters, distributed like a Haar-random one."""
    from .world import rng_for
    return refs.haar(d, rng_for("hashed", d, [float(v) for v in vals]))


PROBES = {
    # name -> (qubits, number of parameters, matrix)
    "zrot": (1, 1, lambda t: np.diag([np.exp(-0.5j * t), np.exp(0.5j * t)])),
    "yrot": (1, 1, lambda t: refs.rot(Y, t)),
    "axis": (1, 3, _axis),
    "const": (1, 0, lambda: refs.rot(X + Y, 0.0) @ refs.rot(Y, 1.1) @ refs.rot(Z, 0.4)),
    "zz": (2, 1, lambda t: np.diag(np.exp(-0.5j * t * np.array([1, -1, -1, 1])))),
    # not symmetric under exchanging the two qubits
    "cry": (2, 1, lambda t: np.block([[np.eye(2), np.zeros((2, 2))], [np.zeros((2, 2)), refs.rot(Y, t)]])),
    "diag8": (3, 2, lambda a, b: np.diag(np.exp(1j * (a * np.arange(8) + b * (np.arange(8) ** 2 % 5))))),
    "ccry": (3, 1, lambda t: refs.controlled(refs.controlled(refs.rot(Y, t)))),
    "euler": (1, 3, lambda a, b, c: refs.rot(Z, a) @ refs.rot(Y, b) @ refs.rot(Z, c)),
    "hash2": (1, 2, lambda *v: _hashed(2, *v)),
    "hash4": (2, 2, lambda *v: _hashed(4, *v)),
    "hash8": (3, 2, lambda *v: _hashed(8, *v)),
    "big4": (4, 1, lambda t: np.diag(np.exp(1j * t * np.arange(16)))),
}


class Ctx:
    """What user-supplied gate functions share with the harness: the call log and the fault to inject."""

    def __init__(self, world=None):
        self.world = world
        self.log = []
        self.fault = None       # {"kind", "k"}: at the k-th call from now
        self.countdown = None
        self.fired = None
        self.latency = None     # (rng, scale) stalls per call
        self.stalled = 0.0
        self.jump = None
        self.hook = None
        self.keep = None

    def arm(self, fault):
        self.fault = fault
        self.fired = None
        self.countdown = fault["k"] if fault else None


def _callback(ctx, name, fn, values):
    ctx.log.append((name, tuple(float(v) for v in values)))
    if ctx.hook is not None:
        ctx.hook(name, values)
    if ctx.latency is not None:
        rng, scale = ctx.latency
        dt = rng.random() * scale
        if rng.random() < 0.1:
            dt *= 50
            if ctx.world:
                ctx.world.fired["stall"] += 1
        ctx.stalled += dt
        if ctx.world:
            ctx.world.clock.advance(dt)
            if ctx.jump and rng.random() < ctx.jump:
                ctx.world.clock.jump_wall(rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 6))
    m = np.asarray(fn(*values), complex)
    if ctx.keep is not None:
        m = ctx.keep(name, [float(v) for v in values], m)
    if ctx.countdown is not None:
        if ctx.countdown <= 0:
            ctx.countdown = None
            kind = ctx.fault["kind"]
            ctx.fired = kind
            if ctx.world:
                ctx.world.fired[kind] += 1
            return bad_value(kind, m)
        ctx.countdown -= 1
    return m


USER_FAULTS = ["user_raise", "user_interrupt", "user_memory", "user_none", "user_list", "user_nan",
               "user_inf", "user_scaled", "user_shape", "user_bigger", "user_scalar", "user_zero",
               "user_nearly", "user_stopiter", "user_vector", "user_lastcol", "user_lastrow", "user_dupcol",
               "user_duprow", "user_shear", "user_lean", "user_squeeze"]
ERRORS = {e.__name__: e for e in (
    ZeroDivisionError, ValueError, KeyError, AssertionError, TypeError, IndexError, OverflowError, FloatingPointError,
    ArithmeticError, LookupError, AttributeError, NotImplementedError, OSError, TimeoutError, EOFError, RecursionError,
    SystemExit, np.linalg.LinAlgError, Warning, RuntimeWarning)}
USER_FAULTS = USER_FAULTS + ["user_raise:" + e for e in ERRORS]


def bad_value(kind, m):
    d = m.shape[0]
    if kind == "user_raise":
        raise SimUserError("user gate function failed")
    if kind.startswith("user_raise:"):
        raise ERRORS[kind.split(":")[1]]("user gate function failed")
    if kind == "user_interrupt":
        raise SimInterrupt("interrupt inside the user gate function")
    if kind == "user_memory":
        raise MemoryError("user gate function ran out of memory")
    if kind == "user_stopiter":
        raise StopIteration("user gate function")
    if kind == "user_none":
        return None
    if kind == "user_list":
        return 1.5
    m = m.copy()
    if kind == "user_nan":
        m[d - 1, 0] = np.nan
    elif kind == "user_inf":
        m[0, d - 1] = np.inf
    elif kind == "user_scaled":
        m = m * 1.02
    elif kind == "user_lastcol":
        m[:, d - 1] *= 1.5
    elif kind == "user_lastrow":
        m[d - 1] *= 0.5
    elif kind == "user_dupcol":
        m[:, d - 1] = m[:, 0]
    elif kind == "user_duprow":
        m[d - 1] = m[0]
    elif kind == "user_lean":
        m[:, d - 1] += 0.2 * m[:, 0]
    elif kind == "user_squeeze":
        m[:, d - 1] *= 1.4
        m[:, d // 2 - 1] /= 1.4
    elif kind == "user_shear":
        m[:, d - 1] = (m[:, d - 1] + 0.2 * m[:, 0]) / np.sqrt(1.04)
    elif kind == "user_nearly":
        m[0, 0] += 3e-4 * (1 if abs(m[0, 0]) < 0.5 else m[0, 0] / abs(m[0, 0]))
        if d > 1 and abs(m[0, 0]) < 0.01:
            m = m * (1 + 3e-4)
    elif kind == "user_shape":
        m = m[:, :-1]
    elif kind == "user_bigger":
        m = np.kron(m, np.eye(2))
    elif kind == "user_scalar":
        return np.complex128(1.0)
    elif kind == "user_vector":
        return m[0]
    elif kind == "user_zero":
        m = m * 0
    return m


# ---------------------------------------------------------------- primitives

def prim_qubits(p):
    k = p["k"]
    if k == "fixed":
        return refs.gate_qubits(p["g"])
    if k in ("rxy", "rxyz"):
        return 1
    if k == "xx":
        return 2
    if k == "gms":
        return p["n"]
    if k == "tev":
        return int(p["d"]).bit_length() - 1
    if k == "probe":
        return PROBES[p["f"]][0]
    raise KeyError(k)


def prim_params(p):
    """[(name, min, max, is_angle)]"""
    k = p["k"]
    if k == "fixed":
        return None
    if k == "rxy":
        return [("theta", 0, TWO_PI, True), ("phi", 0, TWO_PI, True)]
    if k == "rxyz":
        return [("alpha", 0, TWO_PI, True), ("beta", 0, TWO_PI, True), ("gamma", 0, TWO_PI, True)]
    if k in ("xx", "gms"):
        return [("theta", 0, TWO_PI, True)]
    if k == "tev":
        return [("t", p["t0"], p["t1"], False)]
    if k == "probe":
        return [tuple(x) for x in p["params"]]
    raise KeyError(k)


def _herm(p):
    from .world import rng_for
    return refs.hermitian(p["d"], rng_for("herm", p["h"]))


def prim_name(p):
    k = p["k"]
    if k == "fixed":
        return refs.gate_label(p["g"])[0]
    return {"rxy": "Rxy", "rxyz": "Rxyz", "xx": "XX"}.get(k) or (
        "GMS%d" % p["n"] if k == "gms" else "Hp%d" % p["h"] if k == "tev" else p["name"])


def prim_matrix(p, values):
    """Reference matrix of the primitive at the given parameter values."""
    k = p["k"]
    if k == "fixed":
        return refs.gate(p["g"])
    if k == "rxy":
        return refs.gate(["rphi", values[0], values[1]])
    if k == "rxyz":
        a, b, c = values
        return refs.rot(Z, a) @ refs.rot(Y, b) @ refs.rot(Z, c)
    if k == "xx":
        return refs.gate(["xx", values[0]])
    if k == "gms":
        return refs.gms(p["n"], values[0])
    if k == "tev":
        return refs.expih(_herm(p), values[0])
    return np.asarray(PROBES[p["f"]][2](*values), complex)


def build_prim(p, ctx, container="list"):
    k = p["k"]
    if k == "fixed":
        u = refs.lib_gate(p["g"])
    elif k == "rxy":
        u = PD.rotation_xy()
    elif k == "rxyz":
        u = PD.rotation_xyz()
    elif k == "xx":
        u = PD.xx()
    elif k == "gms":
        u = PD.gms(p["n"])
    elif k == "tev":
        u = PD.time_evolution(_herm(p), p["t0"], p["t1"], "p%d" % p["h"])
    else:
        q, n, fn = PROBES[p["f"]]
        name = p["name"]

        def cb(*values):
            return _callback(ctx, name, fn, values)
        ps = [ParameterizedUnitaryParameter(a, b, c, d) for a, b, c, d in p["params"]]
        if p.get("nparr"):
            arr = np.empty(len(ps), dtype=object)
            arr[:] = ps
            ps = arr
        u = ParameterizedUnitary(2 ** q, cb, ps, name)
    a = p.get("apply")
    if a is not None:
        a = [list(x) for x in a]
        if p.get("tuples"):
            a = [tuple(x) for x in a]
    return UnitaryPrimitive(u, a)


def usable(p):
    return p.get("apply") is None or len(p["apply"]) > 0


# ---------------------------------------------------------------- reading entries

def gate_of(entry, d):
    """The gate of an entry, for its name and parameters only (cheap when the entry exposes it)."""
    u = getattr(entry, "unitary", None)
    return u if isinstance(u, Unitary) else entry.get_full_unitary(d)


class Ent:
    """An entry read through the public interface."""
    __slots__ = ("name", "params", "apply", "m", "text")

    def __init__(self, entry, n):
        u = entry.get_full_unitary(2 ** n)
        self.name = u.get_operation_name()
        self.apply = tuple(int(q) for q in entry.get_apply_to())
        self.m = np.array(u.get_matrix())
        self.text = u.get_display_name()
        self.params = None

    def same(self, other, tol=TOL):
        return (self.name == other.name and self.apply == other.apply
                and refs.phase_diff(self.m, other.m) < tol)

    def __repr__(self):
        return self.text


def read(seq, n):
    """The entries of a sequence as Ent objects."""
    return [Ent(e, n) for e in seq.get_sequence_entries()]


def product(ents, n):
    m = np.eye(2 ** n, dtype=complex)
    for e in ents:
        m = e.m @ m
    return m


def same_list(a, b, tol=TOL):
    return len(a) == len(b) and all(x.same(y, tol) for x, y in zip(a, b))


class GateSet:
    def __init__(self, prims, n, ctx):
        self.specs = prims
        self.n = n
        self.ctx = ctx
        self.prims = [build_prim(p, ctx) for p in prims]
        self.names = [prim_name(p) for p in prims]
        self.cache = {}

    def container(self, kind):
        if kind == "ndarray":
            a = np.empty(len(self.prims), dtype=object)
            for i, p in enumerate(self.prims):
                a[i] = p
            return a
        return list(self.prims)

    def counts(self, counts):
        return {p: c for p, c in zip(self.prims, counts) if c is not None}

    def match(self, entry, only=None):
        """Indices of the primitives this entry can come from; Violation if there are none."""
        n = self.n
        u = entry.get_full_unitary(2 ** n)
        name = u.get_operation_name()
        ap = [int(q) for q in entry.get_apply_to()]
        m = np.asarray(u.get_matrix())
        d = 2 ** n
        if m.shape != (d, d) or not np.all(np.isfinite(m)) or np.max(np.abs(m @ m.conj().T - np.eye(d))) > 1e-5:
            raise Violation("not-unitary", "an entry %s on %s is not a unitary of the system's size" % (name, ap))
        if len(set(ap)) != len(ap) or any(q < 0 or q >= n for q in ap):
            raise Violation("bad-placement", "entry %s is applied to %s in a %d-qubit system" % (name, ap, n))
        out, why = [], "no configured gate has that name"
        for i, p in enumerate(self.specs):
            if self.names[i] != name or (only is not None and i not in only):
                continue
            if prim_qubits(p) != len(ap):
                why = "wrong number of qubits"
                continue
            if p.get("apply") is not None and ap not in [list(x) for x in p["apply"]]:
                why = "that placement is not among the permitted %s" % (p["apply"],)
                continue
            ps = prim_params(p)
            vals = []
            if ps is not None:
                bad = None
                for pn, lo, hi, ang in ps:
                    v = u.get_parameter_value(pn)
                    if v is None:
                        bad = "parameter %s is not reported" % pn
                        break
                    if not (lo <= v[0] <= hi):
                        bad = "parameter %s=%r is outside [%r, %r]" % (pn, v[0], lo, hi)
                        break
                    if bool(v[1]) != bool(ang):
                        bad = "parameter %s is mislabelled as %s" % (pn, "angle" if v[1] else "no angle")
                        break
                    vals.append(float(v[0]))
                if bad:
                    why = bad
                    continue
                if len(vals) == 0:
                    key = (i, tuple(ap))
                else:
                    key = None
            else:
                key = (i, tuple(ap))
            if key is not None and key in self.cache:
                ref = self.cache[key]
            else:
                ref = refs.embed(prim_matrix(p, vals), ap, n)
                if key is not None:
                    self.cache[key] = ref
            pd = refs.phase_diff(m, ref)
            if pd > 1e-6:
                why = "its matrix differs by %.2g from the gate at the reported parameters %s" % (pd, vals)
                continue
            out.append((i, tuple(vals)))
        if not out:
            raise Violation("not-allowed", "entry %s on %s %s: %s" % (name, ap, u.get_display_name(), why))
        return out

    # ---- fingerprint of the inputs

    def fingerprint(self):
        out = []
        for p, s in zip(self.prims, self.specs):
            u = p.get_unitary()
            a = p.get_allowed_apply_to()
            item = [None if a is None else [list(map(int, x)) for x in a], u.get_operation_name(),
                    u.get_dimension()]
            if s["k"] == "fixed":
                item.append(np.round(np.asarray(u.get_matrix()), 9).tolist())
                item.append(u.get_display_name())
            else:
                item.append([(q.get_parameter_name(), q.get_is_angle(),
                              [bool(q.is_valid(v)) for v in (lo, hi, lo - 0.5, hi + 0.5)])
                             for q, (_, lo, hi, _) in zip(u.get_parameters(), prim_params(s))])
                item.append(len(u.get_parameters()))
            out.append(item)
        return out


# ---------------------------------------------------------------- generators

def rand_apply(rng, q, n):
    r = rng.random()
    if r < 0.45:
        return None
    lists = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        x = list(range(n))
        rng.shuffle(x)
        lists.append(x[:q])
    return lists


def rand_range(rng, angle=True):
    r = rng.random()
    if r < 0.35:
        return 0.0, TWO_PI
    if r < 0.5:
        v = rng.uniform(-4, 4)
        return v, v                       # degenerate
    if r < 0.6:
        return rng.choice([(0.0, 2 * TWO_PI), (0.0, 4 * TWO_PI), (-50.0, 50.0), (-1.0, 30.0), (-TWO_PI, TWO_PI), (20.0, 40.0)])
    if r < 0.72:
        a = rng.uniform(0.1, 5)
        return -a, a
    if r < 0.85:
        a = rng.uniform(-6, -0.5)
        return a, a + rng.uniform(0.01, 0.4)
    a = rng.uniform(-10, 10)
    return a, a + rng.choice([1e-9, 1e-3, 1.0, 7.0])


def rand_probe(rng, n, i):
    names = [f for f, (q, _, _) in PROBES.items() if q <= n and not f.startswith("hash")]
    q = rng.choice(sorted({PROBES[f][0] for f in names}) + [1, 1])
    f = rng.choice([f for f in names if PROBES[f][0] == q])
    np_ = PROBES[f][1]
    params = []
    for j in range(np_):
        lo, hi = rand_range(rng)
        params.append(["abcdef"[j], lo, hi, rng.random() < 0.5])
    return {"k": "probe", "f": f, "name": "P%d%s" % (i, f), "params": params, "nparr": rng.random() < 0.15}


def rand_prim(rng, n, i, probe_share=0.4, fixed_ok=True, empty=0.0):
    r = rng.random()
    if r < probe_share:
        p = rand_probe(rng, n, i)
    else:
        kinds = ["rxy", "rxyz", "tev"] + (["xx", "xx", "gms"] if n >= 2 else [])
        if fixed_ok:
            kinds += ["fixed"] * 4
        k = rng.choice(kinds)
        p = {"k": k}
        if k == "fixed":
            p["g"] = refs.rand_gate(rng, min(n, 3))
        elif k == "gms":
            p["n"] = rng.randint(2, min(n, 3))
        elif k == "tev":
            p["d"] = 2 ** rng.randint(1, min(n, 2))
            p["h"] = rng.randrange(1000)
            p["t0"], p["t1"] = rng.choice([(0.0, 1.0), (-0.7, 0.7), (-2.0, -1.0), (0.3, 0.3)])
    q = prim_qubits(p)
    p["apply"] = rand_apply(rng, q, n)
    if p["apply"] and rng.random() < 0.2:
        p["tuples"] = True
    if rng.random() < empty:
        p["apply"] = []
    return p


def rand_prims(rng, n, lo=1, hi=4, **kw):
    k = rng.randint(lo, hi)
    if hi == 4 and rng.random() < 0.06:
        k = rng.randint(5, 9)
    out = [rand_prim(rng, n, i, **kw) for i in range(k)]
    if not any(usable(p) for p in out):
        out[0]["apply"] = None
    return out


def rand_probs(rng, prims):
    """Gate probabilities, or None; may contain zeros; usable gates get a positive total."""
    if rng.random() < 0.45:
        return None
    w = [rng.choice([0.0, 1.0, rng.random(), rng.random() ** 4, 1e-6]) for _ in prims]
    if sum(x for x, p in zip(w, prims) if usable(p)) <= 0:
        w = [1.0 for _ in prims]
    t = sum(w)
    w = [x / t for x in w]
    return w


def rand_counts(rng, prims):
    many = [0, 1, 1, 1, 2, 2, 3] if len(prims) < 5 else [0, 0, 1, 1]
    if rng.random() < 0.04:
        many = [0, 1, 2, 6]
    c = [rng.choice(many) if usable(p) else 0 for p in prims]
    if sum(c) == 0:
        for i, p in enumerate(prims):
            if usable(p):
                c[i] = rng.choice([1, 2])
                break
    return c
