"""Oracles over a reconstructed search; each property's check uses its own subset."""
import numpy as np

from . import refs
from .gates import Ent, product, same_list
from .walk import Walk
from .world import Violation

EXACT_MUST, EXACT_MUST_NOT = 1e-11, 1e-6
BAND_MUST, BAND_MUST_NOT = 1e-10, 1e-7


def must_stop(d, threshold):
    if threshold is None or threshold == 1.0:
        return d < EXACT_MUST
    return d <= 1.0 - threshold - BAND_MUST


def must_not_stop(d, threshold):
    if threshold is None or threshold == 1.0:
        return d > EXACT_MUST_NOT
    return d > 1.0 - threshold + BAND_MUST_NOT


def costs_of(result):
    return [float(c) for c in result.cost_by_step]


def check_stop(walk, result, states, steps, threshold):
    """The stopping contract over the states 0..K."""
    k = len(result.cost_by_step)
    if k > steps:
        raise Violation("too-many-steps", "%d steps reported with a limit of %d" % (k, steps))
    for j, s in enumerate(states):
        d = walk.dist(s)
        if j < k and must_stop(d, threshold):
            raise Violation("ran-on", "after step %d the distance to the target was %.3g, within threshold %r, "
                            "but the search went on to step %d" % (j, d, threshold, k))
        if j == k and k < steps and must_not_stop(d, threshold):
            raise Violation("stopped-early", "stopped after %d of %d steps at distance %.6g, outside threshold %r"
                            % (k, steps, d, threshold))


def cost_tol(k):
    return 1e-8 + 1e-11 * k


def check_truth(walk, result, states, costs):
    k = len(result.cost_by_step)
    full = costs_of(result)
    tol = cost_tol(k)
    for j, (s, c) in enumerate(zip(states, costs)):
        if len(c) != j:
            raise Violation("wrong-count", "a search limited to %d steps reports %d costs" % (j, len(c)))
        if j:
            d = walk.dist(s)
            if not abs(full[j - 1] - d) < tol:
                raise Violation("false-cost", "step %d reports cost %.12g but its sequence is at distance %.12g"
                                % (j, full[j - 1], d))
            if not abs(c[-1] - d) < tol:
                raise Violation("false-cost", "a search limited to %d steps reports final cost %.12g, its sequence "
                                "is at distance %.12g" % (j, c[-1], d))
    check_range(full)
    check_product(result.compiled_sequence, walk.n, k)


def check_range(costs):
    for j, c in enumerate(costs):
        if not (-1e-9 <= c <= 1 + 1e-9):
            raise Violation("cost-range", "cost of step %d is %r" % (j + 1, c))


def check_product(seq, n, k=0):
    ents = [Ent(e, n) for e in seq.get_sequence_entries()]
    p = np.asarray(seq.product().get_matrix())
    ref = product(ents, n)
    pd = refs.phase_diff(p, ref)
    if pd > 1e-7 + 1e-10 * (k + len(ents)):
        raise Violation("product", "the reported product differs by %.3g from the product of the %d entries"
                        % (pd, len(ents)))
    if seq.get_length() != len(ents):
        raise Violation("length", "length %d reported for %d entries" % (seq.get_length(), len(ents)))
    return ents


def step_kind(a, b, unit):
    """How state b follows from a: 'same', '+first', '+last', '-first', '-last', '0' or None."""
    if same_list(a, b):
        return "same"
    if len(b) == len(a) + unit:
        if same_list(a, b[unit:]):
            return "+first"
        if same_list(a, b[:-unit]):
            return "+last"
    if len(b) == len(a) - unit:
        if same_list(a[unit:], b):
            return "-first"
        if same_list(a[:-unit], b):
            return "-last"
    return None


def check_edits(walk, states, unit):
    kinds = []
    for j in range(1, len(states)):
        k = step_kind(states[j - 1], states[j], unit)
        if k is None:
            raise Violation("illegal-step", "step %d turned %s into %s" % (
                j, [e.text for e in states[j - 1]], [e.text for e in states[j]]))
        kinds.append(k)
    return kinds


def check_entries(gs, seq, only=None):
    out = []
    for e in seq.get_sequence_entries():
        out.append(gs.match(e, only))
    return out


def check_layers(gs, seq, counts, what="sequence"):
    """The sequence is a concatenation of whole layers with exactly the configured counts."""
    unit = sum(c for c in counts if c)
    m = check_entries(gs, seq)
    if unit == 0:
        if m:
            raise Violation("partial-layer", "%s has %d entries although layers are empty" % (what, len(m)))
        return 0
    if len(m) % unit:
        raise Violation("partial-layer", "%s has %d entries, layers have %d" % (what, len(m), unit))
    for a in range(0, len(m), unit):
        if not assign([set(i for i, _ in x) for x in m[a:a + unit]], counts):
            raise Violation("wrong-layer", "entries %d..%d of the %s do not contain gates with counts %s: %s" % (
                a, a + unit - 1, what, counts, [sorted(set(gs.names[i] for i, _ in x)) for x in m[a:a + unit]]))
    return len(m) // unit


def assign(options, counts):
    """Can every entry be assigned to a primitive so that primitive i is used exactly counts[i] times?"""
    slots = [i for i, c in enumerate(counts) for _ in range(c or 0)]
    if len(slots) != len(options):
        return False
    owner = [None] * len(slots)

    def place(e, seen):
        for s, i in enumerate(slots):
            if i in options[e] and s not in seen:
                seen.add(s)
                if owner[s] is None or place(owner[s], seen):
                    owner[s] = e
                    return True
        return False
    return all(place(e, set()) for e in range(len(options)))


def unit_of(cfg):
    return sum(c for c in cfg["counts"] if c) if cfg.get("layered") else 1


def log_walk(w, states, costs):
    for j, s in enumerate(states):
        w.log(j, [e.text for e in s], costs[-1][j - 1] if j else "-")


def moves(states):
    return sum(1 for j in range(1, len(states)) if len(states[j]) != len(states[j - 1]))


__all__ = [n for n in dir() if not n.startswith("_")]
_ = Walk
