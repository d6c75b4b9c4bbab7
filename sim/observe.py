"""What can be seen of a sequence or result, and scripted edits, as plain data.  Used on both sides of a restart."""
import numpy as np


def observe(seq, n):
    d = 2 ** n
    ents = []
    for e in seq.get_sequence_entries():
        u = e.get_full_unitary(d)
        m = np.asarray(u.get_matrix()).ravel()
        ents.append([u.get_display_name(), [int(q) for q in e.get_apply_to()], [float(x) for x in m.real],
                     [float(x) for x in m.imag], u.get_qasm(), u.get_jaqal()])
    p = np.asarray(seq.product().get_matrix()).ravel()
    return {"entries": ents, "length": int(seq.get_length()), "dim": int(seq.get_dimension()),
            "product": [[float(x) for x in p.real], [float(x) for x in p.imag]],
            "text": [seq.get_qasm(), seq.get_jaqal(), seq.get_display_output()]}


def apply(seq, ops, n):
    """Runs a script of edits; returns what was seen after each."""
    out = []
    for o in ops:
        try:
            if o[0] == "undo":
                seq.undo()
            elif o[0] == "rfirst":
                seq.remove_first(*o[1:])
            elif o[0] == "rlast":
                seq.remove_last(*o[1:])
            elif o[0] in ("first", "last"):
                if not seq.get_length():
                    continue
                es = seq.get_sequence_entries()
                e = es[o[1] % len(es)]
                (seq.append_first if o[0] == "first" else seq.append_last)(e, o[2])
            elif o[0] == "inverse":
                seq = seq.inverse()
            elif o[0] == "double":
                seq = type(seq).combine(seq, seq)
            out.append(["ok", o[0]])
        except AssertionError:
            out.append(["refused", o[0]])
        if o[0] == "look":
            out.append(observe(seq, n))
    out.append(observe(seq, n))
    return out


def rand_script(rng):
    out = []
    for _ in range(rng.randint(1, 7)):
        k = rng.choice(["undo", "undo", "rfirst", "rlast", "first", "last", "inverse", "double", "look"])
        if k in ("rfirst", "rlast"):
            out.append([k, rng.random() < 0.6])
        elif k in ("first", "last"):
            out.append([k, rng.randrange(8), rng.random() < 0.6])
        else:
            out.append([k])
    return out[:2] + [o for o in out[2:] if o[0] != "double"]
