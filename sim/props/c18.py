from ..seqsim import History, long_ones, rand_ops, rand_pool, shrink_history

ID = "C18"
TITLE = "Exported text always mirrors the sequence's current entries"
QUICK, THOROUGH = 10000, 60000
RULE = ("One run is a seeded history of edits, undos, inversions, concatenations and restores with the three exports taken "
        "at seeded moments, some interrupted; each text is parsed and compared line by line with the model's entries, and "
        "sequences are compared with the model afterwards. Non-trivial: at least one text was taken after an edit.")
W = {"first": 4, "last": 4, "rfirst": 2, "rlast": 2, "undo": 2, "product": 1, "entries": 0.5, "new": 0.7, "inverse": 1.5,
     "combine": 0.7, "embed": 0.7, "copy": 0.5, "qasm": 2.5, "jaqal": 2.5, "display": 2.5}


def gen(i, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    f = rng.choice([0, 0, 0.3])
    plan = {"n": n, "pool": rand_pool(rng, n), "every": 4, "line": f > 0, "call": f > 0,
            "ops": rand_ops(rng, W, rng.choice([5, 12, 30]), read_faults=f)}
    return long_ones(i, rng, plan)


def run(plan, w):
    st = History(w, plan, {"entries", "text"}).run()
    return {"nontrivial": st["edits"] > 0 and st["reads"] > 0}


shrink = shrink_history
