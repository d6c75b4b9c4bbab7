from ..seqsim import History, burst, long_ones, rand_ops, rand_pool, shrink_history

ID = "C15"
TITLE = "Undo restores exactly the state before the last recorded change"
QUICK, THOROUGH = 10000, 60000
RULE = ("One run is a seeded history with frequent undos over live sequences: recorded and unrecorded changes, removals "
        "from empty sequences, refused additions, product reads at seeded moments. Every undo's entries and product are "
        "compared with the model's last recorded state, every refused undo with no change. Non-trivial: an undo succeeded.")
W = {"first": 5, "last": 5, "rfirst": 3, "rlast": 3, "undo": 6, "product": 3, "entries": 0.5, "new": 0.5, "inverse": 0.3,
     "combine": 0.3, "bad": 0.7, "embed": 0.3, "copy": 0.3}


def gen(i, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    w = dict(W)
    if rng.random() < 0.3:
        w["product"] = rng.choice([0, 10])
    ops = rand_ops(rng, w, rng.choice([5, 12, 25, 50]))
    p = rng.choice([0.3, 0.5, 0.9])
    for o in ops:
        o[3] = rng.random() < p
        if rng.random() < 0.5:
            o[1] = 0
    if rng.random() < 0.3:
        ops = burst(rng, ops)
    return long_ones(i, rng, {"n": n, "pool": rand_pool(rng, n, outside=0.1), "ops": ops, "every": 5})


def run(plan, w):
    st = History(w, plan, {"entries", "undo"}).run()
    return {"nontrivial": st["undos"] > 0}


shrink = shrink_history
