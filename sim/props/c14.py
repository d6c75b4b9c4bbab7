from ..seqsim import History, long_ones, rand_ops, rand_pool, shrink_history

ID = "C14"
TITLE = "A sequence's product is the ordered product of its entries, always"
QUICK, THOROUGH = 8000, 60000
RULE = ("One run is a seeded history of edits, undos, product reads and derivations over up to five live sequences that "
        "share entry objects, built from lists or arrays; entries are compared with a list model throughout and products "
        "with the ordered product of the model's matrices. Non-trivial: at least two successful edits.")
W = {"first": 6, "last": 6, "rfirst": 3, "rlast": 3, "undo": 1.5, "product": 2.5, "entries": 0.7, "length": 0.3, "new": 0.8,
     "inverse": 0.5, "combine": 0.5, "bad": 0.4, "embed": 0.5, "display": 0.2, "mixed": 0.2}


def gen(i, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    if i % 12 == 5:      # one very long history
        k = rng.choice([150, 300]) if tier == "quick" else rng.choice([400, 1000, 2500])
        w = dict(W, new=0.005, inverse=0.005, combine=0.0, entries=0.05, undo=0.05, product=rng.choice([0.1, 3]))
        ops = rand_ops(rng, w, k)
        grow = rng.random() < 0.5
        for o in ops:
            if rng.random() < 0.8:
                o[1], o[3] = 0, False
            if grow and o[0] in ("rfirst", "rlast") and rng.random() < 0.9:
                o[0] = o[0][1:]
        return {"n": min(n, 2), "pool": rand_pool(rng, min(n, 2), outside=0.05), "ops": ops, "every": 50}
    w = dict(W)
    if rng.random() < 0.3:
        w["product"] = 0
    if i % 25 == 7:
        w["big"] = 2
    return long_ones(i, rng, {"n": n, "pool": rand_pool(rng, n, outside=0.1), "ops": rand_ops(rng, w, rng.choice([4, 10, 20, 40])), "every": 4})


def run(plan, w):
    st = History(w, plan, {"entries", "product"}).run()
    return {"nontrivial": st["edits"] >= 2}


shrink = shrink_history
