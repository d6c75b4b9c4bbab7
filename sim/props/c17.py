from ..seqsim import History, long_ones, rand_ops, rand_pool, shrink_history

ID = "C17"
TITLE = "Inverting and concatenating sequences is exact and independent"
QUICK, THOROUGH = 8000, 60000
RULE = ("One run is a seeded history with many inversions and concatenations of live sequences, including empty ones, "
        "ones using one entry object several times, inverses of inverses and a sequence with itself; sources and results "
        "are edited afterwards and each is compared with its own model. Non-trivial: something was derived.")
W = {"first": 4, "last": 4, "rfirst": 2, "rlast": 2, "undo": 2, "product": 1.5, "entries": 0.5, "new": 1.2, "inverse": 4,
     "combine": 3, "embed": 0.3, "mixed": 0.4, "copy": 0.2}


def gen(i, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    return long_ones(i, rng, {"n": n, "pool": rand_pool(rng, n, lo=1, hi=4), "ops": rand_ops(rng, W, rng.choice([5, 12, 30])), "every": 4})


def run(plan, w):
    st = History(w, plan, {"entries", "derived", "marks"}).run()
    return {"nontrivial": st["derived"] > 0}


shrink = shrink_history
