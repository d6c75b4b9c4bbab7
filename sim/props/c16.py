from ..seqsim import History, long_ones, rand_ops, rand_pool, shrink_history

ID = "C16"
TITLE = "A failed edit leaves a consistent sequence"
QUICK, THOROUGH = 10000, 60000
RULE = ("One run is a seeded history in which edits meet allocation and numerical failures at a seeded call into "
        "numpy/scipy/copy, entries that do not fit, and reads meet those and interrupts at a seeded line. After every "
        "failure entries must be those before or after the edit, the product must agree, and later undos must return to a "
        "state the sequence had. Non-trivial: at least one operation failed.")
W = {"first": 5, "last": 5, "rfirst": 3, "rlast": 3, "undo": 3, "product": 4, "entries": 0.7, "length": 0.3, "new": 0.5,
     "inverse": 0.7, "combine": 0.7, "bad": 1.5, "embed": 0.8, "copy": 0.2, "qasm": 0.3, "jaqal": 0.3, "display": 0.3}


def gen(i, rng, tier):
    n = rng.choice([1, 2, 2, 3])
    ops = rand_ops(rng, W, rng.choice([6, 14, 30]), faults=rng.choice([0.2, 0.5]), read_faults=rng.choice([0.2, 0.6]))
    for o in ops:
        if rng.random() < 0.6:
            o[1] = 0
    if rng.random() < 0.3:
        # a long sequence whose product was never read, then a read that fails midway
        pre = [[rng.choice(["first", "last", "last"]), 0, rng.randrange(64), rng.random() < 0.3] for _ in range(rng.randint(6, 16))]
        kd = rng.choice(["interrupt", "interrupt", "alloc"])
        pre.append(["product", 0, 0, True, {"kind": kd, "k": rng.randrange(700) if kd == "interrupt" else rng.randrange(150)}])
        ops = pre + ops[:rng.choice([0, 3, 14])]
    return long_ones(i, rng, {"n": n, "pool": rand_pool(rng, n, outside=0.15), "ops": ops, "every": 5, "line": True, "call": True})


def run(plan, w):
    st = History(w, plan, {"entries", "failed"}).run()
    return {"nontrivial": st["failed"] > 0}


shrink = shrink_history
