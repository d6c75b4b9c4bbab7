import base64
import copy
import gc
import pickle
import random

from ..observe import apply, observe, rand_script
from ..otherproc import OTHER
from ..rav import Rav, rand_rav, shrink_rav
from ..seqsim import History, rand_ops, rand_pool, shrink_history
from ..walk import Walk, rand_cfg, shrink_cfg
from ..work import diff, result_value
from ..world import Violation

ID = "C27"
TITLE = "Saved sequences and results survive a restart unchanged"
QUICK, THOROUGH = 3500, 50000
RULE = ("One run saves sequences (at seeded points of an edit history with crashes, after which only saved bytes exist) or "
        "results of a compilation or RAV generation, by pickle or deep copy, restores them here or in a second process with "
        "another hash seed, and compares everything visible and a script of further operations with the list model or with "
        "the original. Non-trivial: something non-empty was restored or copied.")
W = {"first": 5, "last": 5, "rfirst": 2, "rlast": 2, "undo": 3, "product": 2, "entries": 0.5, "new": 0.7, "inverse": 0.6,
     "combine": 0.4, "copy": 3, "save": 3, "crash": 1, "qasm": 0.3, "jaqal": 0.3, "display": 0.3, "embed": 0.3}


def gen(i, rng, tier):
    r = i % 4
    if r < 2:
        n = rng.choice([1, 2, 2, 3])
        ops = rand_ops(rng, W, rng.choice([6, 14, 30]))
        for o in ops:
            if rng.random() < 0.4:
                o[1] = 0
        return {"mode": "history", "n": n, "pool": rand_pool(rng, n), "ops": ops, "every": 4}
    plan = {"mode": "result", "script": rand_script(rng), "seed2": rng.randrange(2 ** 31),
            "how": rng.choice(["pickle", "deepcopy", "copy-of-copy", "sequence"]), "where": rng.choice(["here", "other"]),
            "proto": rng.choice([2, 3, 4, 5]), "restart": rng.random() < 0.03}
    if r == 2:
        c = rand_cfg(rng, max_steps=20)
        if rng.random() < 0.2:
            c.update(steps=rng.choice([30, 45, 70, 110]), threshold=rng.choice([None, 0.999]))
            if c.get("layered"):
                c["steps"] = min(c["steps"], 30)
        c["append_p"] = rng.choice([0.5, 0.7, 1.0])
        return dict(plan, what="compile", cfg=c)
    return dict(plan, what="rav", cfg=rand_rav(rng, max_steps=12))


def run(plan, w):
    if plan["mode"] == "history":
        st = History(w, plan, {"entries", "product", "copy"}).run()
        return {"nontrivial": st["derived"] + st["restored"] > 0}
    s = (Walk if plan["what"] == "compile" else Rav)(w, plan["cfg"])
    n = s.n
    res = s.run()
    result = plan["how"] != "sequence"
    obj = res if result else res.compiled_sequence
    value = result_value(res, n)
    elapsed = float(res.total_elapsed_time)
    budget = 400000 + 6000 * len(value["entries"])
    raw = w.must("saving", pickle.dumps, obj, plan["proto"])
    rng = random.Random(plan["seed2"])
    if rng.random() < 0.5:
        observe(obj.compiled_sequence if result else obj, n)      # before or after its product is read
        raw2 = w.must("saving", pickle.dumps, obj, plan["proto"])
    else:
        raw2 = raw
    if plan["how"] in ("deepcopy", "copy-of-copy"):
        obj2 = w.must("copying", copy.deepcopy, obj)
        if plan["how"] == "copy-of-copy":
            obj2 = w.must("copying", pickle.loads, w.must("saving", pickle.dumps, w.must("copying", copy.deepcopy, obj2)))
    else:
        obj2 = None
    ref_seen = observe(copy.deepcopy(res.compiled_sequence), n)
    ref_after = apply(res.compiled_sequence, plan["script"], n)
    seq2 = obj2.compiled_sequence if obj2 is not None else None
    if obj2 is not None:
        same(ref_seen, observe(copy.deepcopy(seq2), n), "the copy, after its original was edited,")
        if result:
            same(value, result_value(obj2, n), "the copied result")
        same(ref_after, w.must("working on the copy", apply, seq2, plan["script"], n, budget=budget), "work on the copy")
        res.cost_by_step.append(5.0)
        same(value["costs"], [float(c) for c in obj2.cost_by_step], "the copied costs")
    del s, res, obj, obj2, seq2
    gc.collect(0)
    w.fired["crash"] += 1
    for data in {raw, raw2}:
        back = w.must("restoring", pickle.loads, data)
        sq = back.compiled_sequence if result else back
        if result:
            same(value, result_value(back, n), "the restored result")
            same(elapsed, float(back.total_elapsed_time), "the restored elapsed time")
        same(ref_seen, observe(sq, n), "the restored sequence")
        del back
        sq = w.must("restoring", pickle.loads, data)
        sq = sq.compiled_sequence if result else sq
        same(ref_after, w.must("working on the restored sequence", apply, sq, plan["script"], n, budget=budget),
             "work on the restored sequence")
    if plan["where"] == "other":
        if plan["restart"]:
            OTHER.stop()
        ans = OTHER.ask({"raw": base64.b64encode(raw).decode(), "n": n, "result": result, "script": plan["script"]})
        if "error" in ans:
            raise Violation("not-restorable", "in another process: %s" % ans["error"])
        if result:
            same(value, ans["value"], "the result restored in another process")
            same(elapsed, ans["elapsed"], "the elapsed time restored in another process")
        same(ref_seen, ans["seen"], "the sequence restored in another process")
        same(ref_after, ans["after"], "work on the sequence restored in another process")
        w.probes["other_process"] += 1
        back = w.must("restoring what the other process saved", pickle.loads, base64.b64decode(ans["raw"]))
        sq = back.compiled_sequence if result else back
        same(ref_after, apply(sq, plan["script"], n), "work on a sequence saved by another process")
    w.log(value["costs"], ref_after[-1]["text"])
    return {"nontrivial": len(value["entries"]) > 0}


def same(a, b, what):
    d = diff(a, b)
    if d:
        raise Violation("not-preserved", "%s differs: %s" % (what, d[:600]))


def shrink(plan):
    if plan["mode"] == "history":
        yield from shrink_history(plan)
        return
    for j in range(len(plan["script"])):
        yield dict(plan, script=plan["script"][:j] + plan["script"][j + 1:])
    for c in (shrink_cfg if plan["what"] == "compile" else shrink_rav)(plan["cfg"]):
        yield dict(plan, cfg=c)
    if plan["where"] == "other":
        yield dict(plan, where="here")
