import random

import numpy as np

from ..rav import Rav, rand_rav, shrink_rav
from ..walkchecks import check_entries
from ..world import Violation, release_entropy

ID = "C09"
TITLE = "Random-only generation has exact size and does no search"
QUICK, THOROUGH = 1500, 60000
RULE = ("One run generates one random-only sequence in every equivalent way (threshold 0, step limit 0, both, other "
        "search settings) from one random state. Non-trivial: the requested length is positive.")


def gen(i, rng, tier):
    cfg = rand_rav(rng)
    cfg["length"] = rng.choice([0, 1, 2, 3, 7, 20, 40]) if cfg["mode"] == "rav" else rng.choice([0, 1, 2, 4, 9])
    if i % 40 == 11:
        cfg["length"] = rng.choice([64, 101, 127, 130, 199, 257]) if cfg["mode"] == "rav" else rng.choice([16, 33, 65])
    return {"cfg": cfg}


def rng_state():
    st = random.getstate()
    try:
        s = np.random.get_state()
        return st, (s[1].tobytes(), s[2], s[3])
    except Exception:
        from ..world import _hostile
        return st, (_hostile.s, _hostile.draws)


def run(plan, w):
    cfg = plan["cfg"]
    variants = [(0.0, cfg["steps"], cfg["append_p"]), (cfg["threshold"], 0, cfg["append_p"]), (0, 0, 1.0),
                (0.0, 10000, 0.3), (None, 0, 0.5),
                (0, cfg["steps"], cfg["append_p"]), (np.float64(0), cfg["steps"], cfg["append_p"]),
                (-0.0, 10000, 0.5), (cfg["threshold"], np.int64(0), cfg["append_p"])]
    if cfg["mode"] == "xeb":
        variants = [(0.0, 0, 0.5)]
    first = None
    for th, st, ap in variants:
        rv = Rav(w, dict(cfg, append_p=ap))
        from ..world import _hostile
        _hostile.draws = 0
        res = rv.run(threshold=th, steps=st)
        state = rng_state()
        n = cfg["length"] * rv.unit
        what = "%s with threshold %r, step limit %r" % (cfg["mode"], th, st)
        got = res.compiled_sequence.get_length()
        ents = res.compiled_sequence.get_sequence_entries()
        if got != n or len(ents) != n:
            raise Violation("wrong-size", "%s: %d entries (%d listed) instead of %d" % (what, got, len(ents), n))
        if len(res.cost_by_step) != 0:
            raise Violation("search-steps", "%s reports %d search steps" % (what, len(res.cost_by_step)))
        if res.total_elapsed_time != 0:
            raise Violation("search-time", "%s reports %r s of search" % (what, res.total_elapsed_time))
        m = check_entries(rv.gs, res.compiled_sequence)
        disp = res.compiled_sequence.get_display_output()
        calls = len(rv.ctx.log)
        probes = sum(1 for x in m if cfg["prims"][x[0][0]]["k"] == "probe")
        if calls != probes:
            raise Violation("search-draws", "%s evaluated user gates %d times for %d such entries"
                            % (what, calls, probes))
        if first is None:
            first = (state, disp, what)
        elif disp != first[1]:
            raise Violation("differs", "%s gives another sequence than %s from the same random state"
                            % (what, first[2]))
        elif state != first[0]:
            raise Violation("search-draws", "%s leaves another random state than %s" % (what, first[2]))
    release_entropy()
    w.log(first[1])
    return {"nontrivial": cfg["length"] > 0}


def shrink(plan):
    for c in shrink_rav(plan["cfg"]):
        yield dict(plan, cfg=c)
