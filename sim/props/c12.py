import numpy as np

from ..gates import ERRORS, USER_FAULTS, rand_prims, read
from ..rav import Rav, rand_rav, shrink_rav
from ..walk import Walk, rand_cfg, shrink_cfg
from ..work import diff, result_value
from ..world import MON, SimAllocError, SimInterrupt, SimUserError, Violation

ID = "C12"
TITLE = "Failures inside a compilation surface and damage nothing"
QUICK, THOROUGH = 3000, 40000
RULE = ("One run counts the fault points of a compilation, RAV or XEB generation (calls of user gates, lines of library "
        "code, calls into numpy/scipy/copy), repeats it with faults at seeded points, and checks that each fault ends "
        "the call, that all inputs are as before, and that the same objects then give the result of a run without "
        "faults. Non-trivial: at least one fault fired.")
VALUES = [f for f in USER_FAULTS if not f.startswith("user_raise")]
ARMS = ["user", "user", "user", "interrupt", "interrupt", "alloc", "numeric"]


def gen(i, rng, tier):
    faults = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        f = {"kind": rng.choice(ARMS), "user": rng.choice(VALUES if rng.random() < 0.5 else USER_FAULTS), "at": rng.random()}
        if rng.random() < 0.25:
            f["steps"] = rng.choice([1, 1, 2, 3])
        faults.append(f)
    after = rng.choice([None, {"steps": rng.choice([1, 2, 7, 25]), "threshold": rng.choice([None, 0.6, 0.9, 1.0]),
                               "seed": rng.randrange(2 ** 31)}])
    if rng.random() < 0.6:
        cfg = rand_cfg(rng, max_steps=14, probe_share=0.85)
        cfg["entropy"] = None
        cfg["threshold"] = rng.choice([None, None, cfg["threshold"]])
        cfg["append_p"] = rng.choice([0.5, 0.7, 1.0, 0.5, rng.random()])
        return {"mode": "compile", "cfg": cfg, "faults": faults, "after": after, "line": True, "call": True}
    cfg = rand_rav(rng, max_steps=12, probe_share=0.85)
    cfg["entropy"] = None
    cfg["length"] = max(1, min(cfg["length"], 5))
    return {"mode": "rav", "cfg": cfg, "faults": faults, "after": after, "line": True, "call": True}


class Subject:
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        cfg = plan["cfg"]
        if plan["mode"] == "compile":
            self.s = Walk(w, cfg)
            self.comp = self.s.compiler()
        else:
            self.s = Rav(w, cfg)
        self.ctx = self.s.ctx
        self.n = cfg["n"]

    def call(self, fault=None, **kw):
        if self.plan["mode"] == "compile":
            kw["compiler"] = self.comp
        return self.s.start(fault=fault, **kw)

    def inputs(self):
        s = self.s
        out = {"gates": s.gs.fingerprint(), "container": [list(s.gs.prims).index(p) for p in s.container],
               "probs": s.probs, "counts": None if s.counts is None else
               [(s.gs.prims.index(p), c) for p, c in s.counts.items()]}
        if self.plan["mode"] == "compile":
            out["target"] = np.round(np.asarray(s.target.get_matrix()), 12).tolist()
            out["target_text"] = s.target.get_display_name()
        return out


def expected(fault, user):
    if fault == "user" and user.startswith("user_raise:"):
        return (ERRORS[user.split(":")[1]],)
    return {"interrupt": (SimInterrupt,), "alloc": (SimAllocError,), "numeric": (np.linalg.LinAlgError,),
            "user_raise": (SimUserError,), "user_interrupt": (SimInterrupt,), "user_memory": (MemoryError,),
            "user_stopiter": (StopIteration, RuntimeError)}.get(user if fault == "user" else fault, (Exception,))


def run(plan, w):
    sub = Subject(w, plan)
    before = sub.inputs()
    l0, c0 = MON.line_count, MON.call_count
    out = sub.call(fault={"kind": "alloc", "k": 1 << 60})
    lines, calls = MON.line_count - l0, MON.call_count - c0
    if not out.ok:
        raise Violation("unexpected-error", "the run without faults failed: %r" % out)
    ref = result_value(out.value, sub.n)
    full = (len(sub.ctx.log), lines, calls)
    fired = 0
    for f in plan["faults"]:
        k = f["kind"]
        fault, kw = None, {}
        users, lines, calls = full
        if "steps" in f:
            kw["steps"] = min(f["steps"], plan["cfg"]["steps"])
            users, lines, calls = [int(x * (kw["steps"] + 1) / (plan["cfg"]["steps"] + 1)) for x in full]
        if k == "user":
            if not users:
                continue
            sub.ctx.arm({"kind": f["user"], "k": int(f["at"] * users)})
        elif k == "interrupt":
            fault = {"kind": k, "k": int(f["at"] * lines)}
        else:
            fault = {"kind": k, "k": int(f["at"] * calls)}
        out = sub.call(fault=fault, **kw)
        happened = (sub.ctx.fired is not None) if k == "user" else out.fired is not None
        name = f["user"] if k == "user" else k
        sub.ctx.arm(None)
        sub.ctx.fired = None
        if out.hang:
            raise Violation("hang", "after the fault %s the call did not end" % name)
        if happened:
            fired += 1
            if out.ok:
                raise Violation("swallowed", "the fault %s (point %.4f of the run) did not surface: a result with "
                                "entries %s was returned" % (name, f["at"], [e.text for e in
                                                             read(out.value.compiled_sequence, sub.n)]))
            if not isinstance(out.exc, expected(k, f["user"])):
                raise Violation("other-error", "the fault %s surfaced as %r" % (name, out))
        elif not out.ok:
            raise Violation("unexpected-error", "no fault fired but the call failed: %r" % out)
        after = sub.inputs()
        for key in before:
            if before[key] != after[key]:
                raise Violation("damaged-input", "after the fault %s the %s changed" % (name, key))
        w.log(name, happened, "" if out.ok else type(out.exc).__name__)
    out = sub.call()
    if not out.ok:
        raise Violation("damaged", "after %d faults the same call fails: %r" % (fired, out))
    d = diff(ref, result_value(out.value, sub.n))
    if d:
        raise Violation("damaged", "after %s the same call from the same random state gives another result: %s"
                        % ([f["user"] if f["kind"] == "user" else f["kind"] for f in plan["faults"]], d))
    if plan.get("after"):
        # a different call, on the same objects and on fresh ones
        a = sub.call(**plan["after"])
        b = Subject(w, plan).call(**plan["after"])
        if a.ok != b.ok or not a.ok:
            raise Violation("damaged", "after %d faults another call ends with %r, on fresh objects with %r" % (fired, a, b))
        d = diff(result_value(b.value, sub.n), result_value(a.value, sub.n))
        if d:
            raise Violation("damaged", "after %s another call gives another result than on fresh objects: %s"
                            % ([f["user"] if f["kind"] == "user" else f["kind"] for f in plan["faults"]], d))
    return {"nontrivial": fired > 0}


def shrink(plan):
    for j in range(len(plan["faults"])):
        if len(plan["faults"]) > 1:
            yield dict(plan, faults=plan["faults"][:j] + plan["faults"][j + 1:])
    if plan.get("after"):
        yield dict(plan, after=None)
    for c in (shrink_cfg if plan["mode"] == "compile" else shrink_rav)(plan["cfg"]):
        yield dict(plan, cfg=c)
    for j, f in enumerate(plan["faults"]):
        if f["at"] > 0:
            yield dict(plan, faults=plan["faults"][:j] + [dict(f, at=0.0)] + plan["faults"][j + 1:])


_ = rand_prims
