import random

import numpy as np

from .. import hams, refs
from ..gates import read
from ..rav import Rav
from ..seqsim import History, build_pool, check_text, rand_ops, rand_pool
from ..walk import Walk, rand_cfg, rand_target, shrink_cfg
from ..work import CUT, Op, diff, rand_op, result_value
from ..world import MON, SimInterrupt, Violation, reseed

from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import Unitary, UnitarySequence
from stoqcompiler.verification import Verification

ID = "C29"
TITLE = "A call made in the middle of another one disturbs neither"
QUICK, THOROUGH = 2500, 60000
RULE = ("One run executes a compilation, generation or edit script and, at seeded gate-function calls or between seeded "
        "lines of library code (as a signal handler would), further library calls in the same thread on the same compiler, "
        "gates, Hamiltonian, entries or a shared sequence, some of which fail; the random state is put back after each. Inner and outer "
        "results are compared with those of the same calls on their own. Non-trivial: an inner call was made.")
STATE_MEASURE = "distinct (outer call, inner call, way of interrupting) triples"
WE = {"first": 5, "last": 5, "rfirst": 3, "rlast": 3, "undo": 2, "product": 3, "entries": 0.7, "new": 0.5, "inverse": 0.7,
      "combine": 0.7, "embed": 1, "qasm": 0.5, "jaqal": 0.3, "display": 0.5, "copy": 0.3}


def gen(i, rng, tier):
    outer = rng.choice(["compile", "compile", "compile", "rav", "rav", "ham", "op", "edit", "shared"])
    plan = {"outer": outer, "line": True, "call": True, "seed": rng.randrange(2 ** 31)}
    plan["way"] = rng.choice(["call", "line"]) if outer in ("compile", "rav") else "line"
    cfg = rand_cfg(rng, max_steps=30, n=rng.choice([1, 1, 2, 2, 3]), probe_share=0.8 if plan["way"] == "call" else 0.4)
    cfg["entropy"] = None
    cfg["steps"] = rng.choice([2, 6, 15, 30])
    if rng.random() < 0.6:
        cfg.update(threshold=None, append_p=rng.choice([0.5, 0.7, 0.9]), rate=rng.choice([0.1, 1.0, 100.0]))
    plan["cfg"] = cfg
    n = cfg["n"]
    plan["pool"] = rand_pool(rng, n, lo=1, hi=4)
    plan["shared"] = [rng.randrange(8) for _ in range(rng.choice([0, 1, 3, 5]))]
    plan["read"] = rng.random() < 0.5
    plan["ham"] = hams.rand_ham(rng, n=rng.choice([1, 1, 2]), lo=2, hi=3)
    if outer == "rav":
        plan["length"] = rng.choice([0, 1, 3, 6])
    if outer == "ham":
        plan["hop"] = rng.choice(["trotter", "qdrift", "hrav", "stoq", "exact"])
    if outer == "op":
        plan["op"] = rand_op(rng, ["rav", "lrav", "xeb", "entry", "layer", "haar", "trotter", "qdrift"])
    if outer == "edit":
        plan["ops"] = rand_ops(rng, WE, rng.choice([3, 8, 14]))
    if outer == "shared":
        plan["reads"] = rand_reads(rng)
        plan["shared"] = [rng.randrange(8) for _ in range(rng.choice([2, 4, 8]))]
        plan["read"] = rng.random() < 0.15
    inner = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        own = {"compile": ["same", "same", "same", "rav", "entry", "fresh", "layer"], "rav": ["rav", "rav", "entry", "fresh", "layer"],
               "ham": ["ham"], "op": ["op", "haar"], "edit": ["shared", "embed"], "shared": ["shared", "shared", "shared", "embed"]}[outer]
        k = rng.choice(own * 3 + ["shared", "embed", "haar", "ham", "fresh", "op"])
        x = {"k": k, "seed": rng.randrange(2 ** 31), "at": rng.random(), "steps": rng.choice([0, 1, 3, 10, 25]),
             "th": rng.choice([None, None, 1.0, 0.9, 0.5, 0.2]), "layered": rng.random() < 0.5, "len": rng.choice([0, 1, 4]),
             "hop": rng.choice(["trotter", "qdrift", "exact", "hrav"]), "t": rng.uniform(-1, 2),
             "what": rand_reads(rng)}
        if k == "op":
            x["op"] = rand_op(rng, ["rav", "lrav", "xeb", "entry", "layer", "haar", "trotter", "qdrift", "compile"])
        if k == "same" and rng.random() < 0.7:
            x["target"] = rand_target(rng, cfg["prims"], n)
        if plan["way"] == "call" and rng.random() < 0.2:
            x["fault"] = {"kind": rng.choice(["interrupt", "alloc"]), "k": int(10 ** rng.uniform(0, 3))}
        inner.append(x)
    if rng.random() < 0.3:      # several at one place, or one after the other
        for x in inner[1:]:
            x["at"] = inner[0]["at"]
    plan["inner"] = inner
    return plan


def rand_reads(rng):
    return [[rng.choice(["product", "product", "inverse", "combine", "qasm", "display", "entries"]), rng.randrange(8), rng.randrange(3)]
            for _ in range(rng.randint(1, 3))]


class Scene:
    """The objects that the interrupted call and the calls made inside it share."""

    def __init__(self, plan, w):
        self.plan, self.w = plan, w
        cfg = plan["cfg"]
        self.cfg, self.n = cfg, cfg["n"]
        self.walk = Walk(w, cfg)
        self.comp = self.walk.compiler()
        self.ham = hams.Ham(plan["ham"])
        self.pool = build_pool(plan["pool"])
        idx = [a % len(self.pool) for a in plan["shared"]]
        idx = [i for i in idx if max(self.pool[i][1].apply) < self.n]
        self.seq = w.must("building the shared sequence", UnitarySequence, 2 ** self.n, [self.pool[i][0] for i in idx])
        self.sm = [self.pool[i][1] for i in idx]
        if plan["read"]:
            self.seq.product()
        self.targets = {}
        for j, x in enumerate(plan["inner"]):
            if x.get("target"):
                other = Walk(w, dict(cfg, target=x["target"]))
                self.targets[j] = other.target
        self.op = Op(w, plan["op"]) if plan["outer"] == "op" else None
        self.ops = {j: Op(w, x["op"]) for j, x in enumerate(plan["inner"]) if x["k"] == "op"}

    def ham_call(self, what, t, steps, length):
        h = self.ham.lib
        if what == "exact":
            return self.w.call(h.get_time_evolution_operator, t)
        if what == "trotter":
            return self.w.call(h.get_trotter_sequence, t, max(1, steps), True)
        if what == "qdrift":
            return self.w.call(h.get_qdrift_sequence, t, max(1, steps))
        if what == "stoq":
            return self.w.call(h.compile_stoq_sequence, t, 1.0, 0.2, budget=60000)
        return self.w.call(h.compile_rav_sequence, abs(t), 0.8, 0.0, budget=200000)

    def outer(self):
        plan, cfg = self.plan, self.cfg
        reseed(plan["seed"])
        k = plan["outer"]
        if k == "compile":
            out = self.walk.start(compiler=self.comp, keep_entropy=True)
        elif k == "rav":
            out = self.rav(plan["length"], cfg["threshold"], cfg["steps"])
        elif k == "ham":
            out = self.ham_call(plan["hop"], 0.7, 12, 1)
        elif k == "op":
            out = self.op.outcome()
        elif k == "shared":
            out = self.reads(plan["reads"])
        else:
            h = History(self.w, {"n": self.n, "pool": plan["pool"], "ops": plan["ops"], "every": 4}, {"entries", "product", "undo"})
            h.pool, h.slots, h.disk = self.pool, [], {}
            h.new(0, 0)
            h.run()
            return "checked"
        return self.value(out, "the interrupted call", self.ham.n if k == "ham" else self.n, self.op)

    def rav(self, length, th, steps):
        c = self.cfg
        d = 2 ** self.n
        unit = sum(c["counts"]) if c.get("layered") else 1
        budget = 300000 + 2500 * (unit + 3) * (steps + 1 + length)
        if c.get("layered"):
            return self.w.call(Verification.generate_layered_rav_sequence, d, self.walk.counts, length, th, 0.5, steps, budget=budget)
        return self.w.call(Verification.generate_rav_sequence, d, self.walk.container, length, th, 0.5, self.walk.probs, steps, budget=budget)

    def inner_value(self, j, out, what):
        return self.value(out, what, self.ham.n if self.plan["inner"][j]["k"] == "ham" else self.n, self.ops.get(j))

    def value(self, out, what, n, op=None):
        if out.hang:
            return CUT
        if not out.ok:
            raise Violation("unexpected-error", "%s failed: %r" % (what, out))
        v = out.value
        if op is not None:
            return op.value(v)
        if isinstance(v, UnitarySequence):
            return [e.text for e in read(v, n)]
        if isinstance(v, Unitary):
            return [float(abs(x)) for x in np.asarray(v.get_matrix()).ravel()]
        if hasattr(v, "cost_by_step"):
            return result_value(v, n)
        if isinstance(v, list) and v and isinstance(v[0], Unitary):
            return [[float(abs(x)) for x in np.asarray(u.get_matrix()).ravel()] for u in v]
        if isinstance(v, list):
            return [[e.get_full_unitary(2 ** n).get_display_name(), [int(q) for q in e.get_apply_to()]] for e in v]
        return v

    def inner(self, j, fault=None):
        x = self.plan["inner"][j]
        reseed(x["seed"])
        k, w = x["k"], self.w
        if k == "same":
            tg = self.targets.get(j, self.walk.target)
            lay = bool(self.cfg.get("layered")) and x["layered"]
            if lay:
                return w.call(self.comp.compile_layered, tg, self.walk.counts, x["th"], x["steps"], budget=10 ** 7, fault=fault)
            return w.call(self.comp.compile, tg, x["th"], x["steps"], budget=10 ** 7, fault=fault)
        if k == "fresh":
            return self.walk.start(steps=x["steps"], threshold=x["th"], keep_entropy=True, fault=fault)
        if k == "rav":
            return self.rav(x["len"], x["th"], x["steps"])
        if k == "entry":
            return w.call(lambda: [Compiler.create_random_sequence_entry(2 ** self.n, self.walk.container, self.walk.probs) for _ in range(3)],
                          fault=fault)
        if k == "layer":
            counts = self.walk.counts or {p: 1 for p, s in zip(self.walk.gs.prims, self.cfg["prims"])
                                          if s.get("apply") is None or s["apply"]}
            return w.call(lambda: list(Compiler.create_random_layer(2 ** self.n, counts)), fault=fault)
        if k == "haar":
            return w.call(lambda: [Unitary.random(d) for d in (2, 4)], fault=fault)
        if k == "ham":
            return self.ham_call(x["hop"], x["t"], x["steps"], x["len"])
        if k == "op":
            return self.ops[j].outcome(fault=fault)
        if k == "embed":
            def f():
                out = []
                for _, a, b in x["what"]:
                    e, m = self.pool[a % len(self.pool)]
                    size = max(m.apply) + 1 + b
                    u = e.get_full_unitary(2 ** size)
                    bad = refs.phase_diff(np.asarray(u.get_matrix()), m.full(size))
                    out.append([u.get_display_name(), bool(bad < 1e-7)])
                return tuple(out)
            return w.call(f, budget=10 ** 6, fault=fault)
        return self.reads(x["what"], fault)

    def reads(self, what, fault=None):
        seq = self.seq

        def g():
            out = []
            for o, _, _ in what:
                if o == "product":
                    out.append([round(float(abs(c)), 9) for c in np.asarray(seq.product().get_matrix()).ravel()])
                elif o == "inverse":
                    inv = seq.inverse()
                    out.append([inv.get_display_output()] + [round(float(abs(c)), 9) for c in np.asarray(inv.product().get_matrix()).ravel()])
                elif o == "combine":
                    out.append(UnitarySequence.combine(seq, seq).get_display_output())
                elif o == "qasm":
                    out.append(seq.get_qasm())
                elif o == "display":
                    out.append(seq.get_display_output())
                else:
                    out.append([e.get_full_unitary(2 ** self.n).get_display_name() for e in seq.get_sequence_entries()])
            return tuple(out)
        return self.w.call(g, budget=10 ** 6, fault=fault)


def run(plan, w):
    way = plan["way"]
    xs = plan["inner"]
    # every call on its own, with its own objects
    ref = Scene(plan, w)
    want = [ref.inner_value(j, ref.inner(j), "a call on its own") for j in range(len(xs))]
    solo = Scene(plan, w)
    a, b = MON.line_count, len(solo.walk.ctx.log)
    wanted = solo.outer()
    lines, calls = MON.line_count - a, len(solo.walk.ctx.log) - b
    if wanted is CUT:
        w.log("cut off")
        return {"nontrivial": False}
    # together
    sc = Scene(plan, w)
    got, made = {}, []
    errors, busy = [], []

    def nested(j):
        st, pst = np.random.get_state(), random.getstate()
        keep = (MON.budget, MON.lines_left, MON.calls_left, MON.fault_exc, MON.fired)
        rest, MON.nested = MON.nested, None
        hook, sc.walk.ctx.hook = sc.walk.ctx.hook, None
        try:
            x = xs[j]
            out = sc.inner(j, x.get("fault") if way == "call" else None)
            if x.get("fault") and not out.ok and out.fired:
                w.log("inner", j, "failed")
            else:
                got[j] = sc.inner_value(j, out, "a %s call made in the middle of another one (%s)" % (x["k"], plan["outer"]))
        except (Violation, SimInterrupt) as e:
            if way == "line" and getattr(e, "kind", "") == "deadlock":
                # a lock that is held for a moment: what signal handlers have to live with
                w.probes["refused_under_lock"] += 1
                busy.append(j)
            else:
                errors.append(e)
        except RecursionError:
            raise
        except Exception as e:
            errors.append(Violation("unexpected-error", "a %s call made in the middle of another one failed: %s: %s"
                                    % (xs[j]["k"], type(e).__name__, e)))
        finally:
            sc.walk.ctx.hook = hook
            MON.nested = rest
            MON.budget, MON.lines_left, MON.calls_left, MON.fault_exc, MON.fired = keep
            np.random.set_state(st)
            random.setstate(pst)
        made.append(xs[j]["k"])
        w.fired["nested_" + way] += 1

    if way == "call":
        at = sorted((int(x["at"] * calls), j) for j, x in enumerate(xs)) if calls else []
        seen = [0]

        def hook(name, values):
            c = seen[0]
            seen[0] += 1
            while at and at[0][0] <= c:
                nested(at.pop(0)[1])
        sc.walk.ctx.hook = hook
    else:
        at = sorted((int(x["at"] * lines), j) for j, x in enumerate(xs))
        prev, queue = 0, []
        for k, j in at:
            queue.append([k - prev, lambda j=j: nested(j)])
            prev = k
        MON.nested = queue
    result = sc.outer()
    MON.nested = None
    sc.walk.ctx.hook = None
    for e in errors:
        raise e
    for j, v in sorted(got.items()):
        d = diff(want[j], v)
        if d and want[j] is not CUT and v is not CUT:
            raise Violation("inner-differs", "a %s call in the middle of %s gives another result than on its own: %s"
                            % (xs[j]["k"], plan["outer"], d))
    if result is not CUT:
        d = diff(wanted, result)
        if d:
            raise Violation("outer-differs", "%s with %s in the middle of it gives another result than undisturbed: %s"
                            % (plan["outer"], made, d))
    for o in made:
        w.probes["outer_" + plan["outer"]] += 1
    # afterwards everything is as it was
    j = 0 if xs else None
    if j is not None:
        v = sc.inner_value(j, sc.inner(j), "the inner call, made once more afterwards")
        d = diff(want[j], v)
        if d and v is not CUT and want[j] is not CUT:
            raise Violation("memory", "afterwards the %s call gives another result: %s" % (xs[j]["k"], d))
    w.log(made, len(got), lines, calls)
    return {"nontrivial": bool(made), "states": ["%s/%s/%s" % (plan["outer"], k, way) for k in made]}


def shrink(plan):
    for j in range(len(plan["inner"])):
        if len(plan["inner"]) > 1:
            yield dict(plan, inner=plan["inner"][:j] + plan["inner"][j + 1:])
    for j, x in enumerate(plan["inner"]):
        if x["steps"] > 1:
            yield dict(plan, inner=plan["inner"][:j] + [dict(x, steps=x["steps"] // 2)] + plan["inner"][j + 1:])
        if x.get("fault"):
            yield dict(plan, inner=plan["inner"][:j] + [dict(x, fault=None)] + plan["inner"][j + 1:])
    if plan["outer"] == "edit":
        for a in range(len(plan["ops"])):
            yield dict(plan, ops=plan["ops"][:a] + plan["ops"][a + 1:])
    for s in (0, 1, 2, plan["cfg"]["steps"] // 2):
        if s < plan["cfg"]["steps"]:
            yield dict(plan, cfg=dict(plan["cfg"], steps=s))


_ = (Rav, check_text, shrink_cfg)
