from ..hams import Ham, rand_ham
from ..rav import Rav, rand_rav, shrink_rav
from ..walk import Walk, rand_cfg, shrink_cfg
from ..world import Violation, reseed, rng_for

ID = "C20"
TITLE = "Reported elapsed time is real elapsed time"
QUICK, THOROUGH = 7000, 80000
RULE = ("One run makes a compilation, RAV or Hamiltonian search in simulated time whose user-supplied gate functions stall "
        "for seeded times while the wall clock is skewed and jumps both ways, also during stalls; the reported time must lie "
        "between the stalls inside the search and the monotonic time between call and return. Non-trivial: stalls happened "
        "or the wall clock jumped during the call.")


def gen(i, rng, tier):
    plan = {"scale": 10 ** rng.uniform(-5, 2.5), "jump": rng.choice([0, 0.1, 0.5, 1.0]), "seed": rng.randrange(2 ** 31),
            "clock": {"mono0": rng.choice([0.0, 12.5, 1e6, 3e7]), "wall0": rng.choice([0.0, 1.7e9, 4e9]),
                      "tick": rng.choice([1e-9, 1e-7, 1e-6, 1e-3]), "skew": rng.choice([1.0, 0.9, 0.0, -0.5, 2.0]),
                      "jumps": [[rng.uniform(0, 3), rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 8)]
                                for _ in range(rng.choice([0, 1, 5]))]}}
    r = rng.random()
    if r < 0.6:
        cfg = rand_cfg(rng, max_steps=24, probe_share=0.9)
        cfg["append_p"] = rng.choice([0.5, 0.8, 1.0])
        return dict(plan, mode="compile", cfg=cfg)
    if r < 0.9:
        return dict(plan, mode="rav", cfg=rand_rav(rng, max_steps=16, probe_share=0.9))
    return dict(plan, mode="ham", ham=rand_ham(rng, n=1, lo=2), th=rng.choice([0.0, 0.3, 0.5]), t=rng.uniform(0, 1))


def run(plan, w):
    clock = w.clock
    if plan["mode"] == "ham":
        ham = Ham(plan["ham"])
        reseed(plan["seed"])
        t0 = clock.mono
        out = w.call(ham.lib.compile_stoq_sequence, plan["t"], 0.7, plan["th"], budget=60000)
        t1 = clock.mono
        if not out.ok:
            return {"nontrivial": False}
        check(float(out.value.total_elapsed_time), 0.0, (t1 - t0) / 1e9)
        return {"nontrivial": clock.jumped > 0}
    s = (Walk if plan["mode"] == "compile" else Rav)(w, plan["cfg"])
    ctx = s.ctx
    before = 0
    if plan["mode"] == "rav" and plan["cfg"]["mode"] != "xeb":
        s.run(threshold=0.0)
        before = len(ctx.log)               # calls that belong to the random part
    comp = s.compiler() if plan["mode"] == "compile" else None
    runs = 2 if plan["mode"] == "compile" else 1
    total = 0.0
    for r in range(runs):
        del ctx.log[:]
        stalls = []
        rng = rng_for("stall", plan["seed"], r)

        def hook(name, values):
            dt = rng.random() * plan["scale"] * (50 if rng.random() < 0.1 else 1)
            clock.advance(dt)
            stalls.append(int(dt * 1e9))
            if plan["jump"] and rng.random() < plan["jump"]:
                clock.jump_wall(rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 7))
        ctx.hook = hook
        t0 = clock.mono
        out = s.start(compiler=comp) if comp else s.start()
        t1 = clock.mono
        ctx.hook = None
        if not out.ok:
            raise Violation("unexpected-error", "with stalls and clock jumps the call failed: %r" % out)
        if plan["mode"] == "rav" and plan["cfg"]["mode"] == "xeb":
            check(float(out.value.total_elapsed_time), 0.0, (t1 - t0) / 1e9)
            continue
        inner = sum(stalls[before:]) / 1e9 if out.value.cost_by_step else 0.0
        total += inner
        check(float(out.value.total_elapsed_time), inner, (t1 - t0) / 1e9)
        w.log(len(stalls), float(out.value.total_elapsed_time))
        w.fired["stall"] += len(stalls)
    return {"nontrivial": total > 0 or clock.jumped > 0}


def check(elapsed, low, high):
    tol = 2e-7 + 1e-9 * high
    if elapsed < 0:
        raise Violation("negative-time", "elapsed time %r" % elapsed)
    if elapsed < low - tol:
        raise Violation("too-short", "elapsed time %.9f, but user functions stalled for %.9f s during the search" % (elapsed, low))
    if elapsed > high + tol:
        raise Violation("too-long", "elapsed time %.9f, but %.9f s passed between call and return" % (elapsed, high))


def shrink(plan):
    if plan["mode"] != "ham":
        for c in (shrink_cfg if plan["mode"] == "compile" else shrink_rav)(plan["cfg"]):
            yield dict(plan, cfg=c)
    if plan["jump"]:
        yield dict(plan, jump=0)
    if plan["clock"]["jumps"]:
        yield dict(plan, clock=dict(plan["clock"], jumps=plan["clock"]["jumps"][1:]))
    if plan["clock"]["skew"] != 1.0:
        yield dict(plan, clock=dict(plan["clock"], skew=1.0))
