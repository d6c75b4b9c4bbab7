"""Times the runs of one property: prof.py C06 [count]"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import engine
from sim.boot import Real
mod = engine.load(sys.argv[1])
n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
ts = []
for i in range(n):
    p = engine.make_plan(mod, 1, i, "quick")
    t = Real.perf_counter()
    v, info, w = engine.execute(mod, p)
    ts.append((Real.perf_counter() - t, i, p.get("kind") or p.get("mode"), v and v.kind))
ts.sort(reverse=True)
print("total %.1f mean %.3f" % (sum(t[0] for t in ts), sum(t[0] for t in ts) / n))
by = {}
for t, i, k, v in ts:
    by.setdefault(k, []).append(t)
for k, x in by.items():
    print(k, len(x), "mean %.3f max %.3f" % (sum(x) / len(x), max(x)))
for x in ts[:8]:
    print(x)
