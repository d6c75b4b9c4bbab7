"""Runs the check of one property:  run_check.py C01  (VERIF_SEED, VERIF_TIER from the environment)."""
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONDONTWRITEBYTECODE": "1"}


def main():
    args = sys.argv[1:]
    if args[0] == "--digests":
        import json
        from sim import engine
        print(json.dumps(engine.digests(engine.load(args[1]), int(args[2]), args[3],
                                        [int(x) for x in args[4].split(",")])))
        return 0
    if any(os.environ.get(k) != v for k, v in ENV.items()) and not os.environ.get("STOQ_SIM_EXEC"):
        os.environ.update(ENV)
        os.environ["STOQ_SIM_EXEC"] = "1"
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + args)
    from sim import engine
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    count = workers = None
    for a in args[1:]:
        if a.startswith("--runs="):
            count = int(a[7:])
        elif a.startswith("--workers="):
            workers = int(a[10:])
        elif a.startswith("--tier="):
            tier = a[7:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return engine.check(args[0], tier, seed, count, workers)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main())
