"""Re-executes a replay file:  replay.py FILE.  Exit 1 and a VIOLATION line if it reproduces, 0 if not."""
import json
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONDONTWRITEBYTECODE": "1"}


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()) and not os.environ.get("STOQ_SIM_REPLAY"):
        os.environ.update(ENV)
        os.environ["STOQ_SIM_REPLAY"] = "1"
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    as_json = "--json" in sys.argv
    path = [a for a in sys.argv[1:] if not a.startswith("--")][0]
    from sim import engine
    with open(path) as f:
        rep = json.load(f)
    mod = engine.load(rep["property"])
    r = engine.probe(mod, rep["plan"])
    if as_json:
        print(json.dumps(r or {"kind": None}))
        return 1 if r else 0
    if r is None:
        print("%s: the recorded run no longer violates the property" % rep["property"])
        return 0
    for line in r["trace"]:
        print("   ", line)
    print("%s: %s" % (r["kind"], r["detail"]))
    print("same violation: %s, identical execution: %s" % (
        r["kind"] == rep["kind"], r["digest"] == rep["digest"]))
    print("VIOLATION property=%s replay=%s" % (rep["property"], os.path.abspath(path)))
    return 1


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main())
