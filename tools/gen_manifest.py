"""Writes /verif/MANIFEST.json from the property modules' ids and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = ("Seeded search over simulated executions of the real code, not exhaustive: absence of a violation means none on the "
        "seeds run. ")
STAT = "Statistical comparisons reject only below probability 1e-10 each; small biases stay below that resolution. "
TRUST = ("Trusts the harness's reference models (independent matrix and list models), CPython's sys.monitoring, numpy's linear "
         "algebra and its Generator-independent sampling algorithms.")

N = {
 "C01": ("DST of the search under seeded/hostile entropy and clock faults; stop rule judged against recomputed distances",
         "Thresholds within rounding (1e-7) of a reached distance are not judged. "),
 "C02": ("DST of the search; every step's state reconstructed by replaying the seed to each step limit, costs recomputed", ""),
 "C03": ("DST of the search; history of states per seed checked edit by edit against a sequence model",
         "Edits that cost the same matrices as no edit are accepted as either. "),
 "C04": ("DST of bundles of searches; acceptance sequence tested by martingale bounds against the Metropolis reference", STAT),
 "C05": ("DST with hostile entropy; every entry of every output matched against the configured gates", ""),
 "C06": ("DST with the random generator as the scheduler; outcome counts against exact distributions", STAT),
 "C07": ("DST of layered searches at every step limit; layer decomposition invariant", ""),
 "C08": ("DST of RAV generation; refinement against random-only generation from the same simulated entropy", STAT),
 "C09": ("DST of random-only generation; exact size, zero time and consumed entropy compared across equivalent calls", ""),
 "C10": ("DST: same seed replayed under other clocks, OS entropy, process histories, processes and hash seeds", ""),
 "C11": ("DST of compiler lifetimes with failed, interrupted and cut-off runs; refinement against a fresh compiler", ""),
 "C12": ("fault injection at seeded user-call, line and allocation points of whole compilations in the simulator", ""),
 "C13": ("DST of object graphs with a mutating user at seeded moments; aliasing detected by state comparison", ""),
 "C14": ("DST of edit/read/undo histories over live sequences sharing entries; refinement against a list model", ""),
 "C15": ("DST of undo histories; refinement against a model with one undo state", ""),
 "C16": ("DST of edit histories with failing allocations, numerical failures and interrupted reads; atomicity model", ""),
 "C17": ("DST of derivation histories; inverse and concatenation refined against list models", ""),
 "C18": ("DST of edit histories; exports parsed and refined against the list model", ""),
 "C19": ("DST with a seeded thread scheduler switching at every library line; each thread's history checked", 
         "Switches happen between source lines of library code, not inside numpy calls or single bytecodes. "),
 "C20": ("DST in virtual time with stalls, skew and wall-clock jumps; reported time bounded by simulated time", ""),
 "C21": ("DST of Trotter generation; entries against reference evolutions, orders against uniformity", STAT),
 "C22": ("DST of QDRIFT generation; entries against reference evolutions, frequencies against weights", STAT),
 "C23": ("DST of Hamiltonian compilations; entries against reference evolutions, stopping contract, step budget", STAT),
 "C24": ("DST of Hamiltonian RAV; random part accounted in evolution time, inverse part by stopping contract", STAT),
 "C25": ("DST of Haar sampling under seeded/extreme draws, threads and failed draws; moments and distributions", STAT),
 "C26": ("DST liveness: success within K simulated steps after faults stop, K from the failure bound 1e-12", ""),
 "C27": ("DST of crash and restart: only pickled bytes survive, restored in this or another process; refinement", ""),
 "C28": ("DST of embeddings in seeded order and interleaving with faults; refinement against tensor contraction", ""),
 "C29": ("DST of nested calls injected at seeded gate-function calls and library lines; both results compared with the calls alone",
         "Calls made while the library holds a lock of its own are not judged. "),
}
NA = {
 "N01": "pure functions of their arguments: no schedule, time, I/O, randomness, fault or history can change the outcome; "
        "deterministic simulation adds nothing over choosing inputs (property-based testing, another family)",
 "N02": "a metric on two immutable matrices; no schedule, fault, time or state is involved",
 "N03": "constants and closed-form functions; no schedule, fault, time or state is involved",
 "N04": "pure linear algebra on immutable terms; no schedule, fault, time or state is involved",
 "N05": "argument validation of constructors is a pure function of the arguments; no schedule, fault, time or state is involved",
}


def main():
    m = {"version": 1,
         "setup_cmd": PY + " -c \"import sys; sys.path.insert(0, '.'); import sim.boot, sim.engine\"",
         "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "No hooks in /repo: every source of nondeterminism is reached from outside (sim/boot.py, sim/world.py). "
                  "run_check.py ID [--runs=N] [--workers=N] [--tier=thorough]; replay.py FILE repeats a violation."}
    for pid, (tech, note) in N.items():
        m["checks"].append({
            "property": pid,
            "quick_cmd": "%s run_check.py %s" % (PY, pid),
            "thorough_cmd": "%s run_check.py %s --tier=thorough" % (PY, pid),
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection: " + tech,
            "level": "exploration",
            "level_note": BASE + note + TRUST})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
