"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewed in one place)."""
import json, os
SEQ = "stoqcompiler/unitary/unitary_sequence.py"
ENT = "stoqcompiler/unitary/unitary_sequence_entry.py"
COMP = "stoqcompiler/compiler/compiler.py"
RES = "stoqcompiler/compiler/compiler_result.py"
ACT = "stoqcompiler/compiler/compiler_action.py"
VER = "stoqcompiler/verification/verification.py"
HAM = "stoqcompiler/hamiltonian/hamiltonian.py"
TERM = "stoqcompiler/hamiltonian/hamiltonian_term.py"
UNI = "stoqcompiler/unitary/unitary.py"
PRIM = "stoqcompiler/unitary/unitary_primitive.py"
PU = "stoqcompiler/unitary/parameterized_unitary.py"
PUD = "stoqcompiler/unitary/parameterized_unitary_definitions.py"
PUP = "stoqcompiler/unitary/parameterized_unitary_parameter.py"
DEF = "stoqcompiler/unitary/unitary_definitions.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


prop("C01", "Compilation stops exactly when it should",
     "A compilation, plain or layered, stops at the first step whose product is within the requested threshold of the target and otherwise runs exactly the allowed number of steps: it never stops early, never runs on after success, and performs no step at all when the empty sequence already qualifies or the step limit is 0. A threshold of 1.0 and no threshold both mean an exact compilation, judged up to floating-point tolerance.",
     ["schedules", "inputs", "configurations"],
     "Every random walk of the search (every outcome of the random generator), target, gate set, threshold including 0, 1 and None, and step limit including 0 and 1.",
     "The tests run five compilations, each from one fixed random state, mostly without a step limit, and look only at the final product; they never observe the step at which a walk stops.",
     [COMP, UNI], [("loop condition of the two compile loops", COMP + ": _compile, _compile_layered"), ("threshold comparison", UNI + ": close_to")],
     ["CompilerResult.cost_by_step", "CompilerResult.compiled_sequence"])
prop("C02", "A compilation result is truthful about its sequence and costs",
     "The result of a compilation reports one cost per step; the cost of every step is the distance to the target of the sequence the search held after that step, recomputed independently from its entries, and the returned sequence's product equals the ordered product of its entries. Costs lie between 0 and 1 up to rounding.",
     ["schedules", "inputs", "histories"],
     "Every random walk and every step of it, plain and layered, including steps that were proposed and undone.",
     "Tests check only that cost_by_step is a list; no test compares any cost, final or intermediate, with the sequence.",
     [COMP, SEQ, RES], [("cost bookkeeping on accept and reject", COMP + ": _compile, _compile_layered"), ("incremental product cache", SEQ + ": append_first, append_last, remove_first, remove_last, undo")],
     ["CompilerResult.cost_by_step", "CompilerResult.compiled_sequence", "the same seeded walk cut at every step limit"])
prop("C03", "Every search step is one legal edit, or leaves the sequence unchanged",
     "Each step of a compilation either leaves the sequence exactly as it was or adds or removes one entry (one whole layer, when layered) at its first or last position; entries that are not touched keep their gate, parameters, qubits and order. A rejected proposal leaves no trace.",
     ["schedules", "histories", "inputs"],
     "Every pair of consecutive states in every random walk, for gate sets on 1 to 4 qubits, with and without rejections.",
     "Tests see only the final sequence of a few walks; an intermediate state, or the effect of undoing a proposal, is never observed.",
     [COMP, SEQ, ACT], [("random change and undo on rejection", COMP + ": _make_random_change, _make_random_change_layered, _compile"), ("undo snapshot", SEQ + ": _save_undo_state, undo")],
     ["the same seeded walk cut at every step limit"])
prop("C04", "Proposals are accepted by the annealed Metropolis rule",
     "At step k of a compilation the inverse temperature is k times the annealing rate, capped at the documented maximum for the dimension: a proposal that does not increase the cost is always accepted, and one that increases it by D is accepted with probability exp(-beta D). The rule is the same for plain and layered compilation.",
     ["schedules", "configurations", "histories"],
     "Every random walk; annealing rates from 0 (accept everything) to very large (greedy descent); every step index.",
     "The rule is a statement about distributions over random outcomes and about individual rejected proposals, which no test observes.",
     [COMP], [("acceptance test and beta schedule", COMP + ": _accept_proposed_change, _compile, _compile_layered")],
     ["walk prefixes", "calls of user-supplied gate functions (each proposal of a parameterized gate calls one)", "distribution of final states over many seeds"],
     state=[("beta", "inverse temperature of the walk", COMP)])
prop("C05", "Generated sequences contain only gates the user allowed",
     "Every entry of every sequence produced by compilation, random generation, RAV or XEB is one of the configured gates, with its matrix evaluated at exactly the parameter values it reports, each value inside that parameter's range, applied to distinct qubits inside the system and, when the gate restricts where it may act, to one of its permitted qubit lists in the given order. A gate with no permitted location is never used, also when gate probabilities are given.",
     ["schedules", "inputs", "configurations"],
     "All random outcomes including extreme ones (draws at the ends of the unit interval), gate sets with restricted and empty placement lists, 1 to 4 qubits.",
     "Tests never look at an entry's qubits, range or matrix; restricted placement and gate probabilities are not exercised at all.",
     [COMP, PRIM, PU, PUP, PUD], [("random entry generation", COMP + ": create_random_sequence_entry"), ("range-respecting random value", PUP + ": random_value"), ("placement lists", PRIM)],
     ["entries of compiled sequences", "Compiler.create_random_sequence_entry", "Compiler.create_random_layer"])
prop("C06", "Random choices follow the configured probabilities",
     "Over many random outcomes gates are proposed with the configured probabilities (uniformly when none are given, and never when a gate's probability is 0), placements are uniform over the permitted qubit lists or over ordered choices of distinct qubits, parameters are uniform over their range, and a step proposes adding a gate with the configured append probability, split evenly between both ends and likewise for removals. Gates in a random layer appear in uniformly random order.",
     ["schedules", "configurations"],
     "The distribution over all random outcomes, for arbitrary probability vectors, placement lists and append probabilities including 0 and 1.",
     "Distributional; tests draw a handful of samples from one seed and never pass probabilities.",
     [COMP, VER], [("weighted choice of primitive, placement and action", COMP + ": create_random_sequence_entry, create_random_layer, _make_random_change")],
     ["frequencies over many seeded runs"])
prop("C07", "Layered sequences are always made of whole layers",
     "Every sequence produced by layered compilation, layered RAV or XEB is a concatenation of whole layers, each containing exactly the configured count of each gate; no step limit, rejection, removal or early stop leaves a partial layer.",
     ["schedules", "configurations", "histories"],
     "Every random walk cut at every step, every layer configuration including counts of 0 and several gates of one kind.",
     "One test checks the total length modulo the layer length for one random walk; composition of each layer is never checked.",
     [COMP, VER], [("layer generation and whole-layer edits with a single undo snapshot", COMP + ": create_random_layer, _make_random_change_layered")],
     ["entries of layered sequences"])
prop("C08", "A RAV sequence is a random part followed by its compiled inverse",
     "A RAV sequence, plain or layered, begins with the requested number of random gates (or layers), exactly those that generation without inversion would have produced from the same random state, followed by a search for their inverse that uses the given append probability, gate probabilities and step limit. The distance of the whole sequence from the identity equals the last reported cost and meets the threshold whenever the search stopped before its step limit.",
     ["schedules", "inputs", "configurations"],
     "All random walks, lengths from 0 upward, thresholds (None means exact), append probabilities 0 to 1, step limits.",
     "Two tests check closeness to the identity for one random state each; the random part, the costs, the probabilities and the limits are unobserved.",
     [VER, COMP, SEQ], [("random part, inversion, concatenation", VER + ": generate_rav_sequence, generate_layered_rav_sequence"), ("concatenation", SEQ + ": combine")],
     ["Verification.generate_rav_sequence", "Verification.generate_layered_rav_sequence"])
prop("C09", "Random-only generation has exact size and does no search",
     "XEB generation, and RAV generation with threshold 0 or step limit 0, returns exactly the requested number of gates or layers, reports no search steps and no search time, and draws nothing for a search.",
     ["schedules", "configurations"],
     "All random outcomes, lengths and layer counts including 0, layer configurations on 1 to 4 qubits.",
     "Two tests check one length each at one random state.",
     [VER, COMP], [("skip of the inverse compilation", VER + ": generate_rav_sequence, generate_layered_rav_sequence, generate_xeb_sequence")],
     ["Verification.generate_xeb_sequence", "calls of user-supplied gate functions"])
prop("C10", "Results are reproducible from the random seeds alone",
     "With the same state of the process's global random generators (numpy's and the standard library's), every generation and compilation routine returns the same result, whatever the clock reads, whatever was run before in the process, and whichever process and hash seed it runs under. The library takes no randomness from anywhere else and never resets those generators: consecutive calls continue the stream.",
     ["schedules", "histories", "configurations"],
     "All seeds, all routines, all clock behaviours, all earlier call histories in the process, all hash seeds.",
     "Tests seed once and run once; none runs twice and compares, or varies the environment.",
     [COMP, VER, HAM, PUP, UNI], [("all randomness drawn from numpy.random and random globals", COMP + ", " + HAM + ", " + PUP + ", " + UNI)],
     ["all public generation routines, run twice under different clocks, histories and hash seeds"])
prop("C11", "A compiler keeps no memory between compilations",
     "A compilation depends only on the compiler's configuration, its arguments and the random state: using one compiler for any number of earlier compilations, plain or layered, successful, cut off, failed or interrupted, does not change the outcome of the next one compared with a fresh compiler.",
     ["histories", "fault_sequences", "crash_points"],
     "All histories of earlier calls on the same compiler, including ones ended by errors or interrupts at arbitrary points.",
     "Every test uses a compiler for a single compilation.",
     [COMP], [("annealing state", COMP + ": __init__, compile, compile_layered")],
     ["Compiler.compile, Compiler.compile_layered on one object"],
     state=[("beta", "annealing parameter kept on the compiler object", COMP)])
prop("C12", "Failures inside a compilation surface and damage nothing",
     "When a user-supplied gate function raises, or returns something that is not a unitary matrix of the right size, or memory runs out, or the user interrupts, at any point of a compilation or of RAV or XEB generation, the call ends with that error and returns no result; it never hangs, swallows the error or returns a sequence containing the bad gate. The compiler, gates and target handed in are unchanged and work as before.",
     ["fault_sequences", "crash_points", "schedules"],
     "Every fault kind at every point of every random walk.",
     "Tests inject no fault anywhere in a compilation.",
     [COMP, PU, UNI, VER], [("validation of every gate matrix", UNI + ": __init__"), ("no exception handling in the search loop", COMP)],
     ["exceptions from compile, compile_layered, generate_*", "later use of the same objects"])
prop("C13", "Inputs are never modified and results share nothing",
     "Compilation and sequence generation never modify the gates, placement lists, probabilities, counts, Hamiltonian terms, target or entries they are given, and changing those lists, or the entries a sequence was built from, afterwards does not affect an object already built from them. Editing a returned sequence, the entries or costs read from it, affects neither the inputs, nor the compiler, nor any other result.",
     ["histories", "inputs"],
     "All interleavings of building, generating, editing results and editing inputs.",
     "No test inspects an input after use or edits a result.",
     [COMP, SEQ, HAM, VER], [("deep copies at construction and on reads", COMP + ": __init__; " + SEQ + ": __init__, get_sequence_entries; " + HAM + ": __init__")],
     ["fingerprints of inputs and earlier results before and after each operation"])
prop("C14", "A sequence's product is the ordered product of its entries, always",
     "After any history of adding and removing entries at either end, however long, with products read at any moment, a sequence holds exactly the entries the history implies, and its product equals the product of those entries on the full system with the first entry acting first. Building a sequence from a list or an array of entries is equivalent to adding them one by one.",
     ["histories", "inputs"],
     "All edit histories (short and thousands of edits long), all gates on 1 to 3 qubits at all placements in systems of 1 to 4 qubits, repeated use of one entry object.",
     "One test performs six edits of single-qubit Pauli gates, which commute up to phase and so cannot detect wrong order.",
     [SEQ, ENT], [("incrementally maintained product", SEQ + ": append_first, append_last, remove_first, remove_last, product"), ("embedding into the full system", ENT + ": get_full_unitary")],
     ["UnitarySequence.product", "UnitarySequence.get_sequence_entries", "UnitarySequence.get_length"],
     state=[("sequence_product", "cached product, absent until first read", SEQ)])
prop("C15", "Undo restores exactly the state before the last recorded change",
     "Undoing returns a sequence, entries and product alike, to its state just before the most recent change that was recorded for undo, also when unrecorded changes followed it or nothing could be removed; it can be done once per recorded change, and an undo with nothing to undo is refused and changes nothing.",
     ["histories"],
     "All histories mixing recorded and unrecorded edits, edits on empty sequences, undo, derivation and product reads in any order.",
     "One test covers two undos of single-qubit edits with the product always read beforehand.",
     [SEQ], [("undo snapshot", SEQ + ": _save_undo_state, undo")],
     ["UnitarySequence.undo followed by product and entries"],
     state=[("previous_entries", "snapshot for undo", SEQ), ("previous_sequence_product", "product snapshot for undo", SEQ)])
prop("C16", "A failed edit leaves a consistent sequence",
     "When adding, removing or undoing fails because the entry does not fit the system, memory runs out or a numerical routine fails in the middle of it, the sequence afterwards holds exactly the entries from before or from after the edit, its product agrees with them, and a later undo returns to a state the sequence really had. Reading operations that fail or are interrupted at any point change nothing.",
     ["fault_sequences", "crash_points", "histories"],
     "Every edit and every read in every history, failing at every numerical call (edits) or at every point (reads).",
     "Tests inject no fault and check nothing after an expected error.",
     [SEQ, ENT], [("order of computing and committing an edit", SEQ + ": append_first, append_last, remove_first, remove_last, _save_undo_state, undo")],
     ["entries, product and undo after the failure"])
prop("C17", "Inverting and concatenating sequences is exact and independent",
     "The inverse of a sequence has every entry inverted and in reverse order on the same qubits, and composes with the original to the identity; a concatenation holds the entries of its parts in order; both hold for sequences with any history, including ones using one entry object several times, and inverting twice gives back the original. Derived sequences and their sources can afterwards be edited without affecting each other.",
     ["histories", "inputs"],
     "All histories of editing, undoing, inverting, combining and copying sequences in any order.",
     "Tests invert one two-entry sequence and combine one pair of sequences of one qubit, and edit neither afterwards.",
     [SEQ, UNI], [("inverse and concatenation", SEQ + ": inverse, combine"), ("gate inverse", UNI + ": inverse")],
     ["UnitarySequence.inverse, UnitarySequence.combine, then edits, products and entries of all sequences involved"])
prop("C18", "Exported text always mirrors the sequence's current entries",
     "At any moment in any history the QASM-like, JAQAL-like and human-readable exports list the sequence's current entries, one per line and in order, each with its operation name, its qubits as plain numbers in applied order, and its parameter values to the stated precision; the human-readable form marks inverted gates. Exporting changes nothing.",
     ["histories", "inputs"],
     "All histories of edits, undo, inversion, concatenation, compilation and save/restore before an export.",
     "Tests check only that each export is a non-empty string, except for one gate without parameters.",
     [UNI, SEQ, ENT], [("formatting", UNI + ": get_qasm, get_jaqal, get_display_name"), ("labels carried by the cached full-system gate", ENT + ": get_full_unitary")],
     ["get_qasm, get_jaqal, get_display_output"])
prop("C19", "Work in several threads stays correct under every interleaving",
     "Threads that compile, generate, embed, read, export and edit their own sequences at the same time, while sharing gates, entries, targets, Hamiltonians, compilers and sequences that are only read, each get results that satisfy the same guarantees as when run alone, under every interleaving.",
     ["schedules", "histories"],
     "All interleavings of up to four threads at the granularity of source lines of the library.",
     "All tests are single-threaded.",
     [COMP, ENT, SEQ, UNI, HAM], [("no shared mutable state except the embedding cache and the product cache", ENT + ": get_full_unitary; " + SEQ + ": product")],
     ["results of each thread"])
prop("C20", "Reported elapsed time is real elapsed time",
     "The elapsed time in a compilation result covers the whole compilation, including every stall inside user-supplied gate functions, and never exceeds the monotonic time between call and return; it is never negative and is unaffected by adjustments of the wall clock in either direction.",
     ["schedules", "fault_sequences", "configurations"],
     "All timings of gate functions (microseconds to hours), all wall-clock jumps, all walks.",
     "Tests check only that the value is not negative on the machine's real clock.",
     [COMP, RES], [("monotonic clock around the search", COMP + ": compile, compile_layered")],
     ["CompilerResult.total_elapsed_time against a simulated clock"])
prop("C21", "Trotter sequences contain each term once per step, in any order",
     "A Trotter sequence has exactly one entry per Hamiltonian term per step, each evolving the full system under that term for the total time divided by the number of steps and labelled with that term's index; terms keep their order without randomization, and with it every step gets an independent, uniformly random order. Whatever the orders, the product differs from the exact evolution by no more than the first-order Trotter bound.",
     ["schedules", "inputs"],
     "All random orders, Hamiltonians of 1 to 3 qubits and 1 to 5 terms, times of either sign, step counts from 1.",
     "Tests check the length and a loose overlap for two Hamiltonians at one seed.",
     [HAM, DEF, TERM], [("step and term loops", HAM + ": get_trotter_sequence")],
     ["Hamiltonian.get_trotter_sequence", "Hamiltonian.get_ideal_sequence"])
prop("C22", "QDRIFT sequences sample terms by weight with the right step",
     "A QDRIFT sequence has exactly the requested number of entries; each evolves the full system under one normalized term for the summed weight times the total time divided by the number of entries, labelled with that term's index; and terms are drawn independently with probability proportional to their weight.",
     ["schedules", "inputs"],
     "All random outcomes, Hamiltonians of 1 to 3 qubits with weights over several orders of magnitude and either sign, times of either sign.",
     "Tests check the length and a loose overlap for two Hamiltonians at one seed.",
     [HAM, TERM], [("sampling", HAM + ": get_qdrift_sequence"), ("normalization", TERM + ": __init__")],
     ["Hamiltonian.get_qdrift_sequence"])
prop("C23", "Hamiltonian compilation uses only allowed evolution steps",
     "Compiling a Hamiltonian's evolution yields a sequence whose every entry evolves the full system under a single term, or when allowed a sum of distinct terms, for a time of at most the maximum step in either direction, labelled accordingly; all allowed steps are drawn evenly, with times spread evenly over both directions; the search obeys its stopping contract for the exact evolution operator as target within a bounded number of steps.",
     ["schedules", "inputs", "configurations"],
     "All random walks, Hamiltonians of 1 to 3 qubits, step sizes, thresholds, both settings of simultaneous terms.",
     "One test checks final closeness for one Hamiltonian.",
     [HAM, COMP], [("primitives built from term subsets", HAM + ": _get_unitary_primitives, _get_term_subsets, _compile_stoq_sequence_for_target_unitary")],
     ["Hamiltonian.compile_stoq_sequence"])
prop("C24", "Hamiltonian RAV runs for the requested time and inverts itself",
     "A Hamiltonian RAV sequence begins with random evolution steps, drawn evenly from the allowed ones with lengths spread evenly up to the maximum step and independently forward in time with probability 0.8, whose absolute times add up to at least the requested time and would not without the last one, followed by a compiled inverse; all steps are allowed evolution steps, and the whole sequence's distance from the identity equals the last reported cost and meets the threshold if the search stopped before its limit.",
     ["schedules", "inputs", "configurations"],
     "All random walks, Hamiltonians of 1 to 2 qubits, times from 0, step sizes, thresholds, both settings of simultaneous terms.",
     "One test checks closeness to the identity for one Hamiltonian and seed.",
     [HAM, COMP, SEQ], [("random part and inversion", HAM + ": compile_rav_sequence")],
     ["Hamiltonian.compile_rav_sequence"])
prop("C25", "Random unitaries are unitary and Haar distributed",
     "For every random outcome a randomly generated gate is a unitary of the requested size with unit determinant, fresh on every call, and over many outcomes its distribution up to phase is uniform over all gates of that size.",
     ["schedules"],
     "All random outcomes including extreme draws; sizes 1 to 16.",
     "Tests draw single samples at one seed.",
     [UNI], [("random gate", UNI + ": random")],
     ["Unitary.random"])
prop("C26", "Reachable targets are found within a bounded number of steps",
     "When the gate set can reach the threshold in a single move with known probability from every state, a compilation succeeds within a correspondingly bounded number of steps, also on a compiler whose earlier compilations failed or were interrupted and after clock jumps and stalls; plain, layered, RAV and Hamiltonian searches alike.",
     ["schedules", "fault_sequences", "histories"],
     "All random walks over universal gate sets, after any faults have ceased.",
     "Tests run unbounded and would only hang; they use one walk per scenario.",
     [COMP, VER, HAM], [("always-accepted improvements", COMP + ": _accept_proposed_change")],
     ["steps to success"])
prop("C27", "Saved sequences and results survive a restart unchanged",
     "A sequence or compilation result that was saved by pickling or deep-copying at any point of its history, and restored after the original is gone, in the same or another process, has the same entries, product, costs, exports and undo state and behaves identically under all further operations; copies and originals do not affect each other.",
     ["crash_points", "histories"],
     "All histories before the save, all save points, all continuations.",
     "No test saves or restores anything.",
     [SEQ, ENT, UNI, RES], [("plain-data state of sequences, entries, gates and results", SEQ + "; " + ENT + "; " + UNI + "; " + RES)],
     ["pickle and copy round trips mid-history, restore in a fresh process"])
prop("C28", "An entry acts correctly in every system size, whatever came before",
     "An entry embedded into a system of any size acts as its gate on its qubits, in the given order, and as the identity on all others, and reports its own name, parameters and qubits, regardless of which other sizes or entries were embedded before, of interrupted earlier attempts, and of concurrent embeddings; a system too small is refused every time.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "All gates on 1 to 3 qubits, all ordered placements in systems of 1 to 5 qubits, all orders of requests, interrupts at every point.",
     "Tests embed CNOT at two placements and never ask twice or in several sizes with a non-trivial permutation.",
     [ENT], [("cached embedding by permutation", ENT + ": get_full_unitary, get_permute_matrix")],
     ["UnitarySequenceEntry.get_full_unitary"],
     state=[("full_unitary_by_dimension", "cache of embeddings per system size", ENT)])
prop("C29", "A call made in the middle of another one disturbs neither",
     "While one library call is in progress, another may be made in the same thread - by a gate function that the call is evaluating, or between any two lines of library code as from a signal handler - on the same compiler, gates, targets, entries, Hamiltonian or a finished sequence; if the random state is put back afterwards, the inner call gives the result it gives on its own from its random state, whether other inner calls fail or not, and the outer call continues to the result it has without the interruption.",
     ["schedules", "fault_sequences", "inputs"],
     "All outer and inner calls, all gate-function calls and lines at which the inner call happens, several inner calls, failing inner calls.",
     "No test makes a call inside another one; the outcome depends on the exact place.",
     [COMP, VER, SEQ, ENT, PU, HAM], [("search state held in local variables", COMP + ": _compile, _compile_layered"),
                      ("evaluation of gate functions", PU + ": as_unitary"), ("cached embeddings and products", ENT + "; " + SEQ)],
     ["Compiler.compile, compile_layered and Verification called from gate functions and between lines"])

NA = [
 ("N01", "Gates are validated unitaries with balanced phase; algebra is exact",
  "Constructing a gate accepts exactly the square unitary matrices of the stated size, normalizes the global phase so that the determinant is 1, and products, inverses and tensor products of gates equal the corresponding matrix operations up to global phase.",
  "All matrices and pairs of gates.", "Tests use a handful of fixed matrices.", [UNI], [("constructor and algebra", UNI)]),
 ("N02", "Distance is a phase-blind measure between 0 and 1",
  "The distance between two gates is 0 exactly when they agree up to global phase, is symmetric, invariant under multiplying both by the same gate, and lies between 0 and 1.",
  "All pairs of gates.", "Tests compare a few fixed gates.", [UNI], [("distance_from", UNI)]),
 ("N03", "Named gates equal their textbook definitions",
  "Each named gate and each parameterized gate at every parameter value equals its textbook matrix up to global phase, on the stated number of qubits.",
  "All angles and qubit numbers.", "Tests check some identities at a few angles.", [DEF, PUD], [("definitions", DEF)]),
 ("N04", "Hamiltonian terms and exact evolution are faithful",
  "A Hamiltonian term accepts exactly the nonzero Hermitian matrices, splits into a positive weight and a matrix of unit norm that multiply back to it, and exact evolution operators form a one-parameter group generated by the sum of the terms.",
  "All Hermitian matrices and times.", "Tests use three fixed matrices.", [TERM, HAM, DEF], [("normalization, time evolution", TERM)]),
 ("N05", "Malformed arguments are rejected at construction",
  "Constructors reject gates, placements, parameters and terms whose sizes, ranges or types do not fit together, and accept all that do.",
  "All argument combinations.", "Tests try a few malformed arguments.", [UNI, PRIM, ENT, PUP, PU, COMP], [("assertions in constructors", PRIM)]),
]
for i, t, s, q, w, f, m in NA:
    prop(i, t, s, ["inputs"], q, w, f, m, [])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for d in P:
        fh.write(json.dumps(d, ensure_ascii=False) + "\n")
