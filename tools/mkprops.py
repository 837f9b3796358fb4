#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique="", hook=None, state=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, technique, level_note))
    if na:
        NA[id] = na


TABLES = "table sizes overridable (QDD_VERIF_TABLES)"
DD = ["src/dd.cpp", "include/dd.h"]
REAL = "explicit-state model checking on the real code: "

prop("C01", "Every gate constructor yields exactly the operator it names",
     "For every register width, every choice and order of target qubits and every set of positive and negative controls, a constructed gate is the named unitary on exactly those targets, applied only where the controls match and the identity on every other qubit. This covers the named one-qubit matrices, all rotation and swap-type gates, arbitrary one-, two- and k-qubit matrices, and leaves the caller's matrix unchanged.",
     ["inputs", "configurations"], "all registers up to 6 (thorough 7) qubits x all ordered target choices x all control subsets and signs x all constructors x an angle grid",
     "The tests build a few gates on fixed qubits; ordering of targets versus controls versus skipped levels is combinatorial.",
     DD + ["include/common.h"], [("makeGate / makeTwoQubitGate / makeLargeGate", "src/dd.cpp"), ("RX..CSWAP helpers", "src/dd.cpp"), ("identity stripping", "src/dd.cpp makeMEdge")],
     ["matrix read back from the diagram"], "exhaustive over the stated registers, targets, controls and constructors, against dense textbook matrices",
     REAL + "exhaustive enumeration of gate placements, oracle = dense reference", TABLES)

prop("C02", "Diagram algebra agrees with linear algebra",
     "Products, sums and tensor products of the state vectors and operators that the library builds equal the corresponding dense linear-algebra results within floating-point accuracy, for every sequence of such operations, including zero, identity and scalar operands. Operands are never changed by an operation.",
     ["programs", "inputs"], "all operation sequences up to depth 3-4 over 1..4 qubits, then every pair of reached operands (tensor products of operators: right operand reaching the top of its register)",
     "The tests multiply a handful of fixed gates; errors in the treatment of skipped levels, shared nodes or cached products need particular operand pairs.",
     DD + ["include/cache.hpp", "include/table.hpp"], [("mv_multiply, mm_multiply, vv_add, mm_add, *_kronecker", "src/dd.cpp"), ("operation caches", "include/cache.hpp"), ("unique tables", "include/table.hpp")],
     ["dense read-back of every result"], "bounded by depth and by a cap on the number of operands kept (stated in the evidence)",
     REAL + "breadth-first closure of operation sequences, oracle = dense algebra", TABLES)

prop("C03", "Equal states share one minimal diagram; structured states stay linear",
     "Whenever amplitudes are exactly representable multiples of each other, equal vectors and equal operators have the same diagram of minimal size, however and in whatever order they were computed and also after garbage collections. Basis, product, uniform, GHZ and linear-cluster states and the matching operators need diagrams, and time to build them, that grow only linearly with the width up to 100 qubits.",
     ["programs", "histories"], "closure of monomial gates and Hadamard layers on 1..4 qubits, recomputed after 3 collections; structured families at every width 1..100 in several gate orders",
     "Tests check values, not sharing; loss of canonicity or of cached work leaves results right and only makes larger inputs infeasible.",
     DD + ["include/table.hpp", "include/cache.hpp"], [("normalisation", "src/dd.cpp normalizeM/normalizeV"), ("unique table", "include/table.hpp"), ("operation caches", "include/cache.hpp"), ("identity stripping", "src/dd.cpp makeMEdge")],
     ["node identity and node counts of results"], "exact minimality on small registers; linear bounds on structured families up to 100 qubits (time: one CPU minute per width sweep)",
     REAL + "breadth-first closure of gate sequences with a canonical-form oracle", TABLES)

prop("C04", "Garbage collection never changes what surviving states mean",
     "However collections of vectors and of operators are interleaved with gate applications, sums, products and measurements, every vector and operator handed to the collection keeps its value, the results come back in the order given (zero, scalar and repeated entries included), and later operations and measurements on them are correct. Below its threshold an unforced collection changes nothing.",
     ["histories"], "all sequences of 4 (thorough 5) operations out of 21 on 1..3 qubits, with collections of every argument shape at any point",
     "The tests call collection in one or two fixed places; stale caches, freed nodes still referenced or wrongly mapped results need particular interleavings.",
     DD + ["include/table.hpp", "include/cache.hpp"], [("gc / gc_mat / set_gc_thr", "src/dd.cpp"), ("cache invalidation", "include/cache.hpp clearAll"), ("probability memo", "src/dd.cpp probs")],
     ["dense read-back of all survivors after every step"], "every sequence up to the depth; address-sanitized build at a smaller depth",
     REAL + "exhaustive enumeration of operation sequences", TABLES)

prop("C05", "Results do not depend on what was computed before",
     "A computation gives the same answer in a fresh process as after any other computations, on other register widths included, and nothing computed earlier changes; this holds however small or colliding the internal tables and caches are.",
     ["histories", "configurations"], "all sequences of 4 (thorough 5) workloads out of 14, with tables of 1, 2, 5 and 8192 buckets and initial pools of 1..16 entries",
     "Each test runs on a process's nearly empty tables; bucket chains, pool growth, slot reuse and cache collisions appear only under particular histories.",
     ["include/table.hpp", "include/cache.hpp", "src/dd.cpp"], [("bucket chains and pools", "include/table.hpp"), ("cache entries compared against full operands", "include/cache.hpp")],
     ["dense read-back of every result, twice"], "every history of the stated length for each table configuration",
     REAL + "exhaustive enumeration of workload histories under tiny tables", TABLES)

prop("C06", "Measuring all qubits follows the Born rule exactly",
     "For every reachable state, measuring all qubits returns each bit string with exactly its Born probability (as a function of the random source), never an impossible one, as one character per qubit with the highest qubit first; the reported probability vector is the Born distribution. Without collapse the state stays as it was; with collapse it becomes the basis state of the returned string.",
     ["inputs", "programs"], "all states reached by gate sequences up to a depth on 1..4 qubits x all values of all random draws (partitioned exactly)",
     "Sampling tests have statistical slack of percents and check a few states.",
     DD, [("measureAll", "src/dd.cpp"), ("probabilities / assignProbabilities", "src/dd.cpp")], ["outcome as a function of the scripted random draws"],
     "exact up to the bisection precision 2^-26 of each draw", REAL + "every random draw is an explored choice; outcome distribution computed exactly", TABLES)

prop("C07", "Single-qubit measurement: right probability, right collapse",
     "Measuring one qubit gives 0 or 1 with the Born probabilities, leaves the normalised projection of the state onto the outcome, and measuring it again repeats the outcome; asking only for the probability changes nothing. A state whose norm is off is refused with an error rather than measured.",
     ["histories", "inputs"], "all histories of 3 (thorough 4) measurements on any qubits with a gate in between, from all states reached on 1..4 qubits, all random draws partitioned",
     "The tests measure a few fixed states once.",
     DD, [("measureOneCollapsing / measureOne", "src/dd.cpp"), ("determineMeasurementProbabilities", "src/dd.cpp")], ["outcome per draw and dense post-measurement state"],
     "every history up to the bound", REAL + "exhaustive enumeration of measurement histories with all random branches", TABLES)

prop("C08", "Wide registers behave like small ones",
     "At every width from 1 to 100 qubits, gates, sums, merged operators and measurements act on exactly the qubits named, wherever these lie in the register, while the others keep their state: amplitudes, norm, single-qubit probabilities and complete measured bit strings are right even when individual amplitudes are as small as 2^-50.",
     ["inputs", "configurations"], "every width 1..100 x 4 placements of 3 active qubits x 3 backgrounds x all sequences of 2 (thorough 4) out of 10 operations",
     "The tests use narrow registers; underflow, level arithmetic and table sizing fail only near the top of the supported range.",
     DD + ["include/common.h", "include/table.hpp"], [("root weights kept out of tolerance comparisons", "src/dd.cpp mv_multiply, mm_multiply, vv_add, mm_add"), ("NQUBITS", "include/common.h")],
     ["amplitudes along diagram paths, measured strings"], "every width; shipped table sizes at every 11th width (thorough every 3rd)",
     REAL + "exhaustive enumeration of widths, placements and operation sequences", TABLES)

BK = ["qdd/qdd_backend.py", "qdd/bindings.cpp", "src/dd.cpp"]
exec(open(os.path.join(V, "tools", "props_py.inc")).read()) if os.path.exists(os.path.join(V, "tools", "props_py.inc")) else None

with open(V + "/properties.jsonl", "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, tech, note in P:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"], "technique": tech,
                       "level": "model_checking", "level_note": note})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup",
     "hooks": {"guard": "QDD_VERIF_TABLES", "enable": "the explorers compile /repo's sources with -DQDD_VERIF_TABLES and the table sizes they need (tools/mc.py)", "source_commits": hook},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
