"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C01": ("TLA+ specification, trace validation with TLC", "model_checking", "Judged values: recorded hashes against the published schedule, with constants the specification derives, on inputs that reach every layer and word with boundary values. Beyond values: the recorded program of each rate's call is shown by TLC to mean the published schedule for every input, where the code takes no look at its data (all seven rates on this tree); looks, where there are any, are turned by solved inputs. Trusts TLC, the Java overrides (self-tested) and decaf377."),
 "C02": ("TLA+ specification, trace validation with TLC", "model_checking", "Full output states of both schedules on generated inputs that reach every layer and word with boundary values; recorded programs of both calls compared for every input, looks turned."),
 "C03": ("TLA+ specification of call histories, behaviours generated by TLC replayed into the code, recorded histories validated by TLC", "model_checking", "Histories of bounded length over several objects and threads, including the looks a call takes after earlier calls; every result must be what the history-free specification gives. Free-running threads (some four million calls) and 28 000 chosen interleavings of two and three calls at every field operation, each in a fresh process; windows without a field operation are met by repetition only."),
 "C04": ("TLA+ specification of circuit programs, recorded syntheses validated with TLC", "model_checking", "Programs over all rates, allocation modes and compositions, with values reaching special internal states; for the recorded shapes of syntheses without looks, satisfaction and output shown for every operand value."),
 "C05": ("TLA+ determinism machine over the recorded constraint systems", "model_checking", "For each recorded constraint system: every hash output is determined by the operands for all assignments, and its symbolic meaning is the published hash, or a disagreement is shown at evaluated operand values. Bounded by the set of program shapes and by operand values where synthesis looks at them."),
 "C06": ("TLA+ specification of the emitted constraint system, exact comparison with TLC", "model_checking", "Every recorded circuit's matrices equal those the specification emits, in setup and proving mode and for many operand values."),
 "C07": ("TLA+ specification of the parameter derivation (Merlin transcript, Keccak, Cauchy), recorded constants validated with TLC", "model_checking", "Complete: every published constant of all seven rates."),
 "C08": ("TLA+ specification, symbolic schedule equivalence checked with TLC", "model_checking", "Complete for all inputs: the optimized schedule is symbolically equal to the reference schedule for all seven rates."),
 "C09": ("TLA+ specification, minors of the dumped matrices, recorded operations undone and inverse behaviours checked with TLC", "model_checking", "MDS is complete (all square submatrices); bijection for every input by undoing the recorded operations of both permutations, plus replay of inverse behaviours where the code looks at its data."),
 "C10": ("TLA+ machine of matrix objects, generated histories replayed into the code and validated with TLC", "model_checking", "Every element, row, column and view of every shape in range after histories of sets and updates; shapes listed in the harness."),
 "C11": ("TLA+ specification of matrix algebra, trace validation with TLC", "model_checking", "Products, sums, transposes, splits and Hadamard products of recorded operands against the definitions over many shapes and special patterns; where an operation takes no look at its entries, agreement on random entries settles all values up to the recorded degree over 2^250."),
 "C12": ("TLA+ specification of determinant, minors, cofactors and inverse, trace validation with TLC", "model_checking", "All {0,1,-1} matrices up to size 2 (3 in thorough) and generated matrices with every rank deficiency and pivot pattern up to size 8; open entries for looks (only the comparison with zero in inverse on this tree) and degrees; the reference determinant is checked against Leibniz and Laplace definitions by TLC."),
 "C13": ("TLA+ specification of instances over arbitrary parameters, generated parameter sets replayed into the code, validated with TLC", "model_checking", "26 instance shapes with matrices, constants and exponents no shipped instance has, inputs reaching zero in front of every S-box; native schedules and circuit against the specification's schedules; several live instances, twins and reused memory; recorded programs compared for every input; looks with all parameters open."),
 "C14": ("TLA+ model of cargo feature resolution, configurations generated by TLC, recordings compared configuration by configuration with TLC", "model_checking", "Every effective feature set of the three library crates and the field crate and every pair of settings with the kinds of build (debug, release, overflow-checked and aborting, 32-bit); the same dumped constants and the same hashes (optimized and not) on inputs reaching every layer; recorded programs of each configuration compared with the default's for every input."),
 "C15": ("TLA+ specification of the exponent choice, trace validation with TLC", "model_checking", "112 prime fields that between them reach every candidate and none, both switches; encodings of some 400 exponents."),
 "C16": ("TLA+ specification of the bounds in exact integer form and of the search, trace validation with TLC", "model_checking", "About 7500 inputs: sweeps of size, width and level, boundary levels of the statistical bound, random inputs, for both versions; the specification reproduces the paper's Appendix G tables (ParamGenMC)."),
 "C17": ("TLA+ state machine of the Merlin transcript, recorded histories validated with TLC", "model_checking", "Histories over several transcripts: every absorbed parameter varied alone, all fields, squeezing in pieces, copies, repeated separation, random walks. Constant matrices (module built against a stand-in for the removed matrix interface): both versions over many shapes and fields, optimized constants over special constants and unsymmetric matrices."),
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "technique": T[i][0], "level": T[i][1], "level_note": T[i][2]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
