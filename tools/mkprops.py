import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs:a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
HASH="poseidon377/src/hash.rs";PERM="poseidon-permutation/src/permutation.rs";R1="poseidon-permutation/src/r1cs.rs";R2="poseidon377/src/r1cs.rs"
p("C01","Native hashes equal the published Poseidon definition for every input",
"For each rate 1 to 7, hashing a domain separator and the rate's input elements natively returns state word 1 of the Poseidon permutation (8 full and 31 partial rounds, S-box x^17, published constants) applied to the words [domain separator, inputs in order]. This holds for every field element in every position, and the call never panics.",
["inputs"],"all (n+1)-tuples of field elements for n = 1..7, including 0, 1, p-1, equal elements, and inputs that drive an internal word to such a value",
"The tests compare a handful of fixed input tuples (one per rate) with stored answers; a deviation on any other input, position or internal value passes.",
[HASH,PERM,"poseidon377/src/lib.rs"],[("hash_n functions","poseidon377/src/hash.rs: hash_1..hash_7"),("optimized permutation","poseidon-permutation/src/permutation.rs: n_to_1_fixed_hash, permute")],
[("state_words","the t state words of one permutation","poseidon-permutation/src/permutation.rs: Instance")],["return value of hash_n","output words of the permutation instance"])
p("C02","Optimized and unoptimized permutations are the same function",
"For every rate's parameters, the optimized and the unoptimized permutation compute the same full output state, all words and not only the hash word, from every input state. The hash each reports is word 1 of that output state.",
["inputs"],"all input states of all seven shipped parameter sets (and any parameter set whose optimized part is derived from its base part)",
"One property test compares only the hash word, only for rate 4, on random inputs; the other rates have one fixed pair of words, and no test reaches special internal values.",
[PERM,"poseidon377/src/params"],[("optimized schedule","permutation.rs: permute, mix_layer_mi, sparse_mat_mul"),("reference schedule","permutation.rs: unoptimized_permute"),("derived constants","poseidon377/src/params/rate_n.rs: optimized_arc, optimized_mds")],
None,["output_words() after either hash"])
p("C03","A hash depends only on its arguments, not on history or concurrency",
"The result of any native hash or permutation call is a function of its parameters and inputs alone: earlier calls (of the same or other rates, on the same or other instances, optimized or not), how many there were, and calls running at the same time on other threads never change it. A reused instance behaves as a fresh one, its output words always show the last call's final state (all zero before the first), and the caller's inputs and parameters are left unchanged.",
["histories","schedules"],"all finite interleavings of create / hash / hash-unoptimized / read-output / hash_n calls on any number of instances and threads",
"Tests make one or two calls per instance, in one fixed order, and never reuse an instance over many calls or share parameters between threads.",
[PERM,HASH,"poseidon377/src/lib.rs"],[("state overwritten by inputs","permutation.rs: n_to_1_fixed_hash copies every word"),("fresh instance per hash","hash.rs")],
[("state_words","state retained between calls","permutation.rs: Instance")],["every return value and output_words() in a history"])
p("C04","The in-circuit hash computes the native value and accepts honest witnesses",
"For each rate, with each operand independently a constant, public input, witness, linear expression or repeated variable, the circuit gadget's output value equals the native hash of the operand values and the resulting constraint system is satisfied. This holds for any number of hashes of any rates composed in one constraint system, including hashing the output of a hash.",
["inputs","programs"],"all operand values, all combinations of allocation modes, and all programs that compose gadgets in one constraint system",
"Tests synthesize one circuit per rate with all operands allocated as witnesses and random values; constants, inputs, expressions, aliases, compositions and special values are never built.",
[R1,R2],[("gadget permutation","poseidon-permutation/src/r1cs.rs: InstanceVar::permute"),("per-rate wiring","poseidon377/src/r1cs.rs: hash_1..hash_7")],
[("state_words","circuit variables of the state","poseidon-permutation/src/r1cs.rs: InstanceVar")],["value() of the returned variable","ConstraintSystem::is_satisfied"])
p("C05","The circuit constraints admit only the correct hash (soundness)",
"Once the operand variables are fixed, the constraints emitted by the gadget determine the output variable uniquely: no assignment of the internal witnesses satisfies every constraint with an output different from the native hash. No constraint is missing, duplicated away or trivially true.",
["inputs","programs"],"all assignments to all internal witness variables, for every rate and allocation mode of the operands",
"Tests only run the honest prover; an under-constrained circuit accepts every honest proof and so passes all of them.",
[R1,R2],[("S-box constraints","r1cs.rs: pow_by_constant in full_sub_words/partial_sub_words"),("linear layers as linear combinations","r1cs.rs: mix_layer_mds")],
None,["constraint matrices and assignments of the constraint system"])
p("C06","Circuit shape depends only on rate and allocation modes",
"The constraint matrices, variable counts and variable order that a gadget call produces depend only on the rate and on how its operands are allocated, never on operand values, and are the same in setup mode (no values) and proving mode. The per-rate matrices stay exactly the permutation's published arithmetization (one S-box costs 5 multiplications, linear layers cost none), so proving and verifying keys made earlier remain valid.",
["inputs","configurations"],"all operand values and both synthesis modes, for every rate and allocation mode",
"Tests set up and prove with the same code in one run, or with one stored key per rate and one random value set; a value-dependent constraint fires only on specific values.",
[R1,R2],[("value-independent synthesis","r1cs.rs: permute and layers"),("stored keys","poseidon-tests: tests/poseidon377_r1cs.rs and its key files")],
None,["ConstraintSystem::to_matrices, counts"])
p("C07","Shipped base parameters equal the documented derivation",
"For each rate 1 to 7 the shipped security level, S-box exponent, round numbers, MDS matrix and round constants are exactly those of the documented derivation: level 128, the first admissible exponent (17), 8 full and 31 partial rounds, the fixed Cauchy matrix, and constants squeezed from the Merlin transcript that binds the instance's parameters. Every one of the roughly 1600 published constants is canonical and in its documented position.",
["configurations","inputs"],"every element of every shipped parameter set, rates 1 to 7",
"Tests check the exponent and round numbers of some sets and a few matrix shapes; no test recomputes the constants, and a consistent change of a constant in both base and optimized sets shows up only as a changed hash for that rate.",
["poseidon377/src/params","poseidon377/src/lib.rs","poseidon-paramgen/src/round_constants.rs","poseidon-paramgen/src/mds.rs","poseidon-paramgen/src/transcript.rs"],
[("generated constants","poseidon377/src/params/rate_1.rs .. rate_7.rs"),("derivation","poseidon-paramgen/src")],None,["public fields of RATE_n_PARAMS"])
p("C08","Shipped optimized parameters are the ones the base parameters imply",
"For each rate the shipped optimized round constants, the initial dense matrix, the sparse-matrix collections and every auxiliary matrix (M-hat and its inverse, v, w, M', M'', the MDS inverse and the corner element) are exactly the values the optimization of the Poseidon paper's Appendix B derives from that rate's shipped MDS matrix and round constants. Fields that hashing never reads are held to this too.",
["configurations"],"every field and element of every shipped optimized parameter set, rates 1 to 7",
"Tests exercise optimized fields only through hash equality on a few inputs, and several fields are never read by any test or by hashing.",
["poseidon377/src/params","poseidon-parameters/src/mds_matrix.rs","poseidon-paramgen/src/mds.rs","poseidon-paramgen/src/round_constants.rs"],
[("optimized constants","poseidon377/src/params/rate_n.rs"),("derivation","poseidon-paramgen/src/mds.rs: generate_optimized; round_constants.rs: generate_optimized")],None,["public fields optimized_arc and optimized_mds of RATE_n_PARAMS"])
p("C09","Each shipped permutation is an MDS-mixed bijection",
"For each rate, every square submatrix of the shipped mixing matrix is nonsingular, the S-box exponent is coprime to p-1, and the permutation is a bijection on states: undoing the published layers from any output state recovers the original input state exactly, and distinct inputs never give equal output states.",
["inputs","configurations"],"all output states and all square submatrices, rates 1 to 7",
"Tests check a few submatrix facts for small dimensions and never invert the permutation; a lossy step (a skipped word, a collapsed branch) needs inputs chosen to hit it.",
[PERM,"poseidon377/src/params","poseidon-parameters/src/mds_matrix.rs"],[("MDS matrix","poseidon377/src/params/rate_n.rs"),("layers","permutation.rs: full_sub_words, mix_layer_mds, sparse_mat_mul")],None,["output_words()","mds field"])
p("C10","All views of a matrix agree after any history of writes",
"After any sequence of element writes, a matrix reports the same content through element access, its flat element list, row iteration, dimensions, equality, clone and transposition, in row-major order, and a write changes exactly one entry and no other copy. The round-constant, optimized round-constant, square and MDS wrappers behave exactly as the matrix they wrap, and constructing from the wrong number of elements is refused.",
["histories"],"all finite histories of set/get/iterate/transpose/clone/compare on every matrix type and shape",
"Tests build matrices once and read a few entries, mostly of square shapes; row/column mix-ups on rectangular shapes or stale views after writes are not exercised.",
["poseidon-parameters/src/matrix.rs","poseidon-parameters/src/arc_matrix.rs","poseidon-parameters/src/mds_matrix.rs","poseidon-parameters/src/matrix_ops.rs"],
[("row-major indexing","matrix.rs: get_element/set_element"),("delegation","arc_matrix.rs, mds_matrix.rs")],[("elements","flat array of entries","matrix.rs: Matrix")],["MatrixOperations methods"])
p("C11","Matrix products, slices and reshapings obey linear algebra for all shapes",
"For all conformable shapes and entries, matrix product, square product, transpose, entrywise product, scalar product, dot product, row extraction, identity and the MDS first-row/first-column/lower-right-block splits return exactly what linear algebra defines. Row extraction works for every row of every matrix.",
["inputs"],"all entries and all shapes accepted by the types (up to 8 rows/columns square, and rectangular round-constant shapes)",
"Tests multiply two or three small fixed matrices; most shapes, rectangular products, scalar products and row extraction are not exercised.",
["poseidon-parameters/src/matrix.rs","poseidon-parameters/src/matrix_ops.rs","poseidon-parameters/src/mds_matrix.rs"],
[("products","matrix.rs: mat_mul, square_mat_mul, Mul<Fq>"),("splits","mds_matrix.rs: v, w, hat"),("row extraction","matrix.rs: row_vector")],None,["returned matrices"])
p("C12","Determinants, minors and inverses are correct and singularity is reported",
"For every square matrix of dimension 1 to 8 (2 to 8 for minors), the determinant, the matrix of minors and the cofactor signs are the mathematical ones; inversion of a nonsingular matrix returns the two-sided inverse. Inverting a singular matrix returns the no-inverse error and never panics or returns a matrix.",
["inputs"],"all square matrices of dimension 1..8, including singular ones, permutation-like and sparse ones, and entries 0, 1, p-1",
"Tests invert a few identity-like or small integer matrices of dimension up to 5 or so; sign errors in larger Laplace expansions or singular special cases are not reached.",
["poseidon-parameters/src/matrix.rs","poseidon-parameters/src/error.rs"],[("Laplace expansion","matrix.rs: determinant, minor_matrix"),("adjugate inverse","matrix.rs: inverse")],None,["SquareMatrixOperations methods"])
p("C13","A generic instance computes exactly what its parameters describe",
"For any user-supplied valid parameter set (any width from 2, even number of full rounds, one or more partial rounds, positive exponent or inverse S-box, arbitrary matrices and constants), the unoptimized permutation computes the Poseidon schedule those base parameters describe, the optimized permutation the schedule the optimized parameters describe, and the circuit version (positive exponents) agrees with the unoptimized one. An inverse S-box maps zero to zero, as Poseidon defines it, so no input makes a native call panic.",
["inputs","configurations"],"all parameter sets of the public parameter type and all input states",
"Tests only ever run the shipped sets; generic code paths (inverse S-box, other widths and round counts, asymmetric matrices) are unexecuted.",
[PERM,R1,"poseidon-parameters/src/v1.rs"],[("generic schedule","permutation.rs: permute, unoptimized_permute"),("S-box selection","permutation.rs: partial_sub_words, full_sub_words")],None,["output_words(), return values"])
p("C14","Results do not depend on feature flags, backend or build profile",
"The shipped parameters and all native hash and permutation results are identical under every supported feature set (default, no default features, std/alloc/no_std, circuit support, alternative field backend) in debug, release, overflow-checked and panic-aborting builds, and (for feature sets without Arkworks or the standard library) on 32-bit targets; and every one of them builds. No configuration panics where another returns a value.",
["configurations","inputs"],"all supported feature combinations and build profiles, all inputs",
"The test run uses a single configuration (all features, one profile); other backends and no_std builds are never executed.",
["poseidon377/Cargo.toml","poseidon377/src/lib.rs","poseidon-permutation/Cargo.toml","poseidon-parameters/Cargo.toml",HASH,PERM],[("feature gates","Cargo.toml files, cfg attributes in lib.rs")],None,["hash results and parameters printed by one program built per configuration"])
p("C15","Parameter generation selects the right S-box exponent for every field",
"For every prime field the generator picks the first odd candidate, in shortest-addition-chain order, that is coprime to p-1; when there is none it picks the inverse S-box if that is allowed and refuses otherwise. The exponent's byte encoding (little-endian, all ones for inverse) and numeric form identify it faithfully.",
["inputs","configurations"],"all prime fields, both settings of the inverse switch, all exponents",
"Its tests name three fields, and the crate is outside the tested workspace, so nothing about it runs in the test suite.",
["poseidon-paramgen/src/alpha.rs","poseidon-parameters/src/alpha.rs"],[("candidate table and scan","poseidon-paramgen/src/alpha.rs: generate"),("encoding","poseidon-parameters/src/alpha.rs: to_bytes_le")],None,["returned Alpha, bytes"])
p("C16","Parameter generation selects minimal-cost round numbers that meet every bound",
"For every security level up to 256, width and field, the generated round numbers are those of the documented search: of all round pairs meeting the statistical, interpolation and Groebner bounds (and, for version 2, the refined Groebner bound), the one of least S-box cost after the security margin of two full rounds and 7.5% partial rounds, ties going to fewer full rounds. Logarithms are those of the exact modulus to double precision. Version 1 refuses levels above 256, and round-number accessors and mutators report and change exactly the count they name.",
["inputs","configurations"],"all (security level, width, field, exponent) inputs",
"The crate is outside the tested workspace; its own tests sample a few table rows, and bound expressions with floors and ceilings go wrong only at specific inputs.",
["poseidon-paramgen/src/rounds.rs","poseidon-paramgen/src/input.rs","poseidon-paramgen/src/utils.rs","poseidon-parameters/src/round_numbers.rs"],[("search","rounds.rs: v1_generate, v2_generate"),("bounds","rounds.rs: is_secure_v1, is_secure_v2")],None,["returned RoundNumbers"])
p("C17","The constant transcript binds every parameter and squeezes as documented",
"Round constants are successive challenges (at least 128 bits longer than the modulus, reduced modulo it) of a Merlin transcript that has absorbed, in order and each in its documented fixed-width encoding, the protocol name, width, security level, modulus, full rounds, partial rounds (each count one byte, so below 256) and exponent. Changing any absorbed value changes the constants, and the same values always give the same ones. The generated constant matrices list those challenges in order, one per word and round (version 2: one per word of a full round, one per partial round), and optimized constants are these with each partial round's constants of the words without S-box moved back through the mixing matrix.",
["inputs","histories"],"all parameter inputs and any number of squeezes",
"The transcript is only exercised by the generator, which is outside the tested workspace, and the shipped constants sample just seven inputs.",
["poseidon-paramgen/src/transcript.rs","poseidon-paramgen/src/round_constants.rs","poseidon-parameters/src/alpha.rs"],[("absorption and squeezing","transcript.rs: domain_sep, round_constant"),("constant matrices","round_constants.rs: v1_generate, v2_generate, generate_optimized")],[("transcript","sponge state","transcript.rs")],["squeezed constants"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
