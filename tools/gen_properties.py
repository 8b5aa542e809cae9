#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Completeness: an honest proof of a true statement is always accepted",
 "Whenever an execution trace satisfies every transition constraint and every boundary constraint of an instance, the prover produces a proof without failing, and a verifier built for the same instance and blow-up factor accepts it. This holds for every number of rows (power of two or not), registers, constraint shape and degree, step distance, constraint range, boundary set, blow-up factor, FRI output size, and number of CPUs.",
 ["inputs","configurations"],"all satisfiable per-register instances with dense constraints and their satisfying traces, all power-of-two blow-up factors, all power-of-two FRI output sizes leaving at least one fold, all CPU counts, fields of different sizes (outside the parameter region of the recorded known finding)",
 "The tests prove two fixed instances (Fibonacci over 4 rows, a VDF over a power of two of rows) with one configuration; they never use a non-power-of-two trace, degree 3, several densities, boundary constraints in the middle of the trace, or FRI outputs above one coefficient.",
 ["src/prover/mod.rs","src/verifier/mod.rs","src/arp/per_register/mod.rs","src/ali/per_register/mod.rs","src/ali/per_register/deep.rs","src/fri/mod.rs","src/fri/fri_on_values.rs","src/fri/query_producer.rs","src/fri/verifier.rs"],
 [("prover pipeline ARP, ALI, DEEP, FRI","Prover::prove"),("verifier recomputing the same quantities at one point","Verifier::verify")],
 ["Verifier::verify result on Prover::prove output"])

p("C02","The prover cannot certify an execution trace that breaks a constraint",
 "If a trace violates any transition constraint at any row where that constraint applies, or any boundary constraint, then whatever the library's prover produces from it (a proof or an error) is never accepted by the verifier of that instance. A single wrong cell anywhere is enough, however small the change.",
 ["inputs","configurations"],"all instances as in C01, all traces differing from a satisfying one in at least one cell that matters (including arbitrary traces), all configurations, over fields large enough that the protocol's error probability is negligible",
 "One test proves one broken Fibonacci trace over a 257-element field; which rows, registers, constraints and boundary conditions are really enforced by the divisors and challenges is not sampled at all.",
 ["src/ali/per_register/mod.rs","src/ali/per_register/deep.rs","src/prover/mod.rs","src/verifier/mod.rs"],
 [("constraint quotients over the divisor of exactly the rows they apply to","ALIInstance::from_arp / calculate_g and Verifier::calculate_g_at_z_from_f_at_z"),("out-of-domain consistency check","Verifier::verify")],
 ["Verifier::verify result on Prover::prove output for a violating trace"])

p("C03","An accepted proof cannot be altered, nor reused for another statement",
 "Take a proof that the verifier accepts and change anything in it: any field element, hash, index, path node, or any list by dropping, adding, duplicating or reordering entries so that it differs: the verifier no longer accepts it. The untouched proof is also not accepted by a verifier for a different statement (another boundary value, row or register, another coefficient, power, step distance, constraint range or constraint set, trace length or register count) or for another blow-up factor.",
 ["inputs","fault_sequences"],"all accepted proofs of C01 over large fields, all single structural or value mutations (and random combinations) of them, all changes of the statement",
 "The tests never modify a proof and never verify a proof against another statement.",
 ["src/verifier/mod.rs","src/fri/verifier.rs","src/iop/blake2s_trivial_iop.rs","src/transcript/mod.rs"],
 [("all prover messages absorbed before the challenges that depend on them","Verifier::verify transcript calls"),("Merkle openings against the committed roots at the challenge index","I::verify_query, natural_index comparisons"),("structural checks on lengths","Verifier::verify, NaiveFriIop::verify_proof_queries")],
 ["Verifier::verify result"],hook="query_from_parts (build an opening with an altered index, value or path)")

p("C04","The verifier answers on every malformed proof: never a panic",
 "Given any proof object at all, however malformed (empty or oversized lists, missing or surplus roots and openings, indices out of range, absurd claimed degrees and sizes, unsorted or truncated openings), verification terminates and returns a negative answer or an error. It never panics, never loops forever, and never returns a positive answer for a malformed proof.",
 ["inputs"],"all structurally arbitrary proof objects, both near-valid (mutations of valid proofs) and far from valid",
 "No test feeds a malformed proof to the verifier.",
 ["src/verifier/mod.rs","src/fri/verifier.rs","src/iop/trivial_coset_combiner.rs","src/domains/mod.rs"],
 [("length and range checks before use","Verifier::verify, NaiveFriIop::verify_proof_queries")],
 ["return or unwinding of Verifier::verify and of the FRI verification entry point"],hook="query_from_parts")

p("C05","A cheating prover that skips any one obligation is rejected",
 "The verifier rejects every proof built by a prover that performs all other steps honestly but violates one obligation of the protocol: opening a value that is not the committed one or at another position than the challenge, claiming out-of-domain values that are not those of the committed registers or choosing them after the challenges, using quotients of other functions, a composition polynomial that does not equal the combined constraints, FRI layers, roots, degrees or final polynomials unrelated to the committed quotients, committing to another number of registers than the statement has, or choosing the public boundary values only after the challenges are known. None of these yields acceptance even when the forged parts are internally consistent and correctly hashed.",
 ["inputs","histories"],"all instances over large fields, all false statements or traces, all listed cheating strategies and their positions (register, mask, layer, round, degree)",
 "Tests only ever use the honest prover, so the individual checks of the verifier could each be removed with no test noticing.",
 ["src/verifier/mod.rs","src/fri/verifier.rs","src/transcript/mod.rs","src/iop/blake2s_trivial_iop.rs"],
 [("each check in the verifier","Verifier::verify, simulate_h1_from_f_at_z, simulate_h2_from_g_at_z, calculate_g_at_z_from_f_at_z"),("FRI checks","NaiveFriIop::verify_proof_queries"),("challenge derivation order","Verifier::verify")],
 ["Verifier::verify result on forged proofs"],hook="query_from_parts")

p("C06","FRI completeness: every low-degree polynomial passes at every position",
 "For every polynomial of degree below the bound, blow-up factor, output size leaving at least one fold, and query position inside the evaluation domain but outside its half-size subdomain, the FRI prover (working on values or through coefficients, which agree with each other) produces a proof that the FRI verifier accepts for the true value at that position. Each layer it commits is exactly the random even/odd fold of the previous layer by the challenge derived from that layer's root, and the final coefficients are those of the last layer.",
 ["inputs","configurations"],"all coefficient vectors, sizes, blow-up factors, output sizes, positions, worker sizes",
 "Three tests use one 4- to 16-coefficient polynomial, and the only end-to-end one checks one output size; output sizes above one were never verified through queries.",
 ["src/fri/mod.rs","src/fri/fri_on_values.rs","src/fri/query_producer.rs","src/fri/verifier.rs"],
 [("fold of values","NaiveFriIop::proof_from_lde_by_values"),("fold of coefficients","NaiveFriIop::proof_from_lde_through_coefficients"),("layer walk","verify_prototype, verify_proof_queries, produce_proof")],
 ["prototype contents, verify_prototype and verify_proof results"])

p("C07","FRI soundness: inconsistent or high-degree data is rejected",
 "The FRI verifier accepts a proof only if the opened values authenticate against their roots at exactly the coset of the queried position, the first layer's value equals the expected one, every layer is the fold of the previous one under the challenge from its root, and the final coefficients evaluate to the last folded value. Hence a proof for a function of too high degree, a wrong expected value, a different position, or any altered root, opening, coefficient or parameter is rejected, and the verdict agrees with an independently written verifier on every proof.",
 ["inputs","fault_sequences"],"all honest FRI proofs with every kind of single or combined mutation, high-degree inputs, self-consistent forged layers, over large fields",
 "No test gives the FRI verifier a wrong proof.",
 ["src/fri/verifier.rs","src/iop/blake2s_trivial_iop.rs"],
 [("per-round checks","NaiveFriIop::verify_proof_queries"),("prototype checks","NaiveFriIop::verify_prototype")],
 ["verify_proof result"],hook="query_from_parts")

p("C08","Every Fourier transform computes the exact discrete Fourier transform",
 "Every forward transform (serial, parallel, radix-4, decimation-in-time with zero-tail pruning, and the polynomial-level plain and coset variants) returns exactly the evaluations of the input coefficients at the successive powers of the root (times the coset shift), in natural order, and every inverse transform undoes it exactly. This holds for every supported size, input, root, field, and number of worker threads.",
 ["inputs","configurations"],"all vectors, all sizes from 1 up, all worker sizes (including non powers of two and more workers than elements), all fields",
 "Tests compare the kernels with each other at one or two large sizes and the machine's CPU count; small sizes, odd thread counts, pruned tails and correctness against the definition are not covered.",
 ["src/fft/fft.rs","src/fft/mod.rs","src/fft/radix4_fft/mod.rs","src/fft/dit_fft/mod.rs","src/polynomials/mod.rs"],
 [("butterflies and parallel splitting","serial_fft, parallel_fft and the radix-4 and DIT kernels"),("coset shift and scaling","Polynomial::fft, coset_fft, ifft, icoset_fft")],
 ["output vectors"],hook="crate-private kernels and worker constructor")

p("C09","Low-degree extension equals evaluation over the larger domain",
 "Every low-degree extension of a polynomial by a factor, by whichever algorithm (zero padding, zero-skipping transforms, or multiple cosets, plain or shifted by the multiplicative generator), equals the evaluations of that polynomial over the domain that is larger by this factor, in natural order. The result does not depend on the algorithm, the worker count, or trailing zero coefficients.",
 ["inputs","configurations"],"all coefficient vectors, sizes, power-of-two factors, worker counts, fields (the multi-coset algorithm's recorded wrong region is identified exactly)",
 "Tests compare two variants at one size and factor with the machine's CPU count, and two of them fail; other shapes and thread counts are untested.",
 ["src/polynomials/mod.rs","src/fft/lde.rs","src/fft/mod.rs"],
 [("multi-coset extension","lde_using_multiple_cosets and its coset variant"),("zero-skipping kernels","serial_lde, parallel_lde, best_lde")],
 ["output values, sizes and domain data of the result"],hook="crate-private kernels and worker constructor")

p("C10","Polynomial operations compute the algebraic result",
 "Addition, subtraction, scaled addition, scaling, negation, powers, products of values, adding a constant, evaluation at a point or of a degree-one polynomial over a domain, construction from roots, padding and trimming each return exactly the mathematically defined result, for every size and worker count, and keep the polynomial's size and domain data consistent with its length. Batch inversion returns the inverse of every entry, or reports an error and leaves the values unchanged when some entry is zero.",
 ["inputs","configurations"],"all operands, sizes, scalars, worker counts, fields, positions of zero entries",
 "Polynomial arithmetic is only exercised indirectly by the pipeline tests on a handful of values.",
 ["src/polynomials/mod.rs"],
 [("chunked elementwise loops","Polynomial methods"),("Montgomery batch inversion","Polynomial::batch_inversion"),("recursive product tree","Polynomial::from_roots")],
 ["result coefficients/values, size, omega, exponent"],hook="worker constructor")

p("C11","Merkle commitments: openings verify exactly for the committed leaf",
 "For every power-of-two leaf vector the opening produced for any position verifies against the root, returns the committed value at that position, and the root equals the keyed hash tree over the encoded leaves. No opening verifies for a different value, a different position (including positions beyond the tree), a path altered, shortened or extended, or another root, and the same leaves give the same root with any number of worker threads.",
 ["inputs","configurations"],"all leaf vectors of power-of-two length at least two, all positions, all mutations of an opening, all fields, CPU counts",
 "Tests check a few openings of small trees at the machine's CPU count; nothing checks that wrong openings fail.",
 ["src/iop/blake2s_trivial_iop.rs","src/iop/trivial_coset_combiner.rs"],
 [("tree construction","Blake2sIopTree::create"),("path extraction and verification","get_path, verify")],
 ["root, query contents, verify result"],hook="query_from_parts")

p("C12","Transcript challenges are reproducible, bound to the history, in field",
 "Two transcripts with the same history of commitments and challenge requests give the same challenges, and changing, dropping, adding or reordering any committed content changes every later challenge, as does having drawn a different number of challenges before. Every challenge, and every challenge derived from a tree root, is a valid field element: the leading bytes of the digest, as many as a field element occupies, read as a big-endian number of which the field's capacity bits are kept, for every field of fewer than 256 bits. Successive challenges over large fields differ.",
 ["histories","inputs"],"all operation histories, all supported field sizes from a few bits to 255 bits including multiples of 64 and one above, all digests",
 "No test exercises the transcript beyond the fixed pipelines; fields of 64k or 64k+1 bits are never used.",
 ["src/transcript/mod.rs","src/iop/blake2s_trivial_iop.rs"],
 [("hash chaining","Blake2sTranscript commit/get_challenge"),("bit shaving","get_challenge, HashEncoder::interpret_hash")],
 ["challenge bytes and elements"])

p("C13","The trace checker agrees with the meaning of the constraints",
 "Checking a trace against an instance succeeds exactly when every transition constraint evaluates to zero at every row from its start row up to the last row that leaves room for its span, and every boundary constraint with a value holds. Otherwise it reports an error, for every trace, constraint shape and row range.",
 ["inputs"],"all instances with dense constraints, all traces (satisfying, broken in one cell inside or outside the constrained rows, arbitrary)",
 "Tests call the checker on one or two satisfying traces.",
 ["src/arp/per_register/mod.rs","src/arp/density_query.rs"],
 [("row iteration","DenseConstraintQuery"),("constraint evaluation on rows","ARPInstance::verify_witness")],
 ["Ok/Err of is_satisfied"])

p("C14","Witness polynomials interpolate the execution trace",
 "For every trace, the polynomial computed for a register has degree below the number of rows rounded up to a power of two and takes the trace's value at each row's domain point (and zero at the padding points), for every number of rows, registers and CPUs. A trace whose shape does not match the instance is refused with an error.",
 ["inputs","configurations"],"all traces of any number of rows and registers, all worker sizes, fields",
 "Tests use power-of-two traces with one or two registers.",
 ["src/arp/per_register/mod.rs"],
 [("inverse transform per register","make_witness_polymonials"),("shape checks","calculate_witness_polys")],
 ["returned polynomials / error"],hook="worker constructor")

p("C15","The composition polynomial is the stated combination of all constraints",
 "For every instance and satisfying trace, the composition polynomial equals the sum over all transition and boundary constraints of the constraint applied to the shifted register polynomials, divided by the vanishing polynomial of exactly the rows where it applies, and weighted by its own pair of transcript challenges so as to raise its degree to the common maximum. It is an exact polynomial of degree below the constraint domain size, and its value at any outside point is what the verifier derives from register values at that point.",
 ["inputs","configurations"],"all instances and satisfying traces, all challenge histories, all worker sizes, large and small fields; random points outside the domains",
 "Tests compute it for one Fibonacci instance and only check a degree.",
 ["src/ali/per_register/mod.rs","src/ali/mod.rs"],
 [("divisors","ALIInstance::from_arp"),("term evaluation and caching","ALIInstance::calculate_g"),("degree adjustment","calculate_adjustment_polynomial_in_coset")],
 ["coefficients of the composition polynomial"],hook="worker constructor")

p("C16","DEEP quotients and out-of-domain values are the exact quotients",
 "The out-of-domain values reported are the evaluations of each register polynomial at the masked challenge point in mask order, the first quotient is the challenge-weighted sum over masks of (register minus its out-of-domain value) over (x minus the masked point), and the second is (composition minus its out-of-domain value) over (x minus the point), each at every point of its domain in natural order. Both are evaluations of polynomials of degree below the respective domain size divided by the blow-up factor.",
 ["inputs","configurations"],"all instances, register polynomials (satisfying or not), transcripts, blow-up factors, worker sizes",
 "One test computes the quotients for one instance and checks only a degree.",
 ["src/ali/per_register/deep.rs","src/ali/mod.rs"],
 [("quotients","ALIInstance::calculate_deep")],
 ["the two value vectors and out-of-domain values"],hook="worker constructor")

p("C17","Evaluation domains, index maps and query positions are well formed",
 "A domain requested for a size has the next power of two as its size, a generator of exactly that order consistent with every other size, and sizes beyond the field's two-adicity (or beyond what fits the machine word) are refused with an error. The coset and next-domain maps pair x with minus x and send a position to the position of x squared, precomputed tables are exactly the powers, coset-shifted powers and inverse powers of the generator, and the position derived from challenge bytes is always in range, odd, and a fixed function of the last eight bytes.",
 ["inputs"],"all sizes up to and beyond the limit for every field, all indices, all challenge bytes, all table sizes and worker counts",
 "Tests touch two or three sizes of one field.",
 ["src/domains/mod.rs","src/precomputations/mod.rs","src/iop/trivial_coset_combiner.rs","src/verifier/mod.rs"],
 [("domain construction","Domain::new_for_size"),("index maps","index_and_size_for_next_domain, get_coset_for_natural_index"),("position derivation","Verifier::bytes_to_challenge_index"),("tables","PrecomputedOmegas::new_for_domain")],
 ["returned values"],hook="worker constructor")

p("C18","Building constraints from terms preserves value and degree",
 "Any sequence of building operations (turning registers into terms, setting step distance and powers, multiplying terms by scalars and by other terms, adding and subtracting terms and constants) yields a constraint whose value on every trace equals the polynomial expression that was written. Its recorded degree is the maximum total degree of the terms that were added, so that no constraint is ever under-reported.",
 ["histories","inputs"],"all finite sequences of building operations, all traces",
 "Tests build two or three fixed constraints and never evaluate them against the written expression.",
 ["src/air/constraint.rs"],
 [("operator implementations","AddAssign, SubAssign, MulAssign and From on terms and constraints")],
 ["fields of the constraint; its evaluation on traces"])

p("C19","Results do not depend on the number of CPUs or on scheduling",
 "Every computation of the library (commitments, transforms, composition polynomial, quotients, FRI, whole proofs) yields bit-identical results for any number of CPUs and on repetition with the same inputs. Work handed to a worker pool is split so that every element is processed exactly once, whatever the number of elements and workers.",
 ["schedules","configurations","inputs"],"all CPU counts from 1 up to more than the number of elements, repeated runs, all instances and configurations outside the recorded known finding",
 "Tests run at one CPU count; the project's own notes say some tests give other results with other counts.",
 ["src/fft/multicore.rs","src/prover/mod.rs","src/polynomials/mod.rs","src/utils/poly.rs"],
 [("chunk partition","Worker::get_chunk_size, get_num_spawned_threads, scope"),("per-chunk start powers","users of Worker::scope")],
 ["serialised results at different CPU counts"],hook="worker constructor")

p("C20","Interpolation and coefficient utilities are exact",
 "Interpolating any set of at least two points with distinct abscissae returns the unique polynomial of degree below the number of points through all of them. Evaluation at consecutive powers returns the sum of coefficients times first power times successive powers of the base, and scaling and scaled addition of coefficient slices act elementwise, for every length and CPU count.",
 ["inputs","configurations"],"all point sets, coefficient vectors, scalars (including zero), CPU counts, fields",
 "One or two fixed interpolations are the only coverage.",
 ["src/utils/poly.rs","src/utils/mod.rs"],
 [("Lagrange interpolation","interpolate"),("chunked evaluation","evaluate_at_consequitive_powers"),("chunked slices","mul_polynomial_by_scalar, mul_add_polynomials")],
 ["returned coefficients and values"])

p("C21","The example VDF and Fibonacci circuits match the native computation",
 "For every start value, number of operations and requested step, the witness and instance generated by the bundled example computations (square-root VDF, cubic VDF, Fibonacci) satisfy each other, the trace follows the native recurrence row by row, and the boundary constraints pin exactly the claimed inputs and outputs. Any trace deviating from the native computation in a constrained cell, or a claimed output differing from the native one, is rejected by the trace checker.",
 ["inputs"],"all start values, all numbers of operations and steps, all single-cell deviations",
 "Each example is tested on one start value and one length.",
 ["src/experiments/vdf.rs","src/experiments/cubic_vdf.rs","src/air/test_trace_system.rs","src/arp/mod.rs"],
 [("witness generation and constraint definition","into_arp of VDF, CubicVDF and the trace system")],
 ["witness columns, instance, is_satisfied"],hook="experiments are a private module")

p("C22","The quadratic extension field used by the VDF obeys the field laws",
 "Addition, subtraction, multiplication, squaring, doubling, negation, inversion, powers and conjugation in the quadratic extension agree with arithmetic modulo the irreducible polynomial for all elements, the norm is the product of an element and its conjugate, and every non-zero element times its inverse is one. The quadratic character tells squares from non-squares, and a square root returned for an element squares to it and is returned for exactly the squares.",
 ["inputs"],"all elements, including zero, one, base-field and purely imaginary elements, and squares and non-squares",
 "One test squares and takes the root of one value.",
 ["src/experiments/square_root_calculator/fp2.rs"],
 [("extension arithmetic","Fq2 Field implementation"),("square root and character","SqrtField for Fq2")],
 ["results of operations"],hook="experiments are a private module")

p("C23","Hash wrappers match the standard functions however data is split",
 "The Keccak-256 and SHA-256 wrappers return the standard digest of the personalisation followed by all data since creation, however the data is split across updates, and after finishing they start again from the empty state. Different inputs or personalisation give different digests.",
 ["inputs","histories"],"all byte strings, personalisations and splits; all sequences of update, finish and clone",
 "No test covers them.",
 ["src/utils/mod.rs"],
 [("state handling","Keccak256Hasher, Sha256Hasher")],
 ["digests against an independent implementation"])

p("C24","Structured (tensor) queries equal the expanded product",
 "Querying one entry of a block-structured matrix (a block repeated along the diagonal, or scaled by the entries of a diagonal matrix) or of a product of two vectors from its factors returns exactly the entry of the explicitly expanded product, for every shape and position. Decomposing the generator of an extended domain yields generators of exactly the two factor sizes, and every point of the extended domain is the product of a power of the first shift below the extension factor, a power of the second shift below the second extension factor, and a power of the second generator, in exactly one way.",
 ["inputs"],"all matrices and vectors of any shape, all positions, all factorisations of domain sizes and extension factors",
 "Tests query a 2x2 block and one vector; the remaining test of this module fails on an out-of-range index of its own.",
 ["src/experiments/tensor_lde.rs"],
 [("queries","query_tensor_decomposition_element_* functions"),("generator decomposition","decompose_lde_generator_for_vector_over_vector")],
 ["returned values"],hook="experiments are a private module")

p("C25","A trace system's registers of every kind keep their meaning in its instance",
 "Registers allocated in a trace system (plain, auxiliary, constant) are all different, steps add up, and reading a register gives the stored value exactly for the rows that exist. The instance made from it has one column per register of any kind and one row per step and one more, every constraint evaluates at every row to the value it had over the original registers, every boundary constraint concerns the same column, row and value, and so a trace satisfying the system's constraints satisfies the instance and can be proved.",
 ["inputs","histories"],"all sequences of allocations, steps, constraints and boundary constraints over registers of all kinds, all column contents",
 "Only systems of two plain registers are tested.",
 ["src/air/test_trace_system.rs","src/arp/mod.rs"],
 [("flattening of the register kinds","IntoARP for TestTraceSystem: remap_register"),("register and step bookkeeping","TraceSystem for TestTraceSystem")],
 ["instance and witness from into_arp, get_register, is_satisfied, proofs"],hook="the trace system cannot be created outside the crate")

p("C26","Proofs open the witness only outside of the trace domain",
 "For every instance, trace and blow-up factor of at least two, no opening in a proof made by the prover lies in the original domain: every register opening and first-layer opening of the first quotient is at a position outside of the trace domain, every opening of the composition and first-layer opening of the second quotient is outside of the constraints domain, and the out-of-domain point is in neither. All of these positions and points are those determined by the transcript, the values opened there are those of the register polynomials, and so no cell of the trace is opened.",
 ["inputs","configurations"],"all instances and traces (satisfying or not), all blow-up factors of two and more, all FRI output sizes, all CPU counts, large fields",
 "No test looks at the positions a proof opens; the documentation promises privacy by never querying the original domain.",
 ["src/prover/mod.rs","src/verifier/mod.rs","src/ali/per_register/deep.rs","src/fri/query_producer.rs"],
 [("position derivation","bytes_to_challenge_index, called by Prover::prove and Verifier::verify"),("coset of a position","FRIProofPrototype::produce_proof")],
 ["indices and values of the openings of Prover::prove output"])

p("C27","Provers and verifiers keep no memory between calls",
 "One prover object and one verifier object, used for any sequence of proofs (of satisfying, violating and wrongly shaped traces) and verifications (of valid, altered and foreign proofs, also from several threads at the same time), give in every step exactly the proof, refusal or verdict that a newly made object gives. In particular a valid proof is accepted after any number of rejected ones, and a rejected one stays rejected.",
 ["histories","schedules","inputs"],"all histories of proofs and verifications over two instances (of different or of the same shape) and their provers and verifiers, large fields",
 "Tests use every prover and verifier once.",
 ["src/prover/mod.rs","src/verifier/mod.rs","src/arp/per_register/mod.rs","src/ali/per_register/mod.rs"],
 [("state of the objects","Prover, Verifier and the ARP and ALI instances and precomputations within them")],
 ["proofs and verdicts step by step against those of new objects"],hook="query_from_parts")


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
