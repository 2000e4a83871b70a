"""Properties (source of properties.jsonl and MANIFEST.json)."""
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, level="model_checking", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, level=level, claimed=claimed, reason=reason))

prop("C01", "Honest polynomial-commitment proofs verify and report the true evaluations",
     "For every supported parameter set, every batch of coefficient vectors no longer than the rank and every evaluation point, the proof produced by an honest prover is accepted by the verifier built from the same parameters and CRS. The evaluations it reports equal the polynomials' values at the point.",
     ["inputs", "configurations"],
     "every coefficient vector of every length 0..Rank(), every batch size, every evaluation point, every field whose modulus has the supported shape",
     "The suite proves one random batch per field at one size; short, empty, single-row and row-boundary vectors, extreme coefficients and unusual layouts are not sampled.",
     ["jindo/prover.go", "jindo/verifier.go", "jindo/encoder.go", "jindo/params.go"],
     [("coefficient layout into rows/slots", "jindo/encoder.go"), ("commit / evaluate", "jindo/prover.go"), ("verification equations", "jindo/verifier.go")],
     "bounded-exhaustive enumeration of (field, size, batch, boundary length, coefficient pattern, point) on the real code against an independent big-integer evaluation",
     "every execution within the stated bounds is run on the implementation; values are drawn from a finite alphabet of patterns")

prop("C02", "Any altered commitment, evaluation or opening proof is rejected",
     "A proof that the verifier accepts stops being accepted when the evaluation point, any claimed evaluation, any component of a commitment or any component of the opening proof is replaced by a different one. Components that only enter an approximate relation are rejected for every change that is not itself short.",
     ["inputs", "fault_sequences"],
     "every single component of the statement and proof, and every position class inside it, under every alteration of a finite alphabet (also structural ones: missing, duplicated, reordered)",
     "The suite contains no rejecting test for the commitment scheme.",
     ["jindo/verifier.go", "jindo/entities.go"],
     [("verification equations and norm checks", "jindo/verifier.go")],
     "exhaustive single-fault enumeration over all statement and proof components, checked on the real verifier",
     "all components x all alterations of the alphabet; combinations of independent alterations are not enumerated")

prop("C03", "Fiat-Shamir challenges bind the whole statement and first message",
     "The challenges the verifier uses change whenever any part of what they must depend on changes: point, every claimed evaluation, every commitment, every first-round component. Every challenge coefficient lies within the parameter set's challenge bound and every value in that range can occur.",
     ["inputs", "fault_sequences"],
     "every component bound into the transcript and every alteration of it; every challenge produced",
     "Honest executions stay consistent when a component is left out of the transcript on both sides, so no accepting test can see it.",
     ["jindo/prover.go", "jindo/verifier.go", "jindo/utils.go"],
     [("transcript", "jindo/prover.go"), ("challenge sampling", "jindo/utils.go")],
     "exhaustive enumeration of transcript components with an adaptive adversary that replays known challenges against the real verifier",
     "adversary that fixes challenges first and chooses the unbound component afterwards, for each component")

prop("C04", "The verifier enforces exactly the advertised norm bounds",
     "A commitment opening that satisfies all linear relations is accepted if and only if every response vector is within its advertised norm bound and the opening is short. The decision agrees with a reference verifier on both sides of each boundary.",
     ["inputs", "configurations"],
     "every response vector and every crossing of its bound (just below, at, just above, far above)",
     "Honest proofs lie well inside the bounds, so a missing or loosened norm check never shows.",
     ["jindo/verifier.go", "jindo/params.go"],
     [("norm bounds", "jindo/params.go"), ("norm checks", "jindo/verifier.go")],
     "enumeration of adversarial openings on both sides of every bound against a reference model of the verifier (conformance on every case)",
     "reference verifier is replayed on each adversarial proof and must give the implementation's verdict")

prop("C17", "Polynomial transforms, ring products and vector operations are exact",
     "For every rank, forward and inverse transforms are mutually inverse and evaluate at the documented roots, products equal the schoolbook cyclic or negacyclic product, and sums, scalings and accumulations equal their definitions.",
     ["inputs", "configurations"],
     "every rank from 1 up to the field's 2-adicity and every pair of polynomials",
     "The suite compares a few random products at one rank; small ranks take separate code paths.",
     ["math/bigpoly/ntt.go", "math/bigpoly/vec.go", "math/bigpoly/base_op.go", "math/bigpoly/cyclic.go", "math/bigpoly/cyclotomic.go"],
     [("butterflies", "math/bigpoly/ntt.go"), ("vector kernels", "math/bigpoly/vec.go")],
     "exhaustive enumeration of basis pairs (a basis decides bilinear maps) and of whole input spaces over tiny fields, against schoolbook arithmetic",
     "linearity/bilinearity is itself checked on the enumerated alphabet; ranks bounded")

prop("C18", "Automorphisms act as X -> X^d in both representations",
     "Applying an automorphism in the transformed domain and in the coefficient domain give the same polynomial, equal to substituting X^d; automorphisms compose and invert.",
     ["inputs", "configurations"],
     "every rank up to the bound, every odd index including negative and larger than twice the rank, every basis polynomial",
     "The suite has a single random index at one rank.",
     ["math/bigpoly/cyclotomic.go"], [("AutTo", "math/bigpoly/cyclotomic.go")],
     "exhaustive enumeration of ranks, indices and basis polynomials against the substitution definition", "ranks bounded; linear in the input so a basis decides")

prop("C19", "Polynomial division, evaluation, modulus switching and encoding are exact",
     "Division by a vanishing polynomial returns the unique quotient and remainder, evaluation equals the power sum, and copies are deep and independent. Encoding and decoding round-trip.",
     ["inputs", "configurations"], "every rank, every vanishing degree, every polynomial, every evaluation point",
     "Only exercised indirectly through honest proofs, whose remainders are always zero.",
     ["math/bigpoly/poly.go", "math/bigpoly/base_op.go"], [("QuoRemByVanishing, Evaluate, Copy, Marshal", "math/bigpoly/poly.go")],
     "exhaustive enumeration over small fields and ranks against reference arithmetic", "ranks and fields bounded")

prop("C21", "Field arithmetic equals arithmetic modulo the prime",
     "For every generated field and every pair of elements, addition, subtraction, negation, doubling, multiplication, inversion, square root, exponentiation, comparison and vector operations equal the operation on integers modulo the prime, in the assembly and the portable implementation.",
     ["inputs", "configurations"], "all element pairs (limb-boundary alphabet), all vector lengths up to the unrolling bound, both implementations",
     "Generated tests sample random elements; carry and limb boundaries are measure zero.",
     ["jindo/internal/zp", "buckler/internal/zp110", "buckler/internal/zp220", "buckler/internal/zp440", "buckler/internal/zp880", "examples/bfv/zp", "examples/mult/zp"],
     [("Montgomery arithmetic", "element.go, element_*.s in each package")],
     "exhaustive product of a boundary alphabet of elements on both implementations against big-integer arithmetic",
     "alphabet of limb-boundary values rather than all 2^255 elements")

prop("C22", "Field element conversions and encodings are faithful and total",
     "Conversions from and to bytes, integers and strings give the value modulo the prime in canonical form, round-trip, and reject what they document as rejected. Random elements are produced by rejection and are always reduced, and a random vector is independent random elements. Hashing to the field is the documented expansion reduced modulo the prime, and vectors print, sort and compare as the numbers they hold.",
     ["inputs", "configurations"], "every length of byte string up to the bound, every boundary integer, every encoding, every random tape of the alphabet",
     "The suite round-trips random elements only.",
     ["jindo/internal/zp/element.go", "buckler/internal/zp110/element.go", "buckler/internal/zp440/element.go", "jindo/internal/zp/arith.go"],
     [("SetBytes, SetBigInt, Slice, Marshal, SetRandom", "element.go and arith.go in each package")],
     "exhaustive enumeration of boundary values, encodings and random tapes against integer arithmetic", "alphabet of boundary values; random source replaced by enumerated tapes")

prop("C23", "The uniform sampler is deterministic, never reuses stream, exactly uniform",
     "Samplers with the same seed give the same stream and distinct seeds give distinct streams. No part of the keystream is returned twice whatever the sequence of calls, and bounded integers are exactly uniform by rejection for every bound.",
     ["inputs", "histories"], "every history of operations up to the depth, every bound of the alphabet, every answer of the random source of the alphabet",
     "The suite checks the mean and variance of one long run.",
     ["math/csprng/uniform.go"], [("buffering and rejection", "math/csprng/uniform.go")],
     "exhaustive enumeration of operation histories with the keystream as controlled environment", "depth-bounded histories; AES-CTR trusted")


BK = ["buckler/prover.go", "buckler/verifier.go", "buckler/compile.go", "buckler/constraint.go"]
def bk(*extra): return BK + list(extra)

prop("C07", "Every satisfying assignment of every circuit can be proven",
     "For every circuit made of any combination of supported constraints and every assignment that satisfies it, proving succeeds and the proof is accepted by the verifier.",
     ["inputs", "configurations"],
     "every circuit over the constraint kinds (all words over the constraint alphabet up to the depth), every satisfying assignment, every supported rank and field",
     "The suite has one circuit per feature at one rank; combinations of constraint kinds, small ranks, unused or repeated witnesses and unusual degrees are never composed.",
     bk(), [("constraint dispatch and batching", "buckler/prover.go"), ("circuit compilation", "buckler/compile.go")],
     "exhaustive enumeration of circuits (words over a constraint alphabet) and satisfying assignments, each run through compile, prove and verify on the real code",
     "words of bounded length over a finite alphabet of constraints; tiny to small ranks; a finite set of value patterns per circuit")

prop("C08", "No assignment that violates a circuit yields an accepted proof",
     "For every circuit and every assignment that does not satisfy it, whatever the prover returns is rejected by the verifier (or proving fails). The verdict is exactly whether the assignment satisfies every constraint.",
     ["inputs", "configurations"],
     "every circuit over the constraint alphabet up to the depth, every single-entry deviation of a satisfying assignment, every assignment of a small value space",
     "The suite has no rejecting test except one per feature at most; each slot, constraint and combination needs its own.",
     bk(), [("constraint checks", "buckler/verifier.go"), ("batching challenges", "buckler/prover.go")],
     "exhaustive enumeration of circuits x assignments (mutants of every entry, whole small assignment spaces), verdict of the real prover and verifier compared with reference semantics",
     "probabilistic soundness error below 2^-50 ignored; bounded ranks and alphabets")

prop("C09", "Violations of several constraints never cancel",
     "When several constraints of a circuit are violated at once, by whatever pattern of residuals, the proof is rejected, also when the residuals add up to zero in any order or position and across constraints of different kinds.",
     ["inputs", "configurations"],
     "every pair and triple of constraints, every pattern of residuals that cancels under equal, repeated or swapped batching weights",
     "A test that violates one constraint cannot tell distinct batching weights from equal ones.",
     bk(), [("random linear combination of constraints", "buckler/prover.go"), ("same on the other side", "buckler/verifier.go")],
     "exhaustive enumeration of constraint tuples and cancelling residual patterns on the real prover and verifier",
     "residual patterns from a finite set of cancelling relations; up to a bounded number of constraints")

prop("C10", "A proof is bound to the public inputs it was produced for",
     "A proof accepted for one public input is rejected for any other public input, also when the other input would satisfy the circuit with the same witness or is not constrained at all.",
     ["inputs"],
     "every entry of every public input and every change of it, in circuits that do and do not constrain it",
     "Verification with other public inputs is not tested.",
     bk(), [("transcript", "buckler/prover.go"), ("public witness evaluation", "buckler/verifier.go")],
     "exhaustive enumeration of single-entry, swap and splice changes of the public input on the real verifier",
     "finite alphabet of changes per entry")

prop("C11", "Altered, spliced, malformed or misdirected circuit proofs are rejected",
     "Changing, exchanging, dropping or duplicating any component of an accepted proof makes it rejected, as does presenting it for a different circuit, a different rank or a different CRS. The verifier never panics on a proof.",
     ["inputs", "fault_sequences"],
     "every component of the proof under every alteration of the alphabet (change, replace by one of another proof, remove, duplicate, nil); every neighbouring circuit",
     "The suite only verifies unmodified proofs.",
     bk("buckler/entities.go"), [("proof checks", "buckler/verifier.go")],
     "exhaustive single-fault enumeration over all proof components and neighbouring circuits on the real verifier",
     "single faults and pairwise splices; combinations are covered by the malicious-prover check C33")

prop("C12", "Assignments of any shape are proven or refused, in any circuit layout",
     "Witnesses are found in declaration order in every layout of a circuit (nested structs, pointers, arrays, slices, unexported and other fields). An assignment whose shape differs from the compiled circuit's is refused with an error or a rejection, never with a panic or an accepted proof.",
     ["inputs", "configurations"],
     "every layout of the type grammar up to the depth, every missing, extra, short or long witness",
     "The suite uses flat structs with complete assignments.",
     ["buckler/witness.go", "buckler/compile.go", "buckler/prover.go", "buckler/verifier.go"], [("reflection walk", "buckler/witness.go")],
     "exhaustive enumeration of layouts and shape faults on the real compiler, prover and verifier",
     "finite set of layouts; nil field elements and cyclic pointers excluded")

prop("C13", "Norm constraints accept exactly the vectors within the bound",
     "An infinity-norm constraint is provable if and only if every entry lies in [-bound, bound], a two-norm constraint if and only if the squared norm is at most the square of the bound, for every bound.",
     ["inputs", "configurations"],
     "every bound of the alphabet (all small ones, around powers of two, large), every value around the bound in every position",
     "The suite proves random vectors inside one bound each.",
     bk("buckler/utils.go"), [("digit decomposition", "buckler/constraint.go"), ("digit witnesses", "buckler/prover.go")],
     "exhaustive enumeration of bounds and of values on both sides of each bound against the definition, on the real prover and verifier",
     "two-norm bounds whose square has at most rank binary digits; norms taken on balanced representatives")

prop("C14", "Approximate norm constraints accept within bound and reject beyond slack",
     "An approximate infinity-norm constraint accepts every vector within its bound and rejects every vector exceeding the bound by more than the documented slack, in any position and alongside other constraints.",
     ["inputs", "configurations"],
     "every position of the violating entry, magnitudes from the slack boundary to half the modulus, every bound of the alphabet including zero",
     "The suite proves one random vector within the bound.",
     bk("buckler/utils.go"), [("random projection", "buckler/constraint.go"), ("projection digits", "buckler/prover.go")],
     "exhaustive enumeration of positions x magnitudes x bounds on the real prover and verifier against the two-sided definition",
     "vectors between bound and slack may go either way; ranks of at least 128 digits")

prop("C15", "Linear constraints hold exactly for the image under the map",
     "Every built-in linear map computes what it claims, its transpose is its adjoint, and a linear constraint accepts exactly the pairs (in, M in), for built-in and user-defined maps and for several inputs and outputs.",
     ["inputs", "configurations"],
     "every rank up to the bound, every automorphism index including negative and large, every basis vector, every single-entry deviation",
     "The suite proves one random pair per map at one index.",
     bk("buckler/linear.go"), [("maps and transposes", "buckler/linear.go"), ("lincheck protocol", "buckler/prover.go")],
     "exhaustive enumeration of maps, basis vectors and deviations against definitions in integer arithmetic, maps directly and through prove/verify",
     "maps are linear so a basis decides them; ranks bounded")

prop("C16", "Sum constraints hold exactly for the claimed sum",
     "A sum constraint accepts exactly the assignments for which the sum over all slots of its expression equals the claimed value, for every expression and claimed value and next to other sums.",
     ["inputs", "configurations"],
     "every expression of the alphabet, every claimed sum around the true one, several sums at once",
     "The suite's sums are all zero or never violated.",
     bk("buckler/encoder.go"), [("sumcheck protocol", "buckler/prover.go"), ("claimed sums", "buckler/verifier.go")],
     "exhaustive enumeration of expressions x claimed sums x assignments on the real prover and verifier",
     "finite alphabet of expressions and deviations")

prop("C33", "A cheating prover cannot make a false circuit statement accepted",
     "Whatever a prover commits to and answers, a proof for an assignment that violates a constraint is rejected: every prover message is fixed before the challenge it must not depend on, every committed remainder, quotient, mask and digit is bounded in degree and constrained, and no message can absorb the violation.",
     ["fault_sequences", "inputs"],
     "every prover message computed after its challenge, every item absorbing the error, every false sum and mask, for every kind of constraint",
     "The suite has only honest provers.",
     bk("buckler/entities.go", "buckler/utils.go", "jindo/prover.go", "jindo/verifier.go"),
     [("transcript and checks", "buckler/verifier.go"), ("degree bounds of commitments", "jindo/verifier.go")],
     "exhaustive enumeration of the deviations of an adversarial prover (a second prover bound to the real one by an honest-strategy conformance run) against the real verifier",
     "single deviations and listed combinations; not a proof of knowledge soundness")

prop("C24", "Rounded Gaussian samples follow the rounded normal distribution",
     "RoundedGaussianSampler.Sample(center, sd) has the distribution of a normal variable rounded to the nearest integer, for every center and deviation, including both tails; equal seeds give equal samples and a non-positive deviation is refused.",
     ["inputs"],
     "the sampler's execution tree over its random words, covered by an equidistributed lattice of words (2^21 executions per centre and deviation), exact distribution distances",
     "The suite compares mean and deviation of one run.",
     ["math/csprng/gaussian_rounded.go"], [("ziggurat", "math/csprng/gaussian_rounded.go")],
     "exhaustive execution of the real sampler on a lattice of random words fed in place of its keystream, outcome counts compared to the exact distribution function",
     "deterministic lattice of words, not all words: distances below 2e-4 (6e-5 thorough) are not seen; the random source is replaced by type, a redesigned source leaves the case inconclusive (recorded as an outcome)")

prop("C25", "Coset samples have a discrete Gaussian distribution on the coset",
     "COSACSampler.Sample(center, sd) samples the discrete Gaussian of the integers with the given centre and deviation, and SampleCoset returns an element of center + Z with the matching distribution.",
     ["inputs"],
     "the sampler's execution tree over its random words, covered by an equidistributed lattice of words for every centre and deviation of the alphabet",
     "The suite compares mean and deviation of one run.",
     ["math/csprng/gaussian_cosac.go"], [("rejection sampling", "math/csprng/gaussian_cosac.go")],
     "exhaustive execution of the real sampler on a lattice of random words fed in place of its keystream, outcome counts compared to the exact distribution function",
     "deterministic lattice of words: distances below the stated tolerance (2e-3) are not seen")

prop("C26", "The Twin-CDT sampler inverts its centre's distribution function",
     "TwinCDTGaussianSampler.Sample(center) maps a uniform random word to the quantile of the discrete Gaussian with that centre, for centres anywhere between its tabulated ones and of any sign; coset samples agree with it; copies are independent of their original and have the same distribution.",
     ["inputs"],
     "every tabulated centre, its neighbourhoods and a grid between them, every boundary of the distribution function on both sides, for the deviations the scheme uses",
     "The suite compares mean and deviation of one run at random centres.",
     ["math/csprng/gaussian_twin_cdt.go"], [("tables", "math/csprng/gaussian_twin_cdt.go")],
     "exhaustive enumeration of centres x quantile boundaries on the real sampler, its random word chosen by the check, against the exact distribution function",
     "probabilities compared up to 1e-9; deviations of at least 1.25")

prop("C05", "Commitments are short encodings of exactly the committed polynomial",
     "Commit encodes the given coefficients at every length up to the rank, with zero above it, into rows whose decoding is the polynomial; encodings, masks and secret vectors are short, and the commitment is their image under the key derived from the CRS, rounded to nearest at each cutoff. Equal CRSs give equal keys, different CRSs unrelated ones; the input is left alone, longer inputs are refused.",
     ["inputs", "configurations"],
     "every length at and around every row, column and slot boundary, for every small parameter set; every component of the key of several CRSs",
     "The suite never looks inside a commitment or an opening.",
     ["jindo/encoder.go", "jindo/prover.go", "jindo/entities.go"], [("encoding", "jindo/encoder.go"), ("commitment", "jindo/prover.go"), ("key expansion", "jindo/utils.go")],
     "exhaustive enumeration of lengths x parameter sets, real openings and commitments compared with an independent reference of the encoding and of both commitment layers",
     "shortness is compared at 12 deviations")

prop("C06", "Every mask and blinding value is fresh, independent and long enough",
     "Every secret row of a commitment, every mask of an evaluation and every blinding coefficient of a circuit proof comes from its own random draw, with the advertised deviation, and is never shared between rows, commitments, provers or copies. What a circuit proof reveals is masked in full: the map from the prover's random coefficients to the revealed values has full rank.",
     ["inputs", "configurations", "schedules"],
     "every single random draw of a commitment and of a circuit proof perturbed on its own, every pair of noise polynomials compared, every kind and number of constraints",
     "The suite checks that proofs verify, which they do without any masking.",
     bk("jindo/prover.go", "jindo/encoder.go", "math/csprng/gaussian_twin_cdt.go"), [("masks of the scheme", "jindo/prover.go"), ("masks of the circuit proof", "buckler/prover.go"), ("blinding of witnesses", "buckler/encoder.go")],
     "exhaustive enumeration of the random draws of the real prover, each perturbed alone and its effect observed; exact derivative (dual numbers over the field) of the revealed values with respect to all random draws, rank computed",
     "first-order independence of the masks, not a simulator proof; deviations estimated within 5 percent bands")

prop("C20", "Polynomial operations compose exactly under every aliasing of operands",
     "Any sequence of in-place and out-of-place polynomial operations over a set of polynomials gives the same values as on exact integers, whichever operands coincide, and changes nothing but the documented output; operands of another length, or in a domain the operation does not take, are refused before anything changes.",
     ["inputs", "configurations"],
     "every sequence up to the depth of all operations of both evaluators over three registers, with every pattern of coinciding operands; every operation with every operand of another length and in every domain",
     "The suite calls every operation once, on distinct operands.",
     ["math/bigpoly/ntt.go", "math/bigpoly/base_op.go", "math/bigpoly/poly.go", "math/bigpoly/vec.go", "math/bigpoly/cyclic.go", "math/bigpoly/cyclotomic.go"],
     [("evaluators", "math/bigpoly/ntt.go"), ("operations", "math/bigpoly/base_op.go")],
     "exhaustive exploration of operation sequences on the real evaluators against an integer model (explicit-state, every step compared in full)",
     "three registers, depth 2 (3 thorough), small ranks; accumulating operations with operands of one domain")

prop("C28", "Verdicts and proofs do not depend on what the same objects did before",
     "Provers and verifiers of both layers can be used any number of times in any order, also after failed, refused or malformed inputs: honest proofs stay accepted, bad ones rejected, and no call changes its arguments or anything returned earlier.",
     ["inputs", "configurations", "fault_sequences"],
     "every sequence of calls up to the depth over shared provers, copies, verifiers and independent compilations, including failing calls",
     "The suite uses every object once.",
     bk("jindo/prover.go", "jindo/verifier.go", "jindo/utils.go"), [("circuit prover state", "buckler/prover.go"), ("scheme prover state", "jindo/prover.go")],
     "exhaustive exploration of call sequences on shared real objects; every verdict compared with the model's, every argument and earlier result compared by a deep hash",
     "depth 2 to 3 (4 thorough)")

prop("C27", "Copies and shared evaluators give the same results under every schedule",
     "A SafeCopy of a prover or sampler can be used by one thread while the original or other copies are used by others; separately built provers, verifiers and circuits, and one ring evaluator working on different polynomials, can too. Whatever the schedule, every thread gets exactly the result it gets when it runs alone.",
     ["schedules"],
     "every preemption of one thread at every statement (first, second, fourth, ... and last execution), with the other thread run to its end in between; pairs of preemptions in the thorough tier",
     "The suite is single-threaded.",
     bk("jindo/prover.go", "jindo/encoder.go", "jindo/rns.go", "math/csprng/gaussian_twin_cdt.go", "math/bigpoly/base_op.go"),
     [("copies", "jindo/prover.go"), ("copies of the encoder", "jindo/encoder.go"), ("pooled scratch polynomials", "math/bigpoly/base_op.go")],
     "stateless model checking of the real code under a controlled scheduler: scheduling points inserted before every statement of the packages (from the current source), preemption-bounded exhaustive enumeration of schedules, results compared with solo runs",
     "two threads, one preemption (two in the thorough tier); repeated executions of one statement at powers of two; sequentially consistent memory; calls out of the module are atomic")

prop("C29", "Chosen parameters fit the request, are correct and meet the security target",
     "For every polynomial length, batch size and modulus b^k+1, NewParameters returns parameters whose layout holds the length, whose rings are well-formed, whose norm bounds and cutoffs leave room for every honest response, whose noise widths hide, and whose MSIS and MLWE instances meet the scheme's own security criterion - or refuses, exactly when no choice of columns would do.",
     ["inputs", "configurations"],
     "every length up to a bound and around powers of two, batch sizes, and moduli over the whole range of bases and exponents",
     "The suite uses a handful of parameter sets and checks none of their values.",
     ["jindo/params.go"], [("parameter search", "jindo/params.go"), ("encoding parameters", "jindo/params.go")],
     "exhaustive enumeration of lengths x batches x moduli on the real parameter search, each result judged against an independent model of the scheme's analysis; the scheme itself run at every modulus",
     "lengths 1-40 (1-700 thorough) and around powers of two to 2^24; batches to 100 (100000); b up to 2^61, k up to 1024")
prop("C30", "The modulus generator finds usable moduli and generates working packages",
     "For every requested bit length or range, jindo-modulus ends, makes a package whose modulus is a prime b^k+1 of a requested length with a base and a two-adicity the scheme can use whenever there is one, and fails with an error otherwise; bad arguments are refused. The generated package implements the field exactly and the commitment scheme works with it.",
     ["inputs", "configurations"],
     "every bit length up to the bound, ranges over boundary values, and explicit bases, all run through the real binary",
     "The suite has no test of the generator.",
     ["jindo-modulus/main.go", "jindo/params.go"], [("search", "jindo-modulus/main.go"), ("generated methods", "jindo-modulus/main.go"), ("parameters for a modulus", "jindo/params.go")],
     "exhaustive enumeration of the tool's arguments within bounds on the real binary, judged by an independent search for qualifying primes; generated packages compiled and model-checked against big integers and through the scheme",
     "the portable variant of generated packages; bit lengths 1-130 and selected larger ones (1-900 thorough)")
prop("C31", "A compiled circuit is a snapshot of what Define stated",
     "Changing anything handed to the library after the call that took it - coefficients, sums, bounds, lists of factors, constraints and copies of them, the template circuit, the CRS - has no effect on the compiled statement. Two compilations of one circuit with one CRS prove and verify for each other and share no state.",
     ["inputs", "configurations"],
     "every sequence of building constraints from copies up to the depth; every mutable argument changed at every later time; every constraint kind compiled twice",
     "The suite compiles every circuit once and never changes an argument.",
     bk("buckler/compile.go", "buckler/context.go"), [("constraints", "buckler/constraint.go"), ("arguments kept by the context", "buckler/context.go"), ("compilation", "buckler/compile.go")],
     "exhaustive exploration of operation sequences on the real builder, the compiled statement compared with the model's through the verdicts on assignments that separate it (null space of the model's constraints, and of all but one)",
     "linear terms; sequences up to depth 4 after a prefix (5 thorough)")
prop("C34", "Constraints that share witnesses hold independently of each other",
     "Whatever constraints of whatever kinds a circuit states about the same witnesses and public inputs, in whatever order, an assignment is accepted exactly when every single one of them holds: none is dropped, merged, weakened or made unsatisfiable by another.",
     ["configurations", "inputs"],
     "every pair (thorough: triple and order) of an alphabet of constraints over the same few witnesses, with assignments that satisfy all and assignments that violate exactly one",
     "The suite has one circuit per kind of constraint, each with its own witnesses.",
     bk("buckler/context.go", "buckler/constraint.go", "buckler/utils.go"), [("collecting constraints", "buckler/context.go"), ("batching", "buckler/prover.go")],
     "exhaustive enumeration of constraint pairs and triples over shared witnesses with discriminating assignments on the real prover and verifier",
     "alphabet of 37 constraints over three witnesses and two public inputs of rank 4")

prop("C32", "The example circuits accept exactly the statements they describe",
     "The BFV example proves a ciphertext if and only if its body is -mask*key + delta*message + error with message below the plaintext modulus and error within the bound, and the transformed secrets are the transforms of the secrets; the multiplication example proves X*Y=Z with |X| <= 5 and nothing else. Both example programs end with an accepted proof.",
     ["inputs"],
     "every position of a message, error, key, mask, body or transform at and beyond its bound or off by one, with and without the ciphertext equation restored",
     "The examples have no tests.",
     ["examples/bfv/main.go", "examples/mult/main.go", "buckler/prover.go", "buckler/verifier.go"], [("ciphertext circuit", "examples/bfv/main.go"), ("product circuit", "examples/mult/main.go")],
     "exhaustive enumeration of boundary and single-violation assignments of the real example circuits, verdicts compared with the statement over the integers",
     "rank 8 (2, 16 and 64 thorough), the programs' rank once")
