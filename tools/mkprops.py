"""Regenerates /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": list(over), "text": text},
         "why_tests_cant": why,
         "anchors": {"files": list(files),
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Prime-field elements are canonical and their arithmetic is exactly Z/p",
 "For every prime p, converting any integer or byte string to an element of the integers modulo p yields the representative in [0, p), and +, -, *, unary minus, ==, !=, divmod, division and inverse of such elements give exactly the canonical result that arithmetic modulo p prescribes. Every nonzero element x satisfies x * x.inverse() == 1, inverting or dividing by zero raises instead of returning a value, and no operation changes its operands.",
 "for every prime p, every integer/byte-string argument and every pair of elements",
 "The tests use three or four small moduli and fixed operands; they never try byte strings above p, negative integers for every operator, or all inverses.",
 ["starks/modp.py", "starks/numbertype.py", "starks/euclidean.py"],
 [("canonical reduction in the constructor", "starks/modp.py IntegerModP.__init__"),
  ("operators", "starks/modp.py IntegerModP.__add__/__sub__/__mul__/__neg__/__eq__/__ne__/__divmod__"),
  ("inverse through the extended Euclidean algorithm", "starks/modp.py IntegerModP.inverse"),
  ("division and reflected operators", "starks/numbertype.py DomainElement, FieldElement")],
 state=[("n", "canonical representative, 0 <= n < p")])

prop("C02", "Exponentiation equals repeated multiplication for every exponent n >= 0",
 "For every ring, field or polynomial element x and every integer n >= 0, x ** n is the n-fold product of x (1 when n is 0), for prime-field, extension-field, rational and polynomial elements alike. Modular exponentiation powmod(n, m) returns a value congruent to x ** n modulo m, already reduced whenever n >= 2, and a non-integer exponent raises TypeError.",
 "for every element and every n >= 0, unbounded",
 "Only a handful of (x, n) pairs are tested; correctness of square-and-multiply is a statement about every bit pattern of n.",
 ["starks/numbertype.py", "starks/finitefield.py"],
 [("square-and-multiply", "starks/numbertype.py DomainElement.__pow__"),
  ("modular square-and-multiply", "starks/numbertype.py DomainElement.powmod"),
  ("recursive power in extension fields", "starks/finitefield.py Fq.__pow__")])

prop("C03", "gcd and extended gcd are correct in every Euclidean domain",
 "For integers (of any sign), prime-field polynomials and any other type with a Euclidean divmod and valuation, gcd(a, b) terminates and returns a common divisor of a and b that every common divisor divides. The extended algorithm returns x, y, d with a*x + b*y == d where d is such a greatest common divisor; gcd(a, 0) and gcd(0, a) agree with a up to a unit.",
 "for every Euclidean domain and every pair of elements, including zeros and negatives",
 "The tests sample small integers and two polynomials; the loop invariant over all remainder sequences is not testable.",
 ["starks/euclidean.py"],
 [("remainder loop", "starks/euclidean.py gcd"),
  ("Bezout coefficient loop", "starks/euclidean.py extended_euclidean_algorithm")])

prop("C04", "Univariate polynomials form the ring R[x] in canonical form",
 "For every coefficient field and every coefficient list, a constructed polynomial stores exactly those coefficients with trailing zeros stripped, so equal polynomials have equal coefficient lists and degree() is the true degree (-1 for zero). Addition, subtraction, negation, multiplication, equality and inequality are those of the polynomial ring, evaluation p(x) equals the sum of coeff_i * x**i at every ring element or polynomial x, and operands are never modified.",
 "for every field, every pair of coefficient lists of any length, every evaluation point",
 "Tests compare a few literal polynomials; they cannot cover cancellation of leading terms, zero operands and every length.",
 ["starks/polynomial.py"],
 [("trailing-zero stripping", "starks/polynomial.py strip, Polynomial.__init__"),
  ("ring operators", "starks/polynomial.py Polynomial.__add__/__sub__/__neg__/__mul__/__eq__/__ne__"),
  ("evaluation", "starks/polynomial.py Polynomial.__call__")],
 state=[("coefficients", "list of ring elements, lowest degree first, last one nonzero")])

prop("C05", "Polynomial division returns the unique quotient and remainder",
 "For every field, every polynomial a and every nonzero polynomial b, divmod(a, b) terminates with (q, r) such that a == q*b + r and deg r < deg b; a / b is that q and a % b is that r. Dividing by the zero polynomial raises ZeroDivisionError for /, % and divmod, and neither operand is modified.",
 "for every pair of polynomials over every field",
 "A few literal divisions are tested; termination and the degree bound need an induction over the remainder.",
 ["starks/polynomial.py"],
 [("long division loop", "starks/polynomial.py Polynomial.__divmod__"),
  ("quotient / remainder operators", "starks/polynomial.py Polynomial.__truediv__, Polynomial.__mod__")])

prop("C06", "Mixed operands are coerced consistently; unsupported ones raise TypeError",
 "For every binary operator that is defined for the two types (addition, subtraction, multiplication and comparison on either side; division on either side for field elements; /, % and divmod with the polynomial on the left for polynomials), combining a field element or polynomial with a Python integer, or a polynomial over a prime field with one of its coefficients, on either side, gives exactly the result of first converting the smaller type to the larger one, so int + x == x + int and int - x == -(x - int) and so on. An operand that cannot be converted raises TypeError, comparisons included, never a silently wrong value.",
 "for every operator, every ordered pair of operand types, every value",
 "Tests use a few mixed expressions in one direction; operator precedence and reflection interact across every pair of types.",
 ["starks/numbertype.py", "starks/modp.py", "starks/polynomial.py", "starks/finitefield.py"],
 [("coercing decorator with operator precedence", "starks/numbertype.py typecheck"),
  ("reflected operators", "starks/numbertype.py DomainElement.__radd__/__rsub__/__rmul__, FieldElement.__rtruediv__")])

prop("C07", "Extension-field elements are reduced residues and form the field GF(p^m)",
 "For every prime p and irreducible modulus f of degree m >= 2, every constructed element holds a polynomial of degree < m, and +, -, *, negation, ==, != agree with polynomial arithmetic modulo f on those residues. Every nonzero element has x * x.inverse() == 1, inverting zero raises ZeroDivisionError, and integers, prime-field elements, coefficient lists, byte strings and polynomials convert to their residue modulo f.",
 "for every prime p, every irreducible f over Z/p and every pair of residues",
 "Tests look at two or three small fields and a few elements; the field laws quantify over every modulus polynomial and every residue.",
 ["starks/finitefield.py", "starks/polynomial.py", "starks/euclidean.py"],
 [("reduction on construction", "starks/finitefield.py Fq.__init__"),
  ("residue arithmetic", "starks/finitefield.py Fq.__add__/__sub__/__mul__/__neg__/__eq__/__ne__"),
  ("inverse by Bezout", "starks/finitefield.py Fq.inverse")],
 state=[("poly", "residue of degree < m")])

prop("C08", "Irreducibility and primitivity tests decide exactly those notions",
 "For every prime p and every polynomial f of degree >= 1 over Z/p, the irreducibility test returns True exactly when f is irreducible. For monic f of degree m the primitivity test returns True exactly when f is irreducible and x generates the multiplicative group of the quotient field, and the random generators only ever return monic polynomials of the requested degree with the respective property.",
 "for every prime p, degree m >= 1 and polynomial, and every random choice",
 "The tests check a handful of known polynomials; soundness of Rabin-style tests is a theorem about all of them.",
 ["starks/poly_utils.py"],
 [("irreducibility test", "starks/poly_utils.py is_irreducible"),
  ("primitivity test", "starks/poly_utils.py is_primitive"),
  ("random generators", "starks/poly_utils.py generate_irreducible_polynomial, generate_primitive_polynomial")])

prop("C09", "Rationals modulo p are a faithful fraction representation of Z/p",
 "For every prime p and all numerators and denominators nonzero mod p, a rational element represents numerator/denominator in Z/p; +, -, *, negation, inverse, division, == and != agree with the arithmetic of Z/p on the represented values. Stored denominators stay nonzero modulo p, numerator and denominator are stored in lowest terms, and inverting zero raises.",
 "for every prime p and every pair of fractions with nonzero denominator",
 "Tests do not cover this type at all beyond construction; agreement with Z/p is universally quantified.",
 ["starks/rationals_modp.py", "starks/euclidean.py"],
 [("normalising constructor", "starks/rationals_modp.py RationalModP.__init__"),
  ("operators", "starks/rationals_modp.py RationalModP.__add__/__sub__/__mul__/__eq__/__ne__/inverse")],
 state=[("m, n", "numerator and denominator in lowest terms, n nonzero mod p")])

prop("C10", "Multivariate polynomials implement R[X1..Xn] with no zero coefficients",
 "For every field, every number of variables and all coefficient maps with coefficients in the field, +, -, *, negation, powers and equality of multivariate polynomials are those of the polynomial ring, no stored coefficient is zero, and degree() is the largest total degree of a stored monomial. Evaluating at a point (of field elements or of univariate polynomials) gives the sum over monomials of coefficient times product of powers, so evaluation commutes with sums and products, and operands are never modified.",
 "for every field, variable count, pair of coefficient maps and evaluation point",
 "Tests use small literal polynomials; cancellation, absent monomials and unequal supports are unbounded.",
 ["starks/multivariate_polynomial.py"],
 [("zero-coefficient removal", "starks/multivariate_polynomial.py remove_zero_coefficients, MultivariatePolynomial.__init__"),
  ("monomial products", "starks/multivariate_polynomial.py add_power_tuples, MultivariatePolynomial.__mul__"),
  ("evaluation and degree", "starks/multivariate_polynomial.py MultivariatePolynomial.__call__, degree")],
 state=[("coefficients", "finite map from exponent tuple to nonzero coefficient")])

prop("C11", "Conversions between univariate, multivariate and functional forms preserve value",
 "Lifting a univariate polynomial into variable i of an n-variable ring gives a polynomial whose value at every point is the original's value at coordinate i; the i-th index polynomial evaluates to coordinate i; projecting a multivariate polynomial onto variable i only regroups its terms. The multivariate delta polynomial of a point y is 1 at y and 0 at every other point of the finite field's n-space, and the polynomial built from a function over a prime field in one variable takes that function's value at every field element.",
 "for every finite field, width, index i < width, polynomial, function and evaluation point",
 "Tests look at one or two literal conversions and never evaluate at every point of the space.",
 ["starks/poly_utils.py", "starks/utils.py"],
 [("lift and projection", "starks/poly_utils.py make_multivar, project_to_univariate"),
  ("index polynomials", "starks/utils.py generate_Xi_s"),
  ("delta and function interpolation", "starks/poly_utils.py construct_multivariate_dirac_delta, construct_multivariate_coefficients")])

prop("C12", "Batch inversion and interpolation return the exact interpolant",
 "Simultaneous inversion maps every nonzero entry to its inverse and every zero entry to zero, for any mix of zeros; the vanishing-polynomial builder returns the monic product of (x - r) over all given roots. For pairwise distinct points every interpolation routine (general, 2-point, 4-point and batched 4-point) returns the polynomial of degree below the number of points that takes the given value at each point.",
 "for every field, every list length and every list of distinct points and values, including zeros",
 "Tests interpolate a few points over one modulus; zeros among values, repeated patterns and all lengths are unreachable.",
 ["starks/poly_utils.py"],
 [("batched inversion", "starks/poly_utils.py multi_inv"),
  ("vanishing polynomial", "starks/poly_utils.py zpoly"),
  ("interpolation", "starks/poly_utils.py lagrange_interp, lagrange_interp_2, lagrange_interp_4, multi_interp_4")])

prop("C13", "The FFT evaluates at powers of the root, and the inverse FFT undoes it",
 "For every prime field, every power-of-two n, every root of unity of order n and every coefficient list of at most n entries, the forward transform returns the values of the polynomial at 1, w, ..., w^(n-1) in that order, and the inverse transform returns exactly the polynomial of degree below n having the given values, so each undoes the other. FFT-based multiplication of two coefficient lists returns the coefficients of the product modulo x^n - 1 (the true product when it fits), and inputs are not modified.",
 "for every prime p, n = 2^k dividing p-1, primitive n-th root and input vector",
 "Tests use one or two sizes and a few vectors; correctness of the recursive splitting is an induction over n.",
 ["starks/fft.py"],
 [("radix-2 recursion", "starks/fft.py _fft, _simple_ft"),
  ("forward and inverse wrappers", "starks/fft.py fft_1d, NonBinaryFFT.fft, NonBinaryFFT.inv_fft"),
  ("convolution", "starks/fft.py mul_polys")])

prop("C14", "Every Merkle leaf has a branch that verifies to exactly that leaf",
 "For every list whose length is a power of two at least 4 and whose entries are byte strings, 256-bit integers or encodable elements, and every index, the branch generated for that index against the tree's root verifies and returns the encoding of exactly that list element. The tree has twice as many nodes as the list, node 1 is the root, and every inner node is the hash of its two children.",
 "for every list of every power-of-two length >= 4 and every index",
 "Tests build trees of one or two sizes and check few indices; the index permutation must be right at every position and depth.",
 ["starks/merkle_tree.py"],
 [("quarter permutation and its index map", "starks/merkle_tree.py permute4, get_index_in_permuted"),
  ("tree construction", "starks/merkle_tree.py merkelize"),
  ("branch generation and verification", "starks/merkle_tree.py mk_branch, verify_branch")],
 state=[("nodes", "heap-ordered array: node i is the hash of nodes 2i and 2i+1")])

prop("C15", "A Merkle branch that verifies against a root can only open the committed leaf",
 "If verification of a branch accepts at some index against the root of a committed list of power-of-two length at least 4, with a branch of the right number of entries whose leaf entry has the byte length of the committed leaf, then either the leaf it returns is the encoding of the list element at that index or the branch exhibits a collision of the hash function. Verification never accepts when the recomputed root differs, so altering any entry of a valid branch is rejected unless it collides.",
 "for every committed list, index and adversarial branch",
 "Tests only verify honest branches plus at most one tampered one; the statement ranges over every adversarial proof.",
 ["starks/merkle_tree.py"],
 [("root recomputation from a branch", "starks/merkle_tree.py verify_branch"),
  ("commitment", "starks/merkle_tree.py merkelize, permute4")])

prop("C16", "Byte encodings and Merkle leaf packing round-trip",
 "Encoding a prime-field element, rational modulo p, polynomial over a prime field or extension-field element to bytes (modulus at most 256 bits) and constructing the same type from those bytes returns an equal element, and each prime-field element takes exactly 32 big-endian bytes. Packing the evaluations of several polynomials into Merkle leaves and unpacking a leaf returns the 32-byte encodings of every polynomial's value at that index, in order.",
 "for every element of every supported type and every leaf shape (dimensions x polynomials)",
 "Tests round-trip a few literals; several encoders have no test at all.",
 ["starks/modp.py", "starks/polynomial.py", "starks/finitefield.py", "starks/rationals_modp.py", "starks/merkle_tree.py"],
 [("element encoders and byte constructors", "to_bytes / __init__(bytes) in starks/modp.py, starks/polynomial.py, starks/finitefield.py, starks/rationals_modp.py"),
  ("leaf packing", "starks/merkle_tree.py merkelize_polynomial_evaluations, unpack_merkle_leaf")])

prop("C17", "Proof compression is lossless",
 "For every list of Merkle branches, and every proof made of rounds of roots and branch lists plus a final list, whose byte-string entries are neither separators nor two bytes long and which has fewer than 65536 entries in compressed form, decompressing the compressed form returns exactly the original. Repeated entries are replaced by a two-byte back-reference to an earlier entry, so the compressed list never has more entries than items plus separators.",
 "for every branch list / proof satisfying the entry restrictions, of any size and repetition pattern",
 "Tests compress two small literal proofs; back-references over arbitrary repetition patterns are unbounded.",
 ["starks/compression.py"],
 [("branch compression", "starks/compression.py compress_branches, decompress_branches"),
  ("proof compression", "starks/compression.py compress_fri, decompress_fri")])

prop("C18", "Pseudorandom index sampling stays in range and avoids excluded multiples",
 "For every entropy string, modulus below 2^24 and count, sampling returns exactly count integers in [0, modulus), the same ones each time it is called with the same arguments. With exclusion parameter e >= 2 dividing the modulus, no returned index is a multiple of e, and every index that is not a multiple of e can be produced by some entropy value.",
 "for every entropy, modulus, count and exclusion parameter",
 "Tests check one call; range and exclusion must hold for every modulus and every draw.",
 ["starks/utils.py"],
 [("entropy expansion and index mapping", "starks/utils.py get_pseudorandom_indices")])

prop("C19", "An algebraic execution's trace, witness and constraints agree with its steps",
 "For every width, input state and step polynomials, the trace has one state per step, starts at the input, and each next state is the step polynomials applied to the previous complete state; the returned output is its last state, and the witness lists, per dimension, that dimension's value at every step. Constraint polynomial i vanishes on a pair of states exactly when the next state's component i equals step polynomial i of the first state, the circuit check is True exactly when all constraints vanish on every consecutive pair of the trace, and the boundary constraints pin each input component at step 0.",
 "for every field, width, input, step polynomials and number of steps",
 "Tests run one or two fixed computations; the agreement is universally quantified over computations and states.",
 ["starks/air.py", "starks/utils.py"],
 [("trace generation", "starks/air.py get_computational_trace"),
  ("constraints, circuit, boundary, witness", "starks/air.py AIR.generate_constraint_polynomials, generate_monotone_circuit, generate_boundary_constraints, generate_witness")],
 state=[("computational_trace", "list of states, one per step")])

prop("C20", "STARK trace, constraint and boundary polynomials satisfy their identities",
 "For every valid witness over a multiplicative group of power-of-two order (at least two) equal to the number of steps, in a prime field, each trace polynomial takes the witness values at successive powers of the root, each constraint polynomial equals P(g*x) - step(P(x)), the remainder polynomials of constraints that vanish at every step but the last satisfy C = Z*D with Z = (x^steps - 1)/(x - last), and the boundary polynomials satisfy P = B*(x-1)*(x-last) + I with I the line through the input and output values. The combination coefficients are a deterministic function of the root, one per requested position.",
 "for every prime field, root of unity, width, step polynomials and valid witness",
 "The module cannot even be imported by the tests at present; the identities are polynomial identities over all witnesses.",
 ["starks/stark.py", "starks/fft.py", "starks/poly_utils.py"],
 [("trace interpolation", "starks/stark.py construct_trace_polynomials"),
  ("constraint composition and quotient", "starks/stark.py construct_constraint_polynomials, construct_remainder_polynomials"),
  ("boundary quotient", "starks/stark.py construct_boundary_polynomials"),
  ("combination coefficients", "starks/stark.py get_pseudorandom_ks")])

prop("C21", "Affine spaces enumerate every combination once, and vanishing polynomials vanish",
 "Iterating an affine space yields exactly one element for each assignment of field scalars to its basis vectors, equal to the shift plus the scalar combination, and its length is the number of such assignments. The vanishing polynomial constructed for an affine space is monic, has that number of roots counted with multiplicity, and is zero exactly on the space's elements.",
 "for every finite field with an element iterator, basis, shift",
 "Tests iterate one tiny space; completeness over all bases and shifts is unbounded.",
 ["starks/reedsolomon.py", "starks/poly_utils.py", "starks/modp.py"],
 [("enumeration", "starks/reedsolomon.py AffineSpace.__iter__, __len__"),
  ("field iterator", "starks/modp.py iterate_modp"),
  ("vanishing polynomial", "starks/poly_utils.py construct_affine_vanishing_polynomial, zpoly")])

prop("C22", "MiMC, power cycles and the power-of-two test compute what they document",
 "The MiMC permutation returns the input iterated steps-1 times through x -> x^3 + c_i modulo the fixed 256-bit prime with round constants used cyclically from index 0. The power cycle of a nonzero element of order n > 1 is 1, r, ..., r^(n-1) with no repetition, and the power-of-two test is True exactly for powers of two among positive integers.",
 "for every input, step count, constant list, field element and positive integer",
 "Tests check single literals; all are unbounded loops or recursions.",
 ["starks/utils.py"],
 [("MiMC", "starks/utils.py mimc"), ("power cycle", "starks/utils.py get_power_cycle"),
  ("power-of-two test", "starks/utils.py is_a_power_of_2")])

prop("C23", "Bit and integer commitments open to the committed value and nothing else",
 "For every modulus, secret and value, the opening of a commitment to a bit, or to an integer below 2^numBits, verifies and decodes to exactly the committed value. A verified opening of a list of (image, bit) pairs opens every one of them and decodes to bits consistent with the commitment, and two openings of one bit commitment that both verify with secrets having equal one-way images and equal hard-core bits decode to the same bit; a secret whose one-way image differs from the committed one is rejected.",
 "for every secret, modulus, bit width and value, and every adversarial opening",
 "Tests draw a few random secrets; correctness must hold for every secret, value and width.",
 ["misc/commitment.py", "misc/blum_blum_shub.py"],
 [("bit commitment", "misc/commitment.py BBSBitCommitmentScheme, BBSBitCommitmentVerifier"),
  ("integer commitment", "misc/commitment.py BBSIntCommitmentScheme, BBSIntCommitmentVerifier"),
  ("one-way permutation and parity", "misc/blum_blum_shub.py blum_blum_shub, parity")],
 state=[("secret", "one random quadratic residue per committed bit")])

prop("C24", "Graph-isomorphism proofs are complete, and acceptance means a real isomorphism",
 "For every graph whose vertices all lie on edges, every relabelling of it edge by edge, every random permutation drawn and both verifier choices, the honest prover's answer is accepted, and the simulator's output is accepted by the same verifier. The verifier accepts exactly when the claimed map is one-to-one on the vertices of the presented graph and applying it edge by edge gives the chosen graph, so whoever can answer both choices for one presented graph exhibits an isomorphism between the two graphs.",
 "for every graph, permutation, random choice and adversarial answer",
 "Tests run random rounds on one example graph.",
 ["misc/zero_knowledge.py"],
 [("permutation helpers", "misc/zero_knowledge.py make_permutation_function, make_inverse_permutation_function, apply_isomorphism"),
  ("prover and verifier", "misc/zero_knowledge.py ZKProver, ZKVerifier, simulate_protocol")])

prop("C25", "3-coloring proofs: proper colorings always convince, improper edges are caught",
 "For every graph, proper 3-coloring, color permutation and chosen edge, the honest prover's revealed pair is accepted. The verifier accepts a revealed edge only when both openings verify and decode to different colors, so committing to a coloring with a monochromatic edge is rejected whenever that edge is chosen, and asking to reveal a pair that is not an edge raises.",
 "for every graph, coloring, color permutation, secret and edge choice",
 "Tests run random rounds on one example graph with one coloring.",
 ["misc/zkp_3_coloring.py", "misc/commitment.py"],
 [("commit and reveal", "misc/zkp_3_coloring.py ZK3ColProver"),
  ("edge check", "misc/zkp_3_coloring.py ZK3ColVerifier.accepts")])

prop("C26", "The blockchain accepts exactly well-linked, proved chains; adopts only longer",
 "A chain is valid exactly when every block after the first carries the hash of its predecessor and a proof for which the digest of previous proof, proof and previous hash starts with four zeros; mining returns the first such proof. Adding a block moves exactly the pending transactions into a block with the next index and clears them, adding a transaction appends it and returns the next block's index, and conflict resolution replaces the local chain only by a valid strictly longer chain reported by a node, the longest such.",
 "for every chain, transaction history and set of node responses",
 "Tests only construct an object; validity ranges over all chains and histories.",
 ["misc/blockchain.py"],
 [("chain validation and proof of work", "misc/blockchain.py valid_chain, valid_proof, proof_of_work"),
  ("block and transaction bookkeeping", "misc/blockchain.py new_block, new_transaction"),
  ("consensus", "misc/blockchain.py resolve_conflicts")],
 over=("inputs", "histories"),
 state=[("chain", "list of blocks"), ("current_transactions", "pending transactions")])

prop("C27", "The primality test never rejects a prime, whatever witnesses are drawn",
 "For every prime and every sequence of random witnesses the probabilistic test returns True; it returns False for every integer below 2 and every even number above 2, and for an odd composite it returns False as soon as one drawn base is a Miller-Rabin witness. Decomposition of a positive n returns (e, d) with n = 2^e * d and d odd.",
 "for every integer, accuracy and sequence of drawn bases",
 "No test covers the module; the claim ranges over all primes and all random draws.",
 ["misc/primality.py", "misc/blum_blum_shub.py"],
 [("decomposition", "misc/primality.py decompose"), ("witness test", "misc/primality.py isWitness"),
  ("driver", "misc/primality.py probablyPrime")])

prop("C28", "Type constructors are memoized per full argument list",
 "Asking for the same field or polynomial ring again, with the same arguments, returns the identical type object, so elements from separate calls interoperate, and asking with different arguments, positional or keyword, never returns a type made for other arguments, whatever calls were made before. A memoized function returns, for every call history, what the undecorated function would return for those arguments.",
 "for every sequence of constructor calls with positional and keyword arguments",
 "Tests construct few types in one order; the cache key must separate all argument lists over all histories.",
 ["starks/numbertype.py", "starks/modp.py", "starks/polynomial.py", "starks/finitefield.py", "starks/multivariate_polynomial.py"],
 [("cache", "starks/numbertype.py memoize")],
 over=("inputs", "histories"),
 state=[("cache", "map from argument list to constructed type")])

prop("C29", "Floating-point arithmetic over binary fields leaves its operands unchanged",
 "For every binary extension field and every pair of floating-point numbers, addition, subtraction, multiplication, division and conversion to fixed point return a new number and leave both operands as they were, so repeating an operation gives the same result. Adding a number whose zero bit is set returns the other number unchanged, products and quotients carry the exclusive-or of the signs, and dividing by a number whose zero bit is set raises ZeroDivisionError.",
 "for every binary field and every pair of 4-tuples",
 "Tests compute single results and never look at the operands afterwards.",
 ["starks/floatingpoint.py"],
 [("operators", "starks/floatingpoint.py Fp.__add__/__sub__/__mul__/__truediv__/Float_to_Fix")])

prop("C30", "Additive FFT over binary fields evaluates on the whole affine space",
 "For every binary field, basis and polynomial, the additive FFT returns the polynomial's values on all points spanned by the basis in basis order, and its inverse returns the interpolating polynomial.",
 "for every binary field, basis and polynomial",
 "Tests only call it on fixed inputs without comparing to evaluations.",
 ["starks/fft.py"],
 [("recursion", "starks/fft.py Additive_FFT.adfft, adfft_inverse, Taylor_Expansion")])

prop("C31", "FRI accepts exactly committed low-degree words",
 "The proximity verifier accepts every honestly generated proof for a word of the claimed degree and, up to the stated soundness error, rejects words far from every such codeword.",
 "for every word, rate and adversarial proof",
 "Tests only run the honest prover on one example.",
 ["starks/fri.py"],
 [("commit and query", "starks/fri.py AffineSubspaceFRI, SmoothSubspaceFRI")])

prop("C32", "A verified STARK proof implies a valid execution",
 "Whenever the STARK verifier accepts, a witness satisfying the transition and boundary constraints exists except with the protocol's soundness error, and the honest prover is always accepted.",
 "for every computation, witness and adversarial proof",
 "No test can import the module; soundness is probabilistic and quantifies over adversaries.",
 ["starks/stark.py", "starks/apr.py", "starks/ali.py"],
 [("prover and verifier", "starks/stark.py STARK.mk_proof, STARK.verify_proof")])

prop("C33", "Multivariate division returns quotient and remainder",
 "Dividing a multivariate polynomial by a divisor returns q with dividend = q*divisor + remainder, for every coefficient ring.",
 "for every pair of multivariate polynomials",
 "Tests divide two literals over one modulus.",
 ["starks/multivariate_polynomial.py"],
 [("division through a symbolic-algebra string", "starks/multivariate_polynomial.py MultivariatePolynomial.__truediv__, StrToMulti, division")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
