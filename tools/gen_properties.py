#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
U="algebra/u256/src/"; F="algebra/primefield/src/"; E="algebra/elliptic-curve/src/"
H="crypto/hash/src/"; M="crypto/merkle-tree/src/"; S="crypto/stark/src/"; C="crypto/elliptic-curve-crypto/src/"

p("U01","256-bit addition, subtraction, negation and comparison are exact",
"For every pair of 256-bit integers, addition, subtraction and negation return the mathematical result reduced modulo 2^256, and the comparison operators and equality agree with the integer order. Every way of calling an operation (by value, by reference, in place, and summing an iterator, where the empty sum is zero) gives the same result.",
["inputs"],"all pairs of 256-bit integers (2^512 inputs) and all finite sequences of summands",
"Carries and borrows that ripple through several limbs occur on a vanishing fraction of inputs; the tests use a few constants and random samples.",
[U+"additive.rs",U+"u256.rs",U+"u256_traits.rs",U+"algorithms/limb_operations.rs"],
[("limb carry chain","algebra/u256/src/algorithms/limb_operations.rs adc/sbb"),("operator forwarding","algebra/u256/src/algorithms/binary_operator_macros.rs"),("ordering","algebra/u256/src/u256.rs PartialOrd/Ord")])
p("U02","256-bit shifts, bitwise operations and bit queries are exact",
"For every 256-bit integer and every shift amount, left and right shift give the integer multiplied or floor-divided by the power of two, reduced modulo 2^256 (so zero once the amount reaches 256). Bitwise not/and/or/xor act on each of the 256 bits independently, and the bit queries (single bit, bit length, leading and trailing zero counts) describe the binary expansion of the integer.",
["inputs"],"all 256-bit integers and all shift amounts / bit positions",
"Shifts take different code paths per limb count and at the limb boundaries 0, 64, 128, 192 and 256; tests sample a few constants.",
[U+"binary.rs",U+"traits/binary.rs"],
[("shift by limbs then bits","algebra/u256/src/binary.rs ShlAssign/ShrAssign"),("bit queries","algebra/u256/src/binary.rs Binary impl")])
p("U03","256-bit multiplication and squaring return the exact 512-bit product",
"For every pair of 256-bit integers the full product (low and high halves) equals the mathematical product, squaring equals multiplying an integer by itself, and the truncated product (of two 256-bit integers or of one with a machine word) equals the product modulo 2^256. Multiplication modulo a non-zero modulus returns the product's remainder.",
["inputs"],"all pairs (triples for the modular form) of 256-bit integers",
"A wrong carry in one of the 16 partial products shows up only when specific limbs are near 2^64; tests sample a few constants and random values.",
[U+"multiplicative.rs",U+"division.rs",U+"algorithms/limb_operations.rs"],
[("schoolbook multiply-accumulate","algebra/u256/src/multiplicative.rs"),("mac","algebra/u256/src/algorithms/limb_operations.rs")])
p("U04","256-bit division returns the exact quotient and remainder",
"For every dividend n and every non-zero divisor d, division yields q and r with n = q*d + r and 0 <= r < d; division by zero is reported as absence of a result, never a wrong value. The quotient-only, remainder-only and operator forms, division by a machine word, and reduction of a 512-bit product all agree with this.",
["inputs"],"all dividends (256 and 512 bit) and all divisors (64 and 256 bit)",
"The quotient-digit correction steps of multi-word division trigger with probability about 2^-64 on random input, so sampling never reaches them.",
[U+"division.rs",U+"arch/generic/knuth_division.rs"],
[("Knuth algorithm D","algebra/u256/src/arch/generic/knuth_division.rs"),("dispatch on divisor length","algebra/u256/src/division.rs")])
p("U05","Greatest common divisor, extended gcd and modular inverse are correct",
"For all 256-bit integers a and b the gcd function returns their greatest common divisor, and the extended form returns cofactors satisfying the signed Bezout relation it documents. For every modulus m of at least two, the modular inverse of a modulo m exists exactly when gcd(a, m) = 1 and then is the unique value below m whose product with a is congruent to 1 modulo m.",
["inputs"],"all pairs of 256-bit integers",
"Lehmer's algorithm switches between single-precision, double-precision and full-division steps depending on the leading bits; tests reach a few random pairs.",
[U+"arch/generic/lehmer_gcd.rs" ,U+"functions.rs",U+"division.rs"],
[("Lehmer gcd","algebra/u256/src/arch/generic/lehmer_gcd.rs"),("inverse wrapper","algebra/u256/src/division.rs, functions.rs")])
p("U06","Montgomery arithmetic is correct and fully reduced for every modulus",
"For every supported modulus M and all operands below M, Montgomery reduction, multiplication and squaring return the unique value below M congruent to the operand(s) product times 2^-256 modulo M, and converting into and out of Montgomery form is the identity. The specialised Proth-prime and the generic implementations agree with this definition.",
["inputs","configurations"],"all operands below the modulus; all moduli implementing the parameters",
"The final conditional subtraction and carries between reduction rounds depend on rare limb patterns; tests use a handful of constants on one prime.",
[U+"algorithms/montgomery/mod.rs",U+"algorithms/montgomery/generic.rs",U+"algorithms/montgomery/proth.rs",F+"uint.rs",F+"proth_field.rs"],
[("redc / mul_redc / square_redc","algebra/u256/src/algorithms/montgomery"),("parameters of each field","algebra/primefield/src/proth_field.rs, algebra/elliptic-curve/src/scalar_field.rs")])
p("U07","256-bit integer encodings and conversions round-trip and reject overflow",
"Converting any 256-bit integer to big-endian bytes, hexadecimal (with 0x prefix) or decimal text and back returns the same integer, and the encodings are the standard positional ones. Machine integers convert to the integer they denote (negative ones to their two's complement modulo 2^256); conversions to narrower machine integers succeed exactly when the value fits and the truncating forms return the low bits. Decimal text that is malformed or denotes 2^256 or more is rejected with an error.",
["inputs"],"all 256-bit integers, all byte strings of the right length, all text strings",
"Boundary values around each integer width and near 2^256 are a negligible fraction of the domain; tests sample some.",
[U+"conversion.rs",U+"encoding.rs",U+"u256.rs"],
[("integer conversions","algebra/u256/src/conversion.rs"),("text and bytes","algebra/u256/src/encoding.rs")])
p("F01","Prime field arithmetic equals integer arithmetic modulo the prime",
"For all field elements, addition, subtraction, negation, doubling, multiplication and squaring equal the corresponding integer operation modulo the field prime, whatever mix of value, reference or in-place form is used. Every result is in canonical form, so equality, hashing and conversion back to an integer below the prime agree with equality of the residues.",
["inputs"],"all pairs of elements of the 252-bit field and of the curve's scalar field",
"Wrong reductions appear only for operands close to the prime or for rare carries; unit tests and random sampling do not reach them.",
[F+"prime_field.rs",F+"ops.rs",U+"algorithms/montgomery/proth.rs",U+"algorithms/montgomery/generic.rs",U+"additive.rs"],
[("field operations via redc","algebra/primefield/src/prime_field.rs"),("operator forwarding","algebra/primefield/src/ops.rs")])
p("F02","Field inversion, division, powers and batch inversion are correct",
"Every non-zero field element times its inverse is one, inverting zero is reported as absent, and raising to any power equals repeated multiplication (exponent zero gives one; a negative exponent, except the most negative machine integer, the power of the inverse). Batch inversion of a list of non-zero elements gives exactly the individual inverses in order.",
["inputs"],"all field elements, all exponents, lists of every length",
"Exponents and list lengths are unbounded and the inverse algorithm is data dependent; tests sample a few.",
[F+"prime_field.rs",F+"ops.rs",F+"invert_batch.rs"],
[("pow by squaring","algebra/primefield/src/prime_field.rs"),("Montgomery's trick","algebra/primefield/src/invert_batch.rs")])
p("F03","Square roots and roots of unity have exactly the promised order",
"A requested root of unity of order n exists exactly when n divides the order of the multiplicative group in the supported way and then has multiplicative order exactly n (the root of order zero is one). A square root is returned exactly for quadratic residues and squares back to the input; the multiplicative-group generator and constants of each field are consistent with its prime.",
["inputs","configurations"],"all requested orders, all field elements, both fields",
"Orders range over 2^192 and residuosity over the whole field; tests check a few powers of two.",
[F+"prime_field.rs",F+"proth_field.rs","algebra/elliptic-curve/src/scalar_field.rs"],
[("root","algebra/primefield/src/prime_field.rs Root"),("Tonelli-Shanks sqrt","algebra/primefield/src/prime_field.rs SquareRoot")])
p("F04","The fast Fourier transform evaluates the polynomial at every root of unity",
"For every coefficient list whose length is a power of two, the forward transform returns the polynomial's values at the successive powers of the primitive root (in the documented bit-reversed order) and the shifted transform the values on the shifted coset. The inverse transforms recover the coefficients exactly, and the bit-reversal permutation is an involution that maps each position to its reversed binary index.",
["inputs","configurations"],"all coefficient vectors, all supported power-of-two lengths, all shifts",
"Different lengths run different kernels (unrolled small sizes, recursive, square-root splitting, transposition); tests compare some sizes on a few vectors.",
[F+"fft/mod.rs",F+"fft/small.rs",F+"fft/recursive.rs",F+"fft/radix_sqrt.rs",F+"fft/transpose.rs",F+"fft/bit_reverse.rs"],
[("small/recursive/radix-sqrt kernels","algebra/primefield/src/fft"),("permutation","algebra/primefield/src/fft/bit_reverse.rs")])
p("F05","Field element conversions, encodings and geometric series are exact",
"Converting machine integers (signed ones as negatives modulo the prime), byte strings or hexadecimal text into a field element and back preserves the residue, and conversions back to machine integers succeed exactly when the value, or its negative for signed types, fits. A geometric series yields base times ratio^i at position i, with the right length and the same elements when skipped or strided.",
["inputs"],"all machine integers, field elements and series positions/lengths",
"Extreme integers (such as the most negative one) and series splitting patterns are not sampled by the tests.",
[F+"convert.rs",F+"geometric_series.rs",F+"prime_field.rs",F+"serde.rs"],
[("integer conversion macros","algebra/primefield/src/convert.rs"),("geometric iterator","algebra/primefield/src/geometric_series.rs")])
p("E01","Elliptic curve point arithmetic implements the group law",
"For all points of the curve in affine or Jacobian coordinates, addition, subtraction, doubling and negation return the group-law result, including the identity, equal points, opposite points and every mix of the two coordinate systems. Converting between coordinate systems preserves the point, equality of Jacobian points is equality of the represented points, and results stay on the curve.",
["inputs"],"all pairs of points, all projective representations of each",
"Special cases (equal or opposite points in different projective scalings, the identity) are missed by random points; tests use a few fixed ones.",
[E+"curve.rs",E+"jacobian.rs"],
[("affine chord-tangent","algebra/elliptic-curve/src/curve.rs"),("Jacobian formulas","algebra/elliptic-curve/src/jacobian.rs")])
p("E02","Scalar multiplication equals repeated addition on every route",
"For every scalar and point, every scalar-multiplication route (plain, windowed, fixed-window with precomputed table, and the simultaneous two-scalar form) returns the point added to itself scalar-many times. Scalar zero gives the identity, and signed-digit recodings represent the scalar exactly.",
["inputs"],"all scalars below the group order, all points",
"Recoding corner cases depend on the carry pattern of the scalar's digits; tests check few scalars and not all sign combinations.",
[E+"wnaf.rs",E+"curve.rs",E+"jacobian.rs"],
[("window NAF recoding","algebra/elliptic-curve/src/wnaf.rs"),("double-and-add","algebra/elliptic-curve/src/jacobian.rs")])
p("E03","Signatures verify exactly when they satisfy the ECDSA equation",
"A signature produced by a private key over any message digest verifies under the corresponding public key, and signing is deterministic in key and digest. For a key on the curve and non-zero components, verification accepts a signature exactly when it satisfies the ECDSA verification equation for that key and digest, so changing the digest, the key or a component (other than replacing the second by its negative) invalidates it.",
["inputs"],"all private keys, message digests and signature pairs",
"Tests cover one or two fixed vectors; acceptance must be decided for arbitrary, also malformed, pairs.",
[C+"private_key.rs",C+"public_key.rs",C+"signature.rs"],
[("sign","crypto/elliptic-curve-crypto/src/private_key.rs"),("verify","crypto/elliptic-curve-crypto/src/public_key.rs")])
p("H01","Hashing of values is the 160-bit truncated Keccak of their canonical bytes",
"The hash of a byte string is its Keccak-256 digest with the low 12 bytes cleared, and incremental updates give the same result as one concatenated update. Integers and field elements hash to their 32-byte big-endian encoding (field elements in the internal Montgomery representation), a list with exactly one element hashes as that element, and any other list hashes as the concatenation of the element hashes.",
["inputs"],"all byte strings, chunkings, integers, field elements and lists",
"Tests use fixed vectors; the length-one special case and encodings must hold for every value.",
[H+"masked_keccak.rs",H+"hashable.rs",H+"hash.rs"],
[("masked Keccak","crypto/hash/src/masked_keccak.rs"),("Hashable","crypto/hash/src/hashable.rs")])
p("M01","Merkle tree node indices navigate a complete binary tree consistently",
"Numbering the nodes of a complete binary tree (of depth at most 62) breadth-first, the conversion between a node's number and its depth and offset is a bijection. Parent, left and right child, sibling, left and right neighbour in the row, left/right-ness, first/last-in-row and root tests agree with that tree shape, and the last common ancestor of two nodes is the deepest node that is an ancestor of (or equal to) both.",
["inputs"],"all node numbers representable in a machine word and all pairs of them",
"Tests check a few indices; ancestors of nodes at different depths, equal nodes and the extreme depths are not enumerated.",
[M+"index.rs"],[("index algebra","crypto/merkle-tree/src/index.rs")])
p("M02","Every opening of a Merkle tree verifies against its own commitment",
"For every vector of a power-of-two size and every set of positions, in any order and with repetitions, opening the committed tree yields a proof that verifies against the commitment with the true leaves at those positions, and whose number of hashes equals the size announced for those positions. This holds whichever number of tree layers is stored rather than recomputed.",
["inputs","configurations"],"all leaf vectors, tree depths, position multisets and numbers of stored layers",
"The space of position sets is exponential and stored-layer configurations are not tested.",
[M+"tree.rs",M+"commitment.rs",M+"proof.rs",M+"vector_commitment.rs"],
[("open","crypto/merkle-tree/src/tree.rs"),("sort_indices / proof_size","crypto/merkle-tree/src/commitment.rs"),("verify","crypto/merkle-tree/src/proof.rs")])
p("M03","A Merkle proof accepts only the committed leaves at the opened positions",
"Verification of a Merkle proof succeeds only if the claimed leaves are the committed ones at exactly the positions the proof was opened for: changing any leaf value, claiming a leaf at another position, omitting a leaf, adding one, or altering, dropping or appending proof hashes makes verification return an error. Malformed proofs and claims are rejected with an error rather than a crash.",
["inputs"],"all claims (position/leaf lists) and all proof hash lists against a commitment, assuming collision resistance of the hash",
"Tests flip a few things on one tree; soundness quantifies over every claim an adversary can write.",
[M+"proof.rs",M+"commitment.rs"],
[("verify","crypto/merkle-tree/src/proof.rs")])
p("S01","Prover and verifier transcripts stay in lockstep and bind every message",
"If the verifier reads from a proof the messages in the order in which the prover wrote them, every value read equals the one written, all challenges drawn by both sides are equal, and the proof is consumed exactly. Each challenge is a function of the seed, of every byte written before it and of the number of challenges drawn since the last write; drawn field elements are uniform residues below the prime. The bytes of a proof are a fixed function of the claim, the trace and the proof-of-work nonce: those of the documented protocol.",
["inputs","histories"],"all interleavings of writes and draws and all message contents",
"Tests replay two fixed transcripts; lockstep must hold for every sequence of operations.",
[S+"channel.rs"],[("PublicCoin","crypto/stark/src/channel.rs"),("ProverChannel/VerifierChannel","crypto/stark/src/channel.rs")])
p("S02","Proof of work accepts exactly the nonces that meet the difficulty",
"A nonce is accepted for a challenge exactly when the Keccak hash of the challenge seed and the nonce has at least the required number of leading zero bits. Solving always returns an accepted nonce, and the verifier's and prover's challenges derived from equal transcripts are equal.",
["inputs"],"all seeds, difficulties and nonces",
"Tests check a couple of seeds; a boundary error in the leading-zero comparison is invisible on most nonces.",
[S+"proof_of_work.rs"],[("verify / solve","crypto/stark/src/proof_of_work.rs")])
p("S03","Polynomial evaluation, division and low-degree extension are exact",
"Evaluating a coefficient list at any point gives the polynomial's value, the reported degree is that of the polynomial, and dividing out a point z gives the quotient q with p(X) = q(X)(X - z) + p(z), added with the given weight to an accumulator of the same size (sizes are powers of two). The low-degree extension holds at each documented position the polynomial's value at the corresponding point of the shifted evaluation domain.",
["inputs","configurations"],"all coefficient lists, points, blowups and evaluation positions",
"Tests check a couple of small polynomials and domains.",
[S+"polynomial.rs"],[("Horner / synthetic division","crypto/stark/src/polynomial.rs"),("low_degree_extension","crypto/stark/src/polynomial.rs")])
p("S04","Constraint expressions evaluate identically in tree and graph form",
"For every constraint expression, evaluating the expression tree at a point gives the value defined by its operators, and the compiled evaluation graph gives the same value for every row of the evaluation domain after simplification, sharing and table lookup. The degree reported for an expression is an upper bound on, and for generic inputs equal to, its true numerator and denominator degrees.",
["programs","inputs"],"all expression trees, all points and all rows",
"Tests check a few expressions; simplifications and table periods must be sound for every tree.",
[S+"rational_expression.rs",S+"algebraic_dag.rs"],
[("evaluate/degree","crypto/stark/src/rational_expression.rs"),("AlgebraicGraph","crypto/stark/src/algebraic_dag.rs")])
p("S05","FRI folding by prover and verifier compute the same polynomial folding",
"Folding a coset of evaluations of a polynomial f with challenge c yields the evaluation at the squared point of the polynomial f_even + c*f_odd up to the protocol's fixed factor of two, and folding by 2^k equals k successive folds with c, c^2, c^4 and so on. The prover's layer-wise folding and the verifier's per-query folding agree at every queried position.",
["inputs","configurations"],"all evaluation vectors, challenges, cosets and fold arities",
"Tests only run whole proofs over a few layouts; agreement per position must hold for all values.",
[S+"verifier.rs",S+"prover.rs"],[("fri_fold","crypto/stark/src/verifier.rs"),("FRI layering","crypto/stark/src/prover.rs")])
p("S06","Honest proofs verify and every altered or mismatched proof is rejected",
"For every satisfiable claim, trace and admissible parameter choice, the proof produced verifies. The verifier accepts only if every check of the protocol passes: changing any byte of the proof, truncating or extending it, or verifying it against a different claim (other seed, or constraints that take other values on the trace), another blowup, query count or FRI layout or a difficulty that its nonce does not meet makes verification not accept.",
["inputs","configurations","fault_sequences"],"all proofs, claims and parameters; all single alterations",
"Tests tamper with very few bytes of one proof; a dropped check is invisible to honest proofs.",
[S+"verifier.rs",S+"prover.rs",S+"constraints.rs",S+"lib.rs"],
[("verify","crypto/stark/src/verifier.rs"),("prove","crypto/stark/src/prover.rs")])
p("S07","The combined constraint detects every violated constraint",
"For constraints written as quotients of expressions without nested zero divisions, a trace satisfies all constraints if and only if the constraint checker accepts it, and a proof exists only then: for any trace that violates at least one constraint at one row the checker reports that row and constraint and proving does not yield a proof that verifies. Degree adjustment makes every constraint term reach the same degree, so no constraint is silently dropped or weakened in the random combination.",
["inputs","programs"],"all traces and constraint systems, every violating row",
"Tests check satisfied traces and a few violations.",
[S+"constraint_check.rs",S+"constraints.rs",S+"prover.rs"],
[("combine","crypto/stark/src/constraints.rs"),("check_constraints","crypto/stark/src/constraint_check.rs")])
p("S08","Composed components have exactly the constraints and traces of their parts",
"Composing components horizontally, vertically (equal claims) or by folding, nested in any way, gives a component whose trace contains each part's trace in the documented layout and whose constraints are those of the parts on their sub-traces, so that they are satisfied exactly when each part's are. Mapping a part's cell up gives the cell of the composition that holds it.",
["programs","inputs"],"all component trees, sub-traces and cells",
"Tests compose small example components and only check satisfied traces.",
[S+"component/mod.rs"],[("Fold/Horizontal/Vertical/Mapped","crypto/stark/src/component")])
p("A01","Memory-mapped vectors behave like ordinary vectors",
"For every sequence of operations that stays within the declared capacity, a memory-mapped vector holds the same elements, in the same order and with the same length, as an ordinary vector given the same operations, and each element is dropped exactly once. Operations that would exceed the capacity (or whose capacity cannot be allocated) fail without corrupting existing elements; so does an element whose clone or drop panics.",
["histories","inputs"],"all operation sequences, capacities and element values",
"Tests perform a couple of short sequences.",
["utils/mmap-vec/src/mmap_vec.rs"],[("MmapVec","utils/mmap-vec/src/mmap_vec.rs")])
p("A02","Literal macros denote the number that is written",
"Every hexadecimal literal accepted by the compile-time macros denotes exactly the written number, as a 256-bit integer, a byte array or a field element (reduced into internal Montgomery form), and text that is not a valid literal or does not fit (more than 32 bytes for integers and field elements) is rejected at compile time.",
["inputs","programs"],"all literal texts",
"Tests use a handful of literals.",
["utils/macros-lib/src/lib.rs","utils/macros-decl/src/lib.rs"],[("literal conversion","utils/macros-lib/src/lib.rs")])
if __name__=="__main__":
    import os
    os.chdir("/verif")
    with open("properties.jsonl","w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P))
