TECH = ("contract-based deductive verification of the real code: the monomorphised MIR of /repo's current functions is exported by rustc on every run, "
        "executed symbolically function by function against contracts at calls, and every postcondition/invariant is discharged by z3 or polynomial normalisation; "
        "failed obligations are replayed on the compiled code")
def c(note, level="proof"): return (level, note)
CLAIMED = {
 "U01": c("all inputs, no bound; sum over an iterator bounded to lengths 0..3"),
 "U02": c("all inputs, no bound"),
 "U03": c("all inputs; the modular product relies on the division contract (proved in U04)"),
 "U04": c("all inputs, no bound"),
 "U05": c("the outer loops of gcd, gcd_extended and inv_mod for every pair of arguments by loop invariants (partial correctness), over the contract of lehmer_double; mat_mul, div1 and the Newton inverse modulo 2^256 for all inputs; the contract of lehmer_double itself (valid unimodular matrix) by native search (bounded)"),
 "U06": c("all operands for the listed moduli; compile-time parameters by native search"),
 "F01": c("all inputs, both fields"),
 "F02": c("inverse and exponentiation for all inputs (modulo the inverse contract of U05 for the gcd loop); batch inversion for lengths 0..N; larger by native search (bounded)"),
 "F03": c("the generator has full order; root(n) for every n over the contracts of division (U04) and powers (F02); is_quadratic_residue and square_root for every element, written as a power of the generator, over the field contracts (F01)"),
 "F04": c("fft and ifft for any values at every size 1..1024, the other transforms at sizes up to 256, permute_index for every size and index; larger sizes by native search (bounded)"),
 "F05": c("integer conversions in both directions and the Montgomery form for every value; geometric series for any base, ratio and length; text forms by native search (bounded)"),
 "E01": c("group law of Affine/Jacobian for all points as polynomial identities over the field contracts (F01)"),
 "E02": c("every route for every scalar and point over the group-law contracts of E01: plain double-and-add split by the scalar's top bit (calling conventions other than reference/reference: selected top bits), windowed routes over the contract of the signed recoding, the recoding itself (loop invariant, windows 5 and 7), batch conversion (up to 8 points, every pattern of infinities) and window tables (sizes 1,2,8,32)"),
 "E03": c("verification for every key on the curve, digest and non-zero components; public key for every private key; signing for every key and digest up to three degenerate nonces (bounded), all over the contracts of E01/E02/F05; the nonce hash by native comparison (bounded)"),
 "H01": c("digest structure of every hashing route for every value at the lengths used (1..8 elements; slices of hashes, U256, field elements), over Keccak-256 as an uninterpreted contract function; the Keccak implementation itself by native comparison with an independent implementation (bounded)"),
 "M01": c("index arithmetic, last common ancestor and Commitment::new for all inputs; sort_indices and proof_size for up to 3/2 positions, larger by native search (bounded)"),
 "M02": c("tree construction, leaf/root, decommitment size and acceptance of honest decommitments for every leaf value at fixed tree sizes up to 128 leaves and index sets, over the uninterpreted hash; larger by native search (bounded)"),
 "M03": c("a verified proof recomputes exactly the root from the claimed leaves, for every value of leaves, hashes and root at fixed tree sizes and index sets, over the uninterpreted (collision-free by congruence only) hash; larger by native search (bounded)"),
 "S01": c("coin, channel writes and reads, draws (loop invariant for the rejection loop), query indices (sizes up to 4), coefficients: for every state and message over the uninterpreted digest; the order of messages in prove/verify by native comparison with an independent reference prover (bounded)"),
 "S02": c("threshold and verify for every challenge and nonce; the solver by one arbitrary iteration of one worker under interference of the others plus the driver over that contract; small difficulties natively (bounded)"),
 "S03": c("polynomial evaluation, division, low-degree extension, interpolation and table access for every coefficient and point at the listed sizes (1 to 64 coefficients, tables to 16x3), over the field contracts; other sizes natively (bounded)"),
 "S04": c("tree evaluation, degree and claim substitution proved per variant over contracts on the children, hence for every expression by structural induction; the compiled graph: the constraint polynomials the prover derives equal the interpolation of the tree's values on the whole domain, for general values, for every operator over every kind of leaf and selected deeper trees on domains up to 64 points (bounded in shape), further shapes by native comparison (bounded)"),
 "S05": c("single folds, multi-folds and the prover layering for every polynomial and challenge on the listed domains (layers of up to 128 coefficients) and layouts, over the field contracts; whole proofs by native comparison with an independent reference prover (bounded)"),
 "S06": c("verify accepts exactly when every check of the protocol passes on the data read in order, for every proof content and drawn value over the channel, Merkle, proof-of-work and field contracts, at the listed shapes; the prover: composition polynomial, openings, order of messages, and a proof is returned only if verified; other shapes by native search with a cheating reference prover (bounded)"),
 "S07": c("checked value per kind of expression over contracts on the children (structural induction, without nested zero divisions), the checker for any table at the listed sizes, degree-adjusted combination for any coefficients and values; whole claims natively (bounded)"),
 "S08": c("over arbitrary components given by the contract of their trait: every write and every cell of a constraint lands where the layout says, sizes, whole constraints by value, for the listed fold depths and repetitions; nesting by native search (bounded)"),
 "A01": c("every operation, for elements of arbitrary type with recorded clones and drops, any capacity, lengths 0, 1, 2, 3, 4, 7, 16 and 33, over a memory-map model; longer vectors and files on disk by native search (bounded)"),
 "A02": c("hex bytes to limbs for every content of 0 to 33, 40 and 64 bytes; the conversion into internal form for every number; parsing and generated tokens by native comparison (bounded)"),
 "U07": c("integer conversions and bytes for all inputs; text by native search (bounded)"),
}
NOT_APPLICABLE = {}
NOTES = "See DESIGN.md."
