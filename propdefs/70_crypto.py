CR = "lib/crypto/src/"
P("L01", "A Merkle proof is accepted exactly when it leads from the leaf to the root",
  "verify accepts a proof if and only if hashing the leaf with the proof's nodes in turn, each pair in ascending order, gives the root; so one proof shows at most one leaf for a root. With the default builder the hash is keccak256.",
  "inputs", "all leaves, roots and proof nodes, for every proof up to the bounded length",
  "Tests check a few fixed trees; a wrong acceptance needs a crafted proof.",
  CR + "merkle.rs " + CR + "hash.rs " + CR + "keccak.rs", [("verify", CR + "merkle.rs:verify_with_builder"), ("pair hash", CR + "hash.rs:commutative_hash_pair"), ("keccak", CR + "keccak.rs")],
  "crypto", "merkle_single merkle_binding merkle_pair merkle_keccak",
  bounds="proofs of up to 6 (thorough 8) nodes; the binding obligation up to 2 (3) nodes; KeccakBuilder itself on concrete inputs of ten lengths",
  assumptions=["keccak256 is collision-free (the hash is a parameter of the verifier: the harness passes one that the executor models as an injective function)"])
P("L02", "A Merkle multi-proof proves every leaf it is given",
  "verify_multi_proof accepts exactly when the tree described by the flags, built from all the leaves and all the proof nodes, has the given root. A multi-proof whose sizes do not match, which has flags but no leaves, or whose flags run out of nodes is an error, never an acceptance or an abort.",
  "inputs", "all leaves, roots, proof nodes and flag sequences within the bounded sizes",
  "The known attacks on multi-proofs use unusual flag sequences and sizes that fixed test trees never contain.",
  CR + "merkle.rs", [("verify_multi_proof", CR + "merkle.rs:verify_multi_proof_with_builder")],
  "crypto", "merkle_multi_sizes merkle_multi_0 merkle_multi_1 merkle_multi_2 merkle_multi_3 merkle_multi_4",
  bounds="up to 4 leaves and 4 (thorough 5) proof nodes, every flag sequence; sizes up to 4 leaves, 4 nodes and 9 flags",
  assumptions=["keccak256 is collision-free"])
P("L03", "Big integers: arithmetic, comparison, bits and conversions are exact",
  "Addition, subtraction, doubling and halving return the exact result together with the right carry or borrow; comparisons agree with the numeric order; bit access, bit length, big-endian bit iteration, byte conversion, parsing of digits and the remainder of a double-width dividend agree with the value. The asserting operations abort exactly on overflow or invalid digits.",
  "inputs", "all values of 1, 2, 4 and 7 limbs; digit strings up to the bounded length",
  "Carries across limbs and unrolled-loop remainders go wrong for values random tests practically never draw.",
  CR + "arithmetic/uint.rs " + CR + "arithmetic/limb.rs " + CR + "bits.rs " + CR + "const_helpers.rs", [("limbs", CR + "arithmetic/limb.rs"), ("Uint", CR + "arithmetic/uint.rs"), ("bits", CR + "bits.rs")],
  "crypto", " ".join("big_%s_%d" % (k, n) for k in ("arith", "compare", "bits", "width", "convert") for n in (1, 2, 4, 7)) + " big_parse_hex big_parse_dec big_rem_wide big_rem_short",
  bounds="1, 2, 4 and 7 limbs; digit strings of up to 3 (thorough 4) arbitrary digits; remainders: dividends of up to 6 (10) bits by 16-bit divisors, and two-limb dividends with a high limb below 4 (8) by four full-width divisors")
P("L04", "Big-integer and field multiplication are exact",
  "The widening product of two integers is their product. The product and the square of field elements are the product modulo the field's prime, in reduced form, and conversion between elements and integers keeps the value modulo the prime.",
  "inputs", "all operands of 1, 2 and 4 limbs, for real prime fields with and without a spare bit in the top limb",
  "A lost carry in a 256-bit multiplication shows for a fraction of inputs too small for any test to meet.",
  CR + "field/fp.rs " + CR + "arithmetic/uint.rs " + CR + "arithmetic/limb.rs", [("Montgomery multiplication", CR + "field/fp.rs:ct_mul"), ("widening product", CR + "arithmetic/uint.rs:ct_widening_mul")],
  "crypto", "wide_mul_1 wide_mul_2 wide_mul_4 field_from_goldilocks " + " ".join("field_%s_%s" % (k, f) for f in ("goldilocks", "babybear", "full2", "full", "bls12", "bn256") for k in ("mul", "sq")) + " " + " ".join("field_into_" + f for f in ("goldilocks", "babybear", "full2", "full", "bls12", "bn256", "vesta", "pallas")),
  bounds="1, 2 and 4 limbs; products in the fields of Goldilocks, BabyBear, BLS12-381 (scalar), BN256 (scalar), and two moduli of 128 and 256 bits without a spare bit; element-to-integer also for Vesta and Pallas; integer-to-element for Goldilocks; products in Vesta and Pallas are outside",
  assumptions=["the moduli are the constants of the crate (their primality is not used)"])
P("L05", "Field addition, subtraction, negation and comparison are exact",
  "The sum, difference, negation and double of field elements, and sums over iterators, are those of the integers modulo the prime, in reduced form, so equal elements always compare equal; the field's constants (one, the Montgomery constants, the modulus) agree with the modulus.",
  "inputs", "all operands, for every field the crate ships and two moduli without a spare bit",
  "The wrong reduction shows only when the sum lies next to the modulus or to the word size.",
  CR + "field/fp.rs " + CR + "field/instance.rs", [("add_assign and friends", CR + "field/fp.rs:FpParams"), ("instances", CR + "field/instance.rs")],
  "crypto", " ".join("field_lin_" + f for f in ("goldilocks", "babybear", "full2", "full", "bls12", "bn256", "vesta", "pallas")),
  bounds="1, 2 and 4 limbs; sums over iterators of two elements")
P("L06", "Curve points add, double, negate, compare and multiply by the group law",
  "Addition, subtraction, doubling and negation of points in any mix of projective and affine form give the chord-and-tangent result, including equal, opposite and infinite points; equality compares the points and not their coordinates. Conversion between the forms keeps the point, the curve test is the curve equation, and multiplication by an integer is repeated addition, also by the cofactor and for the subgroup test.",
  "inputs", "all coordinates and representations, every combination of special points, all scalars within the bound",
  "Exceptional cases (equal, opposite or infinite operands, unusual representations, other coefficients) are rarely met by sampled points, and a wrong formula shows only on particular curves.",
  CR + "curve/sw/projective.rs " + CR + "curve/sw/affine.rs " + CR + "curve/sw/mod.rs " + CR + "curve/mod.rs",
  [("addition, doubling", CR + "curve/sw/projective.rs"), ("affine forms", CR + "curve/sw/affine.rs"), ("double and add", CR + "curve/sw/mod.rs")],
  "crypto", "cv_a0_add cv_a0_sub cv_a0_dbl cv_a0_eq cv_a0_mem cv_a5_add cv_a5_sub cv_a5_dbl cv_a5_mem cv_b0_mem cv_e3_dbl cv_conv cv_mul_a0 cv_mul_a cv_grp",
  bounds="addition, doubling, negation, equality and the curve equation: polynomial identities over the ring of integers modulo 2^32 for one curve with a = 0 and one with a != 0 (so they hold over every field); conversions, multiples by scalars below 64 (thorough 256), cofactor and subgroup: curves of order 12 and 10 over the field of 7 elements",
  assumptions=["a point's coordinates are compared up to the common units 1, -1, 2 and -2; a formula scaled by another unit would be reported although right"])
P("L07", "Poseidon2 computes the specified permutation and sponge for every state size",
  "For every supported state size the permutation is the one of the Poseidon2 paper (external matrix first, half the full rounds, the partial rounds, the other half, each adding its constants, applying the S-box and the round's matrix). Absorbing adds elements after the capacity and permutes exactly when the rate is full, squeezing permutes before the first and after every rate outputs, and absorbing after squeezing aborts.",
  "inputs", "all absorbed elements, for each state size and the bounded numbers of elements absorbed and squeezed",
  "Known-answer tests fix one input per instance and cover few state sizes; sponge boundaries (full rate, nothing absorbed, more outputs than the rate) are not sampled.",
  CR + "poseidon2/mod.rs", [("permute", CR + "poseidon2/mod.rs:permute"), ("absorb, squeeze", CR + "poseidon2/mod.rs"), ("matrices", CR + "poseidon2/mod.rs:matmul_external")],
  "crypto", "pos_2 pos_3 pos_4 pos_8 pos_12 pos_16 pos_20 pos_24",
  bounds="state sizes 2, 3, 4, 8, 12, 16, 20 and 24 with 2 to 8 full and 1 to 6 partial rounds; up to 16 absorbed elements, up to one more output than the rate; elements of the ring of integers modulo 2^32 with the S-box an arbitrary function",
  assumptions=["the instances' own parameters (round constants, diagonals) are not checked"])
P("L08", "Field inverses, quotients, powers and integer conversions are exact",
  "The inverse of a non-zero element times the element is one and zero has none; a quotient times its divisor is the dividend and division by zero aborts; inverting a batch inverts each element and leaves zeros; a power is the repeated product. Signed integers become the element of their absolute value or its negation, and an element becomes an integer of any width with the same value or aborts when it does not fit.",
  "inputs", "all elements of the small fields, all ring elements for powers, all integers of each width",
  "Inversion is a data-dependent loop and the carry cases need moduli without a spare bit; tests sample a few operands.",
  CR + "field/fp.rs " + CR + "field/mod.rs " + CR + "curve/mod.rs", [("inverse", CR + "field/fp.rs:inverse"), ("conversions", CR + "field/fp.rs:impl_fp_from_signed_int"), ("pow", CR + "field/mod.rs:pow"), ("batch_inversion", CR + "curve/mod.rs:batch_inversion")],
  "crypto", "finv_13 finv_61 finv_64 finv_goldilocks fdiv_13 fsigned_goldilocks fsigned_64 funsigned_goldilocks funsigned_babybear cv_inv7 cv_pow cv_pow_big",
  bounds="inverses: all elements of the fields of 13 and 61, and in Goldilocks and a 64-bit field without a spare bit the elements whose stored form is within 4 of zero or of the modulus; quotients: the field of 13; batches of up to 2 (thorough 3) elements; exponents 0 to 32 (thorough 132), 127, 200 and 255; integers of up to 64 bits")
