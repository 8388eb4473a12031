EXP = ["bandersnatch/exponents/exponents.go", "bandersnatch/exponents/glv_transform.go", "internal/utils/bigIntConversion.go"]
prop("E01", "Scalar decomposition for the endomorphism is exact and short",
 "For every exponent t, the two-part decomposition (u, v) used for fast scalar multiplication satisfies u + v*lambda = t modulo the subgroup order p253, where lambda is the eigenvalue of the endomorphism. Both |u| and |v| are below 2^126, and no other such pair has a smaller maximum of |u| and |v|.",
 ["inputs"], "all 2*p253 exponent values",
 "the tests sample random exponents; rounding at cell boundaries of the lattice is hit with negligible probability",
 EXP, [("decomposition", "bandersnatch/exponents/glv_transform.go:GLV_representation"), ("sign/magnitude storage", "bandersnatch/exponents/exponents.go:glvExponent")],
 ['int'], "every exponent value (2*p253 of them), no bound below the type's range; big.Int is modelled as mathematical integers; optimality against the six neighbours in the lattice")
prop("E02", "Exponent arithmetic is arithmetic modulo 2*p253",
 "Exponents behave as integers modulo 2*p253: conversion from any integer reduces, conversion back gives the unique representative in [0, 2*p253), and addition, subtraction, negation and multiplication agree with modular integer arithmetic, also when operands and receiver coincide. Reduction to the prime-order subgroup yields the representative modulo p253 and the zero/one tests agree with the value.",
 ["inputs"], "all exponent pairs, all int64/uint64 and all integers up to 2^300 in absolute value",
 "the tests sample random values, and alias patterns and carry/borrow boundaries are a vanishing fraction",
 EXP, [("add/sub/neg/mul", "bandersnatch/exponents/exponents.go:Exponent"), ("subgroup reduction", "bandersnatch/exponents/exponents.go:ModuloP253")],
 ['int'], "all exponent values; integers for conversion up to 2^300 in absolute value; big.Int is modelled as mathematical integers")
COM = ["bandersnatch/common/fe_endianness.go"]
prop("C01", "Byte-order layout of multi-word values is exact",
 "For both byte orders, writing a 256-bit value (or a 16, 32, 64-bit value) stores exactly its bytes in that order in the leading bytes of the output, and reading inverts this. Bytes behind the value, the input and the capacity of the slice are left alone; slices that are too short cause a panic and nothing is written. Setting the order accepts exactly the two standard byte orders and values of the type itself.",
 ["inputs"], "all 2^256 values, both orders, every slice length up to 36",
 "tests use a handful of values and lengths; a swapped word, an off-by-one length check or a write through the capacity shows only for particular ones",
 COM, [("256-bit access", "bandersnatch/common/fe_endianness.go:FieldElementEndianness")],
 ['bv'], "all values; slice lengths up to 36 for 256-bit access and up to 10 for smaller ones")
prop("C02", "Bit headers, subgroup restrictions and trust levels keep what was put into them",
 "A bit header is accepted exactly if its length is at most 8 and no bit is set outside of that length, and an accepted header is read back unchanged through every accessor. Subgroup restriction flags return the value last set, the fixed subgroup-only variant cannot be lifted, and trust levels convert from and to booleans without loss.",
 ["inputs"], "all 256*256 header arguments, all flags",
 "tests check a few headers; the validity boundary (length 8, single stray bit) is not covered exhaustively",
 ["bandersnatch/common/embedded_params.go", "bandersnatch/common/common_constants.go"], [("bit header", "bandersnatch/common/embedded_params.go:BitHeader")],
 ['bv'], "all arguments")
U256 = ["bandersnatch/fieldElements/uint256.go"]
prop("F01", "256-bit and 512-bit integer arithmetic is exact",
 "Uint256 addition, subtraction, multiplication, increment and decrement compute the integer result modulo 2^256 (with the exact carry or borrow where one is returned), the long products and squares are the full 512-bit or 320-bit products, shifts by up to 64 bits shift, BitLen, comparisons and zero/one tests agree with the integer, and conversions to and from big.Int, uint64 and between the two sizes keep the value and panic exactly if it does not fit. All of this also holds if receiver and operands coincide.",
 ["inputs"], "all operand values and alias patterns",
 "a carry that is lost only for particular word patterns has probability 2^-64 under random testing",
 U256, [("carry chains", "bandersnatch/fieldElements/uint256.go:Uint256"), ("long products", "bandersnatch/fieldElements/uint256.go:LongMul")],
 ['int', 'bv'], "all values; big.Int arguments up to 600 bits; shift amounts 0..64")
prop("F02", "Modular reductions of 256-bit numbers keep the residue and the promised range",
 "Addition, subtraction, doubling, negation, multiplication and squaring of residues modulo the base field size yield a number congruent to the exact result, for every operand in the documented input range and every alias pattern; the result is in the documented output range ([0,q), [0,2q), [0,2^256-q) or [0,2^256)). The reduction functions, including the reduction of 512-bit numbers, keep the residue and reach their range, and the range predicates are exact.",
 ["inputs"], "all operands in the documented ranges",
 "the boundary cases (results within 2^-64 relative distance of a multiple of the modulus) are out of reach of random tests",
 ["bandersnatch/fieldElements/uint256_modular.go", "bandersnatch/fieldElements/modulus.go"],
 [("addition and subtraction", "bandersnatch/fieldElements/uint256_modular.go:addAndReduce_b_c"), ("Barrett reduction", "bandersnatch/fieldElements/uint256_modular.go:ReduceUint512ToUint256_a")],
 ['int'], "all operands in range; products are composed from the separately proved contracts of the long product and the 512-bit reduction")
prop("F03", "Montgomery multiplication and conversion are exact modulo the field size",
 "For operands below 2^256 - q (q the base field size), Montgomery multiplication and squaring return a z with z*2^256 congruent to x*y modulo q and z below 2^256 - q, for every alias pattern of the operands, in the optimized and in the reference implementation. Leaving Montgomery form returns the z below q with z*2^256 congruent to x; entering it returns a z below 2^256 - q with z congruent to x*2^256. Inputs other than the receiver are unchanged.",
 ["inputs"], "all operands in the documented range",
 "carries out of the top words occur only for operands next to the range limits, which random tests do not reach",
 ["bandersnatch/fieldElements/uint256_montgomery.go"],
 [("multiplication", "bandersnatch/fieldElements/uint256_montgomery.go:mulMontgomery_Unrolled_c"), ("conversion", "bandersnatch/fieldElements/uint256_montgomery.go:FromMontgomeryRepresentation_fc")],
 ['int'], "all operands in range; whole multiplications are composed from the separately proved contract of one reduction step, loops are cut at their head by a proved invariant")
prop("F04", "Field element operations are the operations of the field",
 "In whatever valid internal representation the operands are given, addition, subtraction, doubling, negation, multiplication, squaring, multiplication by five and their in-place forms yield the sum, difference, ... modulo the base field size in a valid representation, for every alias pattern of receiver and operands, and operands keep their value. Equality, the tests for zero and one, and the comparison up to sign depend on the field value only. Normalization yields the unique smallest representation without changing the value.",
 ["inputs"], "all field values in all valid representations, all alias patterns",
 "values have several representations only in a small range, and the boundary representations are not reached by random tests",
 ["bandersnatch/fieldElements/field_element_montgomery.go"],
 [("operations", "bandersnatch/fieldElements/field_element_montgomery.go:Add"), ("predicates", "bandersnatch/fieldElements/field_element_montgomery.go:IsEqual")],
 ['int'], "all values; multiplication through its contract, which F03 discharges")
prop("F05", "Conversions, inversion and division of field elements are exact",
 "Field elements set from (signed) machine integers, 256-bit integers and big integers are the integer modulo the base field size; conversion back gives the smallest non-negative representative, and conversion to machine integers fails with the documented error exactly if the value does not fit. The sign is that of the representative of smallest absolute value. Operations with a machine integer operand agree with those on the converted operand. Inverse and quotient multiply back to the dividend, in every alias pattern; division by zero panics with the documented error and leaves the receiver alone. Writing the internal representation to bytes and reading it back keeps the value.",
 ["inputs"], "all values and representations",
 "borders of the machine integer ranges and negative big integers are single points of the field",
 ["bandersnatch/fieldElements/field_element_montgomery.go", "bandersnatch/fieldElements/uint256_montgomery.go"],
 [("conversion", "bandersnatch/fieldElements/field_element_montgomery.go:SetBigInt"), ("inversion", "bandersnatch/fieldElements/field_element_montgomery.go:Inv")],
 ['int'], "all values; big integers below 2^320; Montgomery conversion and multiplication through their contracts (re-proved here); inversion of big integers by its specification")
prop("F06", "Serialization of numbers and field elements is exact and reports errors",
 "Serializing a 256-bit number or a field element writes the 32 bytes of its smallest non-negative representative in the chosen byte order with the prefix in the topmost bits, and deserializing gives the number and prefix back, for every value, prefix, byte order, and way in which the stream delivers the bytes; field elements given by a number that is not smallest are read modulo the field size and reported. If the prefix does not fit, nothing is written; if the stream fails or ends early, the prefix length is invalid or the prefix is not the expected one, the documented error is returned and the receiver is untouched. The counts of bytes read and written, returned and in the error data, are exact, as are the bytes reported as read.",
 ["inputs", "fault_sequences"], "all values and prefixes, both byte orders, stream faults after 0, 1, 31, 32 bytes or never, several ways to split the reads",
 "the tests use random values: non-normalized encodings and faults in the middle of multi-part reads combined with prefix mismatches are not covered together",
 ["bandersnatch/fieldElements/field_element_serialize.go", "bandersnatch/fieldElements/uint256_serialize.go", "internal/errorTransform/error_transform.go", "bandersnatch/common/embedded_params.go"],
 [("field elements", "bandersnatch/fieldElements/field_element_serialize.go:DeserializeWithExpectedPrefix"), ("numbers", "bandersnatch/fieldElements/uint256_serialize.go:Deserialize")],
 ['bv'], "all values and prefixes; faults at 5 positions, 9 (thorough: 27) kinds of readers; the change to and from Montgomery representation as an abstract bijection (the real one is verified by F03)")
prop("F07", "Batch operations on field elements equal the repeated single ones",
 "Products and sums of several field elements, given as values or as pointers, are the product and sum of their values (one and zero for none), whatever element is the receiver. Inverting several elements at once replaces each by its inverse; if one of them is zero, all keep their values and the error tells exactly which ones are zero, in numbers, flags and the message.",
 ["inputs"], "all values, all positions of zeros, the receiver any of the operands",
 "tests use random elements with few zeros; the order in which partial products are taken back matters only for particular positions and alias patterns",
 ["bandersnatch/fieldElements/field_element_batch.go", "bandersnatch/fieldElements/errors.go"],
 [("batch inversion", "bandersnatch/fieldElements/field_element_batch.go:MultiInvertEq"), ("products", "bandersnatch/fieldElements/field_element_batch.go:MultiplySlice")],
 ['int'], "up to 3 (thorough: 5 for sums and products, 4 for inversion) operands; multiplication and inversion through their contracts (F03, F05), with the additional fact that the field has no zero divisors")
prop("F08", "Exponentiation computes the power, for every exponent",
 "Raising a field element to a 256-bit exponent gives exactly that power, zero to the zero being one, in fully reduced form, whether or not base and result coincide; base and exponent keep their values. This holds for square-and-multiply (the one used) and for the sliding window variant, whose decomposition splits every number into odd digits of at most the window's size at strictly decreasing positions.",
 ["inputs"], "all bases, all 256-bit exponents (sliding windows: exponents with an arbitrary window of bits)",
 "tests sample random exponents; carries between words, short exponents and runs of zeros over word borders are special cases of the code",
 ["bandersnatch/fieldElements/uint256_montgomery.go", "bandersnatch/fieldElements/uint256.go"],
 [("square and multiply", "bandersnatch/fieldElements/uint256_montgomery.go:modularExponentiationSquareAndMultiplyMontgomery_fa"), ("sliding window", "bandersnatch/fieldElements/uint256_montgomery.go:modularExponentiationSlidingWindowMontgomery_fa"), ("decomposition", "bandersnatch/fieldElements/uint256.go:SlidingWindowDecomposition")],
 ['bv'], "square and multiply: all exponents, by a proved loop invariant on powers of a generic base. Sliding window: exponents with 6 (thorough: 9) arbitrary bits at 6 (13) places and all others clear or set; multiplication through its contract (F03)")
prop("F09", "Square roots are found exactly if they exist",
 "Taking the square root of a field element succeeds exactly if the element is zero or a square, whatever its representation, and then yields an element whose square it is; otherwise the receiver keeps its value. Argument and receiver may coincide.",
 ["inputs"], "all values and representations; all 2^32 roots of unity that occur on the way",
 "the logarithm in the group of 2^32 roots of unity works on blocks of bits from tables: a wrong entry or block shows for one in 256 or fewer elements, a wrong addition chain for all but its tests compare only with itself",
 ["bandersnatch/fieldElements/field_element_square_root.go", "bandersnatch/fieldElements/field_element_montgomery.go"],
 [("logarithm", "bandersnatch/fieldElements/field_element_square_root.go:invSqrtEqDyadic"), ("addition chain", "bandersnatch/fieldElements/field_element_square_root.go:sqrtAlg_ComputeRelevantPowers"), ("tables", "bandersnatch/fieldElements/field_element_square_root.go:sqrtPrecomp_PrecomputedBlocks")],
 ['bv', 'int'], "all values; the addition chain on powers of a generic element, the logarithm on exponents of the root of unity, the tables entry by entry, and the composition with the contracts of these parts")
prop("F10", "The Jacobi symbol tells squares from non-squares",
 "The Jacobi symbol of a field element (or of a 256-bit number modulo the base field size) is 0 for zero, 1 for squares and -1 for all others, for every number, reduced or not; the argument keeps its value.",
 ["inputs"], "all 256-bit numbers, all states of the loop",
 "the rules for removing factors of two and exchanging the numbers depend on a few bits of intermediate values, and runs of 64 or more zero bits have a path of their own that random tests never take",
 ["bandersnatch/fieldElements/uint256_modular.go", "bandersnatch/fieldElements/field_element_montgomery.go"],
 [("binary algorithm", "bandersnatch/fieldElements/uint256_modular.go:jacobiV1_a")],
 ['bv'], "one round of the loop from every state, against the quadratic reciprocity law and its supplements; counterexamples are confirmed by comparison with math/big")
prop("F11", "The reference implementation on big integers computes in the field",
 "The implementation of field elements on big integers, against which the fast implementation is tested, computes sums, differences, products, quotients, negatives, doubles, squares, five-fold values and inverses modulo the base field size for all elements and when arguments and receivers are the same object; results are in the unique reduced representation; operands other than the receiver are unchanged; dividing by zero and inverting zero panic with ErrDivisionByZero and leave the receiver alone; comparisons, sign and conversions from and to integers agree with the value.",
 ["inputs"], "all elements, all alias patterns",
 "an oracle which is wrong for some element or alias pattern hides the same mistake in the implementation it checks",
 ["bandersnatch/fieldElements/field_element_bigInt.go"], [("reference implementation", "bandersnatch/fieldElements/field_element_bigInt.go:bsFieldElement_BigInt")],
 ['int'], "all elements and alias patterns; one operation")
prop("E03", "Signed-digit recoding of scalars represents the scalar",
 "Splitting a signed 128-bit scalar into signed digits for scalar multiplication yields odd digits of at most the requested number of bits at strictly ascending positions whose weighted sum is exactly the scalar. The 128-bit helper arithmetic (sum and product modulo 2^128, conversion from and to integers, sign, single bits and bit ranges) is exact.",
 ["inputs"], "all signed 128-bit scalars, digit widths 1 to 8",
 "the carry out of the top digit and digits that straddle the word boundary occur only for particular bit patterns",
 EXP, [("recoding", "bandersnatch/exponents/glv_transform.go:decomposeUnalignedSignedAdic"), ("128-bit helpers", "bandersnatch/exponents/exponents.go:uint128")],
 ['bv','int'], "all 128-bit scalars by induction over the loop (cut at its head by a proved invariant) for digit widths 1, 3, 4 (quick) and 1..8 (thorough); in addition unabstracted runs over 9-bit windows")
prop("U01", "Conversion between integers and four-word arrays keeps the value",
 "Converting a four-word array to an integer and back restores the array; converting an integer to words keeps its value and panics exactly for negative integers and those with more than 256 bits. Comparing two convertible objects as integers compares their values.",
 ["inputs"], "all 2^256 arrays; integers up to 2^300 in absolute value",
 "the tests use few values; a wrong word order or length limit shows only for particular ones",
 ["internal/utils/bigIntConversion.go"], [("conversion", "internal/utils/bigIntConversion.go:BigIntToUIntArray")],
 ['int'], "integers up to 2^300 in absolute value")
prop("U02", "Slice, map and list helpers decide exactly what they promise",
 "Slices and maps compare equal exactly if both are nil or both are non-nil with the same length and the same contents; the slice assertion panics exactly otherwise. List containment and duplicate-free concatenation, with and without a normalizer, respect the order of first appearance, leave their inputs alone and share no memory with them. Argument binders call the function once with the arguments in place.",
 ["inputs"], "all contents of short lists and maps, including coinciding keys and elements",
 "which elements coincide is a combinatorial choice that tests sample only sparsely",
 ["internal/utils/compareSlice.go", "internal/utils/listcontainment.go", "internal/utils/bind.go", "internal/utils/clonable.go"],
 [("comparison", "internal/utils/compareSlice.go:CompareSlices"), ("concatenation", "internal/utils/listcontainment.go:ConcatenateListsWithoutDuplicates")],
 ['bv'], "lists up to length 4 (concatenation 3 in the quick tier), maps up to 2 entries, arbitrary contents")
prop("S01", "The stack is last-in first-out",
 "Under every sequence of operations the stack returns the values most recently pushed and not yet popped, in reverse order of pushing; Top and Peek address the values in place, counting from the top; length and emptiness agree with the history. Popping or peeking outside of the stack panics and changes nothing. Values are copied in.",
 ["histories"], "every history of operations up to the bound, arbitrary values",
 "tests run one history; re-use of freed storage after interleaved pushes and pops needs particular ones",
 ["internal/stack/stack.go"], [("stack", "internal/stack/stack.go:Stack")],
 ['bv'], "every history of 5 operations (quick) or 6 (thorough), arbitrary values")
prop("K01", "Call counters add up along their links",
 "Whatever the order in which counters are created, linked and attached, each counter shows its own increments plus those of all counters linked to it, multiplied along every path of links; the implicit remainder shows the parent minus its children. Each counter can be created only once, only created ones can be incremented, unknown ones are reported as such. The report lists the trees below the display roots with these values, depth first, and resetting clears the own increments only.",
 ["histories"], "every history of registrations up to the bound, all counts",
 "there are no tests of this package; order dependence between a counter and its later created parent needs particular histories",
 ["internal/callcounters/callcounters.go"], [("counting", "internal/callcounters/callcounters.go:recursivelyModifyBy"), ("registration", "internal/callcounters/callcounters.go:CreateHierarchicalCallCounter")],
 ['bv'], "three counters, every history of 3 registration steps (2 for arbitrary link weights and for resetting), arbitrary counts; links only towards later counters of a fixed order, so that the graph is acyclic")
prop("T01", "Fault-injection and reflection test helpers are faithful",
 "The faulty buffer delivers or accepts exactly the bytes up to its threshold, in order and independent of how they are split into calls, reports the designated error exactly when the threshold is exceeded and stays faulty until it is reset. The panic checker reports exactly the panics with their value and calls the function once with the given arguments; the slice alias check is exact for slices with a common end of their backing array; calling a method by name has the effect and results of the call.",
 ["histories", "inputs"], "every sequence of reads and writes up to the bound, all contents",
 "all other error-path tests of the repository rely on these helpers, which are themselves tested with few call patterns",
 ["internal/testutils/failingIO.go", "internal/testutils/checkpanic.go", "internal/testutils/slicealias.go", "internal/testutils/methodcalls.go", "internal/testutils/assert.go"],
 [("fault injection", "internal/testutils/failingIO.go:FaultyBuffer"), ("panic check", "internal/testutils/checkpanic.go:CheckPanic2")],
 ['bv'], "contents up to 5 bytes, thresholds 0..6, 4 calls of up to 4 bytes each; arrays of length 5 for the alias check")

prop("T02", "A precomputed cache is one list per key, however it is asked",
 "The elements a precomputed cache returns for a key are the beginning of one list: the elements it was prepopulated with, then those made by the given function from the generator of this key, in order, independent of earlier requests for this or another key, also if another goroutine uses the cache meanwhile. No more elements are made than needed. Results and prepopulated elements are copies; arguments are unchanged; prepopulating panics exactly if the key is in use; functions that are nil are replaced as documented.",
 ["histories", "schedules"], "every history up to the bound, another goroutine running at any call of a function given by the user",
 "the tests of curve points and field elements get their inputs from such caches and ask in few patterns; a lost or changed element shows only for a certain order of requests",
 ["internal/testutils/precomputation_meta.go"], [("cache", "internal/testutils/precomputation_meta.go:PrecomputedCache")],
 ['bv'], "4 (5) operations on 2 keys with amounts up to 3, 2 prepopulated elements; one operation interrupted once by up to 2 operations of another goroutine, which run to their end before the first one goes on")

EWD = "bandersnatch/errorsWithData/"
prop("W01", "Error messages render the documented interpolation language",
 "The message of an error with data is its interpolation string read by the documented grammar: plain text, escaped characters, %verb{name} and $verb{name} references to the error's own and to the passed parameters, %w, $w, the !m, !M selectors, and conditionals %!cond{...} and $!cond{...}. Strings outside of the grammar are exactly those which syntax validation rejects. References to missing parameters are reported by the validation of the final error; the message is otherwise exactly the documented text, for every value and formatting verb.",
 ["inputs"], "all interpolation strings up to a length over the characters of the grammar, all parameter values of the kinds considered",
 "the tests use a fixed list of strings; the tokenizer and parser are state machines whose mistakes need a particular sequence of characters",
 [EWD + x for x in ["formatting_tokenize.go", "formatting_parse.go", "formatting_interpolate.go", "validate.go"]],
 [("tokenizer", EWD + "formatting_tokenize.go:tokenizeInterpolationString"), ("parser", EWD + "formatting_parse.go:make_ast"), ("rendering", EWD + "formatting_interpolate.go:Interpolate")],
 ['bv'], "every string of up to 5 (thorough: 6) of the 12 characters of the grammar, longer ones inside of conditionals; the oracle is an interpreter written from the documentation")
prop("W02", "A malformed interpolation string never panics and never loses information",
 "Whatever the interpolation string of an error, creating the error and asking for its message, with or without passed parameters, does not panic. If the string is outside of the language, every validation function reports it, and the message tells about the parse error, the wrapped error's message and the parameters.",
 ["inputs"], "all strings over the characters of the grammar up to a length, also within open conditionals up to four deep and followed by closing brackets",
 "error handling must not fail itself; the malformed strings that break a recursive parser are particular nestings no test lists",
 [EWD + x for x in ["formatting_tokenize.go", "formatting_parse.go", "formatting_interpolate.go", "validate.go", "errorsWithData.go"]],
 [("parse error recovery", EWD + "formatting_parse.go:make_ast"), ("syntax conditions", EWD + "formatting_interpolate.go:handleSyntaxConditions")],
 ['bv'], "every string of up to 4 (thorough: 5) characters, of 2 (thorough: 3) in 10 open contexts, and all sequences of 3 out of 14 fragments")
prop("W03", "Validation of error chains agrees with rendering",
 "For a chain of errors wrapping each other with %w and $w, the message is the chain's documented text, with $-references resolved to the parameters passed by the outer error. The final validation reports an error exactly if rendering would have to report a missing parameter or a malformed string in a part that is shown; validation as a base error reports what no passed parameter can repair and accepts what can be repaired; the startup guards panic exactly if the validation fails.",
 ["inputs", "histories"], "all chains of two errors with interpolation strings and parameter sets from a family, arbitrary short strings on either side",
 "the rules that combine %w, $w, passed parameters and selectors are only tested for single cases; a disagreement needs a specific chain",
 [EWD + x for x in ["validate.go", "formatting_interpolate.go", "dummyErrorWithParams.go", "plainErrorWithParams.go"]],
 [("validation", EWD + "validate.go"), ("passing parameters", EWD + "formatting_interpolate.go")],
 ['bv'], "chains of 2 (thorough: 3) errors out of 10 x 8 strings and 3 x 3 parameter sets; arbitrary outer strings of 3 and inner strings of 4 characters")
prop("W04", "Data added to an error is kept, merged as asked and never leaks into the base",
 "Creating an error with parameters on top of another one (or a wrapper around one) makes the union of both available under their names: in replace mode the new value wins, in keep mode the old one, and in assert mode contradicting data panics while equal data does not. Deleting a parameter hides exactly that one in the new error. Maps handed out are copies, the base error is not modified by any of it, it stays reachable by errors.Is and errors.Unwrap, and nil errors are passed through or rejected as documented.",
 ["inputs", "histories"], "all names and values of up to two old and two new parameters, all modes and constructors, six kinds of base error",
 "coinciding names, nil values and wrapped bases combine to far more cases than the tests have",
 [EWD + x for x in ["errorsWithData.go", "modify_errors.go", "plainErrorWithParams.go", "dataOverride.go", "params_to_data.go"]],
 [("merging", EWD + "dataOverride.go"), ("constructors", EWD + "modify_errors.go")],
 ['bv'], "up to 2 old + 1 new or 1 old + 2 new (thorough: 2 + 2) parameters with arbitrary one-byte names and arbitrary 64-bit, string or nil values")
prop("W05", "Error data round-trips between structs and parameters",
 "Data stored into an error as a struct is available as the parameters named like the struct's visible fields (promoted fields included, shadowed ones excluded) and is read back as the same struct, as any struct with a subset of these fields and as a map, also through wrapping and in each merge mode. Data that is missing is reported or zero as asked; data of the wrong type is always reported and never converted silently. Exactly the struct types whose visible fields are exported and unambiguous are accepted.",
 ["inputs"], "all values of the fields, all combinations of present, missing and wrongly typed fields",
 "the combinations of embedded, shadowed, nil, interface and pointer fields with wrong or missing data are not tested together",
 [EWD + x for x in ["params_to_data.go", "modify_errors.go", "errorsWithData.go"]],
 [("struct to map", EWD + "dataOverride.go:fillMapFromStruct"), ("map to struct", EWD + "params_to_data.go:makeStructFromMap")],
 ['bv'], "structs with up to 5 fields; 8 kinds of values per field; 30 struct types")
prop("W06", "Boxing an error as incomparable changes nothing but comparability",
 "The incomparable version of an error has the same message, data, interfaces asked for, validation results and wrapped errors as the original; errors.Is treats both as the same error and tells different errors apart; unboxing returns the original however often it was boxed, and no box remains inside of a chain of errors.",
 ["inputs", "histories"], "all data values, three kinds of bases, all ways to box up to twice",
 "the tests check single boxes; double boxing and boxes inside of chains multiply the cases",
 [EWD + "incomparableWrapper.go"], [("boxes", EWD + "incomparableWrapper.go:MakeErrorIncomparable")],
 ['bv'], "boxes up to two deep around errors of both kinds with arbitrary data")
CP = "bandersnatch/curvePoints/"
CPX = [CP + x for x in ["curve_point_xtw.go", "curve_point_axtw.go", "curve_point_doubleproj.go"]]
FLD = "; field elements are symbols of an abstract field with the real curve constants (the field operations themselves are decided by F01-F10), every case distinction on them is followed both ways; counterexamples are confirmed natively with a pool of concrete points"
prop("X01", "An unexpected end of file is reported as such and keeps its data",
 "Transforming an error turns it into one that is io.ErrUnexpectedEOF, and no longer io.EOF, exactly if it was io.EOF anywhere in its chain; the parameters attached to it (in every layer, newer ones first) are those of the result, typed data included. Other errors, and the absence of one, are left alone, as is the original error.",
 ["inputs"], "chains of errors with and without data, all values",
 "deserializers call this on errors from readers of users, which wrap io.EOF in their own ways and attach their own data",
 ["internal/errorTransform/error_transform.go"], [("transformation", "internal/errorTransform/error_transform.go:UnexpectEOF"), ("typed errors", "internal/errorTransform/error_transform.go:UnexpectEOF2")],
 ['bv'], "5 kinds of errors (none besides) under up to 3 layers with and without data")
prop("P01", "Adding, doubling and negating points follows the group law",
 "For every pair of points in every representation and every combination of operand and result types, the sum, the difference, the double and the negative is the point given by the curve's group law (up to adding the point of order two A for types restricted to the subgroup), including neutral elements, inverses, equal operands and points at infinity. The operands keep their values unless they are the receiver, results are the same when operands and receiver are the same object, and operations with a subgroup receiver refuse general operands.",
 ["inputs"], "all pairs of points of the curve in all representations, all combinations of 6 point types, all alias patterns",
 "exceptional cases (sums at infinity, coinciding operands of different types, receivers that alias operands) depend on the combination of types and on special points a random test never meets",
 CPX + [CP + x for x in ["curve_point_impl_add.go", "curve_point_impl_double.go"]], [("addition", CP + "curve_point_impl_add.go"), ("doubling", CP + "curve_point_impl_double.go"), ("dispatch on types", CP + "curve_point_doubleproj.go:Add")],
 ['fld'], "all points in all representations and type combinations; sums at infinity of operands that can be represented included" + FLD)
prop("P02", "Equality and predicates of points do not depend on the representation",
 "Comparing two points in whatever types and coordinates tells whether they are the same point (modulo A if both are of subgroup types as documented); the tests for the neutral element, infinity, the two points at infinity and validity, and the copies made by Clone, agree with the coordinates of the point in every representation.",
 ["inputs"], "all pairs of points in all representations, 6 types; arbitrary coordinates for the test of validity",
 "points at infinity and representatives differing by A take other branches for each pair of types",
 CPX + [CP + "curve_point_impl_equality.go"], [("comparison", CP + "curve_point_impl_equality.go"), ("validity", CP + "curve_point_impl_subgroupcheck.go:isPointOnCurve")],
 ['fld'], "all points in all representations" + FLD)
prop("P03", "The subgroup test accepts exactly the points of the prime order subgroup",
 "The membership test accepts every double of a point and exactly one point of each coset P, P+A, P+E1, P+E2, that is precisely the subgroup of odd order, in all representations and also at infinity; conversions between point types keep the point, and conversion to subgroup types succeeds exactly for points of the subgroup and keeps the receiver otherwise; adding the torsion points A, E1, E2 is addition in the group; neutral elements and generators are what they should be.",
 ["inputs"], "all points of the curve in all representations, 6 x 6 types",
 "the special values of the test at points of order two and at infinity concern four points out of 2^255",
 CPX + [CP + x for x in ["curve_point_impl_subgroupcheck.go", "curve_point_impl_torsion.go"]], [("test by two quadratic characters", CP + "curve_point_impl_subgroupcheck.go"), ("conversion", CP + "curve_point_xtw.go:SetFromSubgroupPoint")],
 ['fld'], "all points in all representations; quadratic characters are tracked as linear relations over GF(2)" + FLD)
prop("P04", "Coordinates and normalization describe the same point",
 "Affine, projective and extended coordinates returned by a point describe that point (its representative in the prime order subgroup for the types restricted to the subgroup; up to A for the decaf variants), also right after each other; affine coordinates of points at infinity panic or report as documented; normalization (single and of slices) yields coordinates with Z or Y equal to one, keeps the point, and reports the points that cannot be normalized while still normalizing the others.",
 ["inputs"], "all points in all representations, 6 types; slices of up to 3 points with NaPs and zero coordinates",
 "asking for a coordinate changes the representation; what later calls return depends on that state and on which points of a slice cannot be normalized",
 CPX + [CP + "batch_operations.go"], [("canonical representative", CP + "curve_point_xtw.go:normalizeSubgroup"), ("slices", CP + "batch_operations.go")],
 ['fld'], "all points in all representations; slices of up to 3 points" + FLD)
prop("P05", "The endomorphism is multiplication by its eigenvalue",
 "Applying the efficient endomorphism in any combination of types gives the documented map: its square is multiplication by -2 on the curve, it maps the subgroup to itself, it treats neutral element, A and the points at infinity as documented, and it maps the subgroup's generator to eigenvalue times generator; the constants of the curve (order, cofactor, generator, eigenvalue, roots) fit together.",
 ["inputs"], "all points in all representations, 6 x 6 types",
 "tests compare random points; the exceptional points and the type combinations each take paths of their own",
 CPX + [CP + "curve_point_impl_endo.go", CP + "bandersnatch_constants.go"], [("endomorphism", CP + "curve_point_impl_endo.go"), ("dispatch", CP + "curve_point_doubleproj.go:Endo")],
 ['fld'], "all points in all representations; the eigenvalue is established at the generator" + FLD)
prop("P06", "Points are recovered from coordinates exactly when they exist",
 "Constructing a point from two affine coordinates, from one coordinate and the sign of the other, or from the forms (X*sign(Y)), (X*sign(Y), Y*sign(Y)) yields exactly the point with these coordinates, if there is one (in the subgroup where asked for); otherwise an error of the documented kind which carries the inputs as data and has a well-formed message. The map to the field gives X/Y for every representation.",
 ["inputs"], "all coordinates, all signs, trusted and untrusted",
 "the decision between kinds of failure depends on two quadratic characters and on special values such as zero and Y of the points at infinity",
 [CP + "serializer_curve_field.go", "bandersnatch/bandersnatchErrors/errors.go"], [("roots", CP + "serializer_curve_field.go:recoverYFromXAffine"), ("subgroup check", CP + "serializer_curve_field.go:CurvePointFromXTimesSignY_subgroup")],
 ['fld'], "all pairs of coordinates and all signs from -3 to 2; SquareRoot may return either root" + FLD)
prop("P07", "Invalid points are contagious, never equal to anything and always reported",
 "Uninitialized points and results of computing with them (NaPs) are recognized in every type; every predicate and comparison they take part in calls the installed handler and is false unless the handler says otherwise; every operation with a NaP operand yields a NaP; normalization and conversion to subgroup types fail, the latter without touching the receiver.",
 ["inputs", "histories"], "all NaPs of 6 types, all points as other operands, all operations and result types",
 "tests use a handful of NaPs; which zero pattern a NaP has depends on the operations it went through",
 CPX + [CP + "error_handler.go"], [("handler", CP + "error_handler.go:napEncountered"), ("recognition", CP + "curve_point_doubleproj.go:IsNaP")],
 ['fld'], "NaPs with arbitrary remaining coordinates; one operation" + FLD)
prop("P08", "Point slices are views of the points they were made from",
 "A slice of points of any type (of this package or not), a slice of pointers and a slice of interfaces, made accessible as CurvePointSlice, has the same length and shows at every index exactly the point of the original slice, not a copy and in the same order, typed or not; indices outside panic.",
 ["inputs"], "slices of up to 4 points of 7 types, pointers that may be equal",
 "the view is chosen from a list of types by hand; functions which work through a view of the wrong type, order or of a copy fail for this type only",
 [CP + "curve_point_slice.go"], [("views", CP + "curve_point_slice.go:AsCurvePointSlice")],
 ['bv'], "slices of up to 4 points of 7 types, one of them not of this package")
prop("P09", "Randomly drawn points are valid, whatever the random source delivers",
 "For every output of the random source, the exported and internal functions that draw random points return a valid finite point of the curve, of the prime-order subgroup (modulo the affine two-torsion point) for the subgroup types; choosing a random representation of a point (finite or infinite) leaves the point the same; and the functions that make invalid points for testing make points that are recognized as invalid.",
 ["inputs"], "all random field elements and random bits, all points in all representations, 6 types",
 "the tests draw some thousand random elements; the ones at which a draw degenerates (zero as scaling factor) have probability 2^-255, but the code promises to handle crafted random sources",
 [CP + "curve_point_impl_sampling.go", CP + "curve_point_doubleproj.go", CP + "curve_point_axtw.go", CP + "curve_point_xtw.go"],
 [("random points", CP + "curve_point_impl_sampling.go:makeRandomPointOnCurve_a"), ("random representation", CP + "curve_point_doubleproj.go:rerandomizeRepresentation")],
 ['fld'], "up to 2 rejected X coordinates per random point; random field elements are arbitrary (SetRandomUnsafe itself is modelled by its contract: any element, SetRandomUnsafeNonZero: any nonzero element)")
na("N01", "Scalar multiplication computes the multiple of the point",
 "Multiplying a point by an exponent gives the point added to itself that many times.",
 ["inputs"], "all points and exponents", "the number of scalars is 2^253",
 ["bandersnatch/curvePoints"], [("none", "bandersnatch/exponents/glv_transform.go")],
 "the code that multiplies points by scalars (exponentiation.go) is excluded from every build by a build tag and does not compile; its ingredients are decided by E01, E03, P01 and P05")
na("N02", "Points survive serialization",
 "Deserializing a serialized point returns the same point; malformed input is rejected.",
 ["inputs"], "all points, all byte strings", "the byte strings are too many to test",
 ["bandersnatch/pointserializer"], [("serializers", "bandersnatch/pointserializer/serialize_curve_points.go")],
 "package pointserializer does not compile at this commit (it is under reconstruction), so there is no code to execute; the pieces below it are decided by S01, C02, F06, F07 and P06")
