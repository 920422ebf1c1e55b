P = []
def p(id, title, statement, over, text, why, files, mech, crate='algebra', level='model_checking', technique='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note))

EX = 'explicit-state bounded-exhaustive exploration of the real code against a reference model'
p('C18', '256-bit integer ring operations are exact modulo 2^256',
  'Adding, subtracting, negating, multiplying, squaring, raising to a power and summing or multiplying lists of 256-bit integers gives exactly the mathematical result modulo 2^256 in every operator form, and the full-width and carry-reporting forms report exactly the part that does not fit. Comparison and equality agree with the mathematical order.',
  ['inputs'], 'every pair of 256-bit operands and every operator form',
  'unit tests and proptests sample a handful of random operands; carries across limbs and boundary limbs have probability ~2^-64 under uniform sampling',
  ['algebra/u256/src/additive.rs', 'algebra/u256/src/multiplicative.rs', 'algebra/u256/src/arch/generic'],
  [('limb carry chains', 'algebra/u256/src/algorithms/limb_operations.rs'), ('schoolbook multiplication', 'algebra/u256/src/multiplicative.rs')],
  technique=EX, note='exhaustive over limb-corner grids and power-of-two neighbours, not over all 2^512 pairs; oracle is an independent schoolbook bignum')
p('C19', '256-bit division, gcd and modular operations are exact',
  'Division with remainder of 256-bit integers gives the unique quotient and remainder (and refuses a zero divisor), and gcd, extended gcd, modular inverse, modular multiplication and modular reduction give the mathematically correct value for every modulus of at least two. No input other than a zero divisor or modulus makes them fail.',
  ['inputs'], 'every dividend/divisor pair and every modulus',
  'the branches of multi-word division that correct a wrong trial digit are taken with probability ~2^-64 on random operands',
  ['algebra/u256/src/division.rs', 'algebra/u256/src/arch/generic/lehmer_gcd.rs', 'algebra/u256/src/arch/generic/knuth_division.rs'],
  [('Knuth algorithm D', 'algebra/u256/src/arch/generic/knuth_division.rs'), ('Lehmer gcd', 'algebra/u256/src/arch/generic/lehmer_gcd.rs')],
  technique=EX, note='exhaustive over limb-corner grids (including equal-prefix operands that force the correction branches)')
p('C20', '256-bit shifts, bit access and integer conversions are exact',
  'Shifting by any amount, reading bits, counting zeros and ones, bitwise logic, byte conversion and conversion from and to every primitive integer type give exactly the value of the corresponding operation on the mathematical integer, with amounts of 256 and more shifting everything out. Checked narrowing succeeds exactly when the value fits.',
  ['inputs'], 'every value, shift amount and primitive integer',
  'boundary shift amounts (0, 64k, 255, 256 and above) and extreme primitive values are sampled by few tests',
  ['algebra/u256/src/binary.rs', 'algebra/u256/src/conversion.rs'],
  [('shift by limbs and bits', 'algebra/u256/src/binary.rs'), ('From/To impls', 'algebra/u256/src/conversion.rs')],
  technique=EX, note='every shift amount 0..=300 on every limb-corner value; every 8/16-bit integer and every power-of-two neighbour of the wider types')
p('C21', '256-bit integer text and binary encodings are exact and total',
  'Printing a 256-bit integer in decimal or hexadecimal and parsing it back returns the same integer, and its JSON, bincode and SCALE encodings round-trip with fixed 32-byte big-endian (SCALE: little-endian) contents. Parsing a decimal string accepts exactly the non-empty strings of ASCII digits whose value is below 2^256 and returns an error for every other string, without panicking; decoding truncated binary input returns an error.',
  ['inputs'], 'every string and every byte string',
  'overflow just above 2^256 and malformed or non-ASCII strings are not covered by the existing examples',
  ['algebra/u256/src/encoding.rs', 'algebra/u256/src/conversion.rs', 'algebra/u256/src/u256.rs'],
  [('from_decimal_str', 'algebra/u256/src/encoding.rs'), ('Serialize/Deserialize', 'algebra/u256/src/conversion.rs')],
  technique=EX, note='every string up to length 4/5 over a 12-symbol alphabet, windows around every power of ten and multiple of 2^256/10; hexadecimal parsing only for at most 64 digits')
p('C22', 'Prime field arithmetic equals integer arithmetic modulo the prime',
  'For every prime field of the library (modulus below 2^255), addition, subtraction, negation, multiplication, squaring, doubling, sums, products and reduction of 256-bit integers give exactly the residue of the integer result, in every operator form. Every result is the canonical representative below the modulus, so equal elements compare equal and hash equally.',
  ['inputs', 'configurations'], 'every pair of elements of every supported prime field',
  'Montgomery reduction edge cases (results within one modulus of 0 or p) are not reached by uniform random sampling',
  ['algebra/primefield/src/prime_field.rs', 'algebra/primefield/src/ops.rs', 'algebra/u256/src/algorithms/montgomery/generic.rs'],
  [('Montgomery multiplication and final subtraction', 'algebra/u256/src/algorithms/montgomery/generic.rs'), ('operator macros', 'algebra/primefield/src/ops.rs')],
  technique=EX, note='all pairs of ten small fields; boundary pairs of five large fields; oracle: schoolbook bignum mod p')
p('C23', 'Field powers, inverses, roots and series are exact',
  'Powers with any exponent (including negative and the most negative), inverses, quotients, square roots, quadratic-residue tests, primitive roots of unity and batch inverses give the mathematically correct element, report absence exactly when none exists, and division by zero is refused. A geometric series yields exactly base times step to the i, also after any combination of skipping, limiting and striding.',
  ['inputs', 'histories'], 'every element, exponent, order, list and sequence of iterator operations',
  'tests check a few random elements; exact multiplicative order, boundary exponents and iterator operation sequences are not covered',
  ['algebra/primefield/src/prime_field.rs', 'algebra/primefield/src/invert_batch.rs', 'algebra/primefield/src/geometric_series.rs'],
  [('square and multiply, Tonelli-Shanks', 'algebra/primefield/src/prime_field.rs'), ('Montgomery batch inversion trick', 'algebra/primefield/src/invert_batch.rs')],
  technique=EX, note='small fields completely, large fields on boundary elements and exponents, all iterator operation sequences to depth 3/4')
p('C24', 'Every FFT variant computes the discrete Fourier transform',
  'For every power-of-two length the forward transform returns the evaluations of the input polynomial at the powers of the root of unity in bit-reversed order, the inverse transform undoes it, the coset variants act on the shifted input, and all implementations and thread counts give the same result. Bit reversal, transposition and shifted copies move every entry to exactly its place for every supported size.',
  ['inputs', 'configurations'], 'every length, input vector, root, cofactor and thread count',
  'the tests use lengths up to 512 only, below the threshold of the large-size algorithm, and a different loop bound than production code',
  ['algebra/primefield/src/fft'],
  [('recursive and square-root decompositions', 'algebra/primefield/src/fft/radix_sqrt.rs'), ('clone_shifted chunking', 'algebra/primefield/src/fft/mod.rs')],
  technique=EX, note='all vectors over small fields, all unit vectors to length 2^10/2^11, dense vectors to 2^17/2^20')
p('C25', 'Curve point addition and doubling implement the group law',
  'Adding, subtracting, doubling, negating and comparing curve points gives the point of the group law in affine, projective and mixed coordinates, for all operands including the point at infinity, equal and opposite points and every projective scaling. A point is reported to be on the curve exactly when it satisfies the curve equation.',
  ['inputs'], 'every pair of points and coordinate representations',
  'random points are never equal, opposite or at infinity, so the special cases are not exercised',
  ['algebra/elliptic-curve/src/curve.rs', 'algebra/elliptic-curve/src/jacobian.rs'],
  [('case analysis in add_assign', 'algebra/elliptic-curve/src/jacobian.rs')],
  technique=EX, note='all pairs of kG with |k| up to 24/60 and four projective scalings each')
p('C26', 'All scalar multiplication algorithms agree with repeated addition',
  'Multiplying a point by a scalar with any of the algorithms, and the sum of two scalar multiples, gives exactly the repeated sum, for every scalar (including zero and the largest) and every point including infinity. Precomputed tables contain exactly the odd multiples.',
  ['inputs'], 'every scalar (pair) and point (pair)',
  'one fixed example per algorithm is tested; signed-digit recoding boundaries and zero points are not',
  ['algebra/elliptic-curve/src/wnaf.rs', 'algebra/elliptic-curve/src/curve.rs'],
  [('non-adjacent form recoding and tables', 'algebra/elliptic-curve/src/wnaf.rs')],
  technique=EX, note='boundary scalars x six points; pairs of a reduced scalar set')
p('C27', 'ECDSA signatures verify exactly when the ECDSA relation holds',
  'A signature made with a private key verifies under the derived public key for every digest, signing is deterministic and never uses the same secret multiplier for two digests or keys, and verification accepts exactly the triples of key, digest and signature that satisfy the ECDSA relation with nonzero components and a key on the curve; anything else is refused without panicking. Keys and signatures survive encoding and decoding, and non-canonical encodings are refused.',
  ['inputs', 'fault_sequences'], 'every key and digest, and every alteration of key, digest or signature',
  'the tests only verify honestly made signatures for random keys; no altered signature is ever refused in a test',
  ['crypto/elliptic-curve-crypto/src'],
  [('sign', 'crypto/elliptic-curve-crypto/src/private_key.rs'), ('verify', 'crypto/elliptic-curve-crypto/src/public_key.rs')],
  technique=EX, note='boundary keys and digests x 30 faults each, decided by the textbook relation')
p('C29', 'Compile-time literals denote exactly the written value',
  'The hexadecimal byte, 256-bit integer and field element literals expand to exactly the value written (the field element modulo the prime), for every string of hexadecimal digit pairs of at most 32 bytes. Every other token or string produces a compile error.',
  ['inputs'], 'every literal', 'the tests check a dozen literals',
  ['utils/macros-lib/src/lib.rs'],
  [('parse_hex, bytes_to_limbs, montgomery_convert', 'utils/macros-lib/src/lib.rs')],
  technique=EX, note='all strings to length 4/5 over 9 symbols, all lengths to 70, boundary values')
p('C31', 'Field element conversions and encodings are canonical and total',
  'Converting any primitive integer, including the most negative ones, to a field element gives its residue, converting back gives the value exactly when it fits, and JSON, bincode and SCALE encodings round-trip. Decoding accepts exactly the encodings of integers below the modulus and returns an error for anything else, and random sampling always gives a canonical element.',
  ['inputs'], 'every integer of every primitive type and every byte string',
  'decoders are only tested on their own output; most negative integers and values at or above the modulus are not tested',
  ['algebra/primefield/src/convert.rs', 'algebra/primefield/src/serde.rs', 'algebra/primefield/src/parity_codec.rs', 'algebra/primefield/src/rand.rs'],
  [('as_sign_abs', 'algebra/primefield/src/convert.rs'), ('Deserialize/Decode range check', 'algebra/primefield/src/serde.rs')],
  technique=EX, note='all 8/16-bit integers, power-of-two neighbours, neighbours of all multiples of the modulus')
p('C37', 'Random integers and field elements are uniform over exactly their range',
  'Drawing a 256-bit integer from a half-open or inclusive range, up to the full range, returns only values of the range, every one of them for equally many outcomes of the source of randomness, and an outcome that cannot be used only delays the draw. Successive draws are independent, and random field elements are drawn equally from all residues of the prime.',
  ['inputs'], 'every range and every outcome of the source of randomness',
  'the repository has no test of sampling, and a biased, shifted or incomplete range looks random in any sample',
  ['algebra/u256/src/rand.rs', 'algebra/primefield/src/rand.rs'],
  [('UniformU256', 'algebra/u256/src/rand.rs'), ('Distribution for prime fields', 'algebra/primefield/src/rand.rs')],
  technique=EX, note='all ranges of up to 40/127 values at corner positions over all 8-bit outcome patterns, power-of-two neighbours of wide ranges over corner outcomes; ranges that are empty are a precondition violation and excluded')
