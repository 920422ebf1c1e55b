from props_algebra import EX
P = []
def p(id, title, statement, over, text, why, files, mech, level='model_checking', technique=EX, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note))
REF = 'exhaustive enumeration of bounded protocol runs on the real prover and verifier, transcripts and verdicts compared with a reference prover and verifier'

p('C01', 'Proofs of satisfied constraints are complete and canonical',
  'For every constraint system, every trace that satisfies it and every valid setting of blowup, number of queries, proof-of-work bits and folding schedule, proving succeeds and the proof verifies. The proof is a fixed function of these inputs: every commitment, opened value, sibling hash, nonce and coefficient is the one the protocol prescribes.',
  ['inputs', 'configurations'], 'every constraint system, satisfying trace and parameter choice',
  'tests prove three systems with one or two parameter choices each; folding schedules, periods, degrees, offsets, duplicate queries and sizes interact',
  ['crypto/stark/src/prover.rs', 'crypto/stark/src/verifier.rs', 'crypto/stark/src/channel.rs', 'crypto/stark/src/algebraic_dag.rs', 'crypto/stark/src/proof_of_work.rs', 'algebra/primefield/src/fft/', 'crypto/merkle-tree/src/'],
  [('prove', 'crypto/stark/src/prover.rs'), ('verify', 'crypto/stark/src/verifier.rs')],
  technique=REF,
  note='10 systems, all full and partial folding schedules with reductions 1..4 up to 32/64 rows, default schedule to 1024/4096 rows, one to two traces of 65536 rows')
p('C02', 'Every altered proof is rejected',
  'Starting from an honest proof, changing any byte, replacing, removing, duplicating or exchanging any of its 32-byte words, cutting it short or extending it gives a proof the verifier rejects, unless it is again a valid proof of the same claim. Encodings of field elements that are not below the modulus are rejected.',
  ['inputs', 'faults'], 'every single corruption of every part of a proof',
  'tests never present an altered proof to the verifier; a verifier that ignores one opened value or hash passes them',
  ['crypto/stark/src/verifier.rs', 'crypto/stark/src/channel.rs', 'crypto/merkle-tree/src/proof.rs'],
  [('verify', 'crypto/stark/src/verifier.rs')],
  technique='exhaustive fault enumeration on the real verifier, verdicts compared with a reference verifier',
  note='9 configurations; 2 masks per byte quick, 9 thorough; all pairs of words exchanged')
p('C03', 'False statements cannot be proven by deviating from the protocol',
  'The verifier accepts a proof only if the out-of-domain equation holds, every query opens the committed values and folds consistently through every layer to a final polynomial of the required degree, and the proof of work is valid, whatever a prover substitutes in one step before continuing honestly. The prover returns a proof of a trace if and only if the trace satisfies all constraints.',
  ['inputs', 'histories', 'faults'], 'every one-step deviation of the prover, every single-cell corruption of a trace',
  'tests contain no dishonest prover; an omitted verifier check is invisible to honest runs',
  ['crypto/stark/src/verifier.rs', 'crypto/stark/src/prover.rs', 'crypto/stark/src/proof_of_work.rs'],
  [('verify', 'crypto/stark/src/verifier.rs'), ('out-of-domain check', 'crypto/stark/src/verifier.rs')],
  technique='exhaustive enumeration of one-step deviating provers, verdicts of the real verifier compared with a reference verifier',
  note='deviations in every message class, 10 systems; computational assumptions on the hash are not examined')
p('C04', 'A proof is bound to the exact claim and parameters it was made for',
  'A proof made for one claim is rejected by the verifier of any claim that differs in a constraint, a constant, the order or number of constraints, a claim polynomial, the seed, the number of rows or columns, the blowup, the number of queries, the proof-of-work bits or the folding schedule, except where the difference leaves the checked statement and transcript unchanged.',
  ['inputs', 'configurations'], 'every neighbouring claim of every proof',
  'tests never verify a proof against another claim',
  ['crypto/stark/src/verifier.rs', 'crypto/stark/src/channel.rs', 'crypto/stark/src/constraints.rs'],
  [('channel seeding', 'crypto/stark/src/channel.rs'), ('verify', 'crypto/stark/src/verifier.rs')],
  technique='exhaustive enumeration of neighbouring claims, verdicts of the real verifier compared with a reference verifier',
  note='single changes of 7 configurations')
p('C05', 'Verification terminates without panicking on every byte string',
  'Given any byte string as a proof for a valid claim, verification returns acceptance or an error; it neither panics nor reads beyond the input.',
  ['inputs', 'faults'], 'every byte string, of every length',
  'tests only verify honest proofs',
  ['crypto/stark/src/verifier.rs', 'crypto/stark/src/channel.rs', 'crypto/stark/src/proof.rs'],
  [('proof reader', 'crypto/stark/src/channel.rs')],
  technique='exhaustive enumeration of structured malformed inputs on the real verifier, verdicts compared with a reference verifier',
  note='all lengths to beyond the proof length for 5 fill bytes and pseudorandom content, all prefixes and windows of honest proofs of 10 systems')
p('C08', 'The constraint checker reports exactly the first violated constraint',
  'For constraints written as a numerator divided by factors that vanish on a set of rows, checking a trace succeeds if and only if every numerator is zero on all of its rows, and otherwise reports the first row, and in it the first constraint, that is violated. Checking one constraint at one row tells exactly whether it holds there; offsets wrap around the trace in both directions, however long.',
  ['inputs', 'configurations'], 'every set of rows, every way to write the divisor, every trace',
  'the two existing tests check one corrupted cell of one system',
  ['crypto/stark/src/constraint_check.rs', 'crypto/stark/src/rational_expression.rs', 'crypto/stark/src/traits.rs'],
  [('check_constraints', 'crypto/stark/src/constraint_check.rs'), ('RationalExpression::check', 'crypto/stark/src/rational_expression.rs')],
  note='all row subsets to 4 rows (8 in part), all traces over {0,1,2} to 4 cells; 10 protocol systems with every cell corrupted')
p('C09', 'Component combinators preserve the meaning of their parts',
  'Placing components side by side, repeating them vertically or folding columns into rows, in any nesting, puts every cell of every part at its place in the combined trace, and the combined constraints are satisfied exactly by traces in which every part is satisfied, with cells that belong to no constraint free; parts that do not fit together are refused. Proving with a component yields a proof that verifies for its claim and not for a claim that differs in a constrained part.',
  ['inputs', 'configurations'], 'every nesting of combinators, every cell corrupted',
  'tests check that honest traces pass and some algebraic laws; a combinator that drops or weakens constraints passes all of them',
  ['crypto/stark/src/component/'],
  [('Fold', 'crypto/stark/src/component/fold.rs'), ('Vertical', 'crypto/stark/src/component/vertical.rs'), ('Horizontal', 'crypto/stark/src/component/horizontal.rs')],
  note='all nestings of depth 2 (3 thorough, partially thinned) over leaves of 1..8 rows and 0..5 columns; parts below a vertical repetition share their claim, as documented')
p('C10', 'Expressions mean the same to evaluator, checker, prover and verifier',
  'Evaluating or checking an expression, renaming its trace cells, substituting its claim polynomials and proving a trace column to be equal to it all use the value the expression denotes, whatever subexpressions it shares and whatever their period. The reported degrees are those of the expression as written and bound the true ones, the reported trace arguments are those that occur in it, functional equality holds exactly for equal rational functions, and the order and hash never confuse different functions.',
  ['inputs'], 'every expression',
  'tests cover a few hand-written expressions; the evaluation graph rewrites shared, constant and periodic subexpressions by value',
  ['crypto/stark/src/rational_expression.rs', 'crypto/stark/src/algebraic_dag.rs', 'crypto/stark/src/rational_equality.rs', 'crypto/stark/src/prover.rs'],
  [('AlgebraicGraph', 'crypto/stark/src/algebraic_dag.rs'), ('degree', 'crypto/stark/src/rational_expression.rs')],
  note='all expressions of two operator levels over 8 leaves; periods on both sides of the lookup limits; expressions that divide by zero and polynomials of trace cells in ordering/hashing are out of scope')
p('C11', 'Polynomials and trace tables compute what their coefficients and cells say',
  'The degree, value, equality, extension to the evaluation coset and scaled quotient by a point of a polynomial are those of its coefficients, for every length that is a power of two, other lengths being refused. A trace table returns the cells last written through every accessor, refuses accesses outside of it, and its columns interpolate to the polynomials taking the column values on the powers of the generator.',
  ['inputs', 'histories'], 'every polynomial, every history of writes',
  'there is one test of one evaluation',
  ['crypto/stark/src/polynomial.rs', 'crypto/stark/src/trace_table.rs'],
  [('DensePolynomial', 'crypto/stark/src/polynomial.rs'), ('TraceTable', 'crypto/stark/src/trace_table.rs')],
  note='all polynomials of length 1, 2, 4 over 5 values; extensions to 2^15/2^17 points; tables to 4096 rows')
p('C12', 'Reported security, size bound and default parameters are correct',
  'The reported security in bits is the binary logarithm of the blowup, rounded down, times half the number of queries, rounded down, plus the proof-of-work bits, and no proof is longer than the reported maximum size. Trace lengths that are not a power of two are refused, the defaults fold as often as the trace length allows down to at most 256 coefficients, three at a time, and combining constraints yields the random linear combination with every constraint raised to the common degree.',
  ['inputs', 'configurations'], 'every parameter setting',
  'the size bound is tested for one configuration, security and defaults not at all',
  ['crypto/stark/src/constraints.rs'],
  [('max_proof_size', 'crypto/stark/src/constraints.rs'), ('security_bits', 'crypto/stark/src/constraints.rs')],
  note='blowups to 1025 and queries to 64; sizes of about 8000 proofs including nearly disjoint queries in large domains')
p('C13', 'Serialized proofs are valid JSON with exactly the content of the proof',
  'Serializing any well-formed proof appends the members of one JSON object holding every commitment, value, hash, coefficient and the nonce of the proof, in order and without loss. Proofs that end early or hold field elements that are not below the modulus give an error, and no proof makes serialization panic.',
  ['inputs', 'faults'], 'every proof, honest or damaged',
  'there are no tests of the serializer',
  ['crypto/stark/src/solidity_seralizer.rs', 'crypto/stark/src/channel.rs'],
  [('proof_serialize', 'crypto/stark/src/solidity_seralizer.rs')],
  note='10 systems x all folding schedules to 16/32 rows; every byte and every truncation of about 20/60 small proofs')
