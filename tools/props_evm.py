P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level='model_checking', technique=technique, note=note, hook=hook))
p('C32', 'Generated contracts compute the same numbers as the constraint system',
  'For every constraint system that can be exported, the generated Ethereum contracts return, for all inputs, the combination of the constraints evaluated at the out-of-domain point, the layout of trace cells, the periodic column values, and the combined low-degree values at the queries that direct evaluation of the expressions gives. Constants such as the constraint degree, the numbers of columns and cells, and the number of queries and folding layers they contain are those of the exported system.',
  ['inputs', 'configurations'], 'every exportable constraint system, every out-of-domain point, trace value and coefficient',
  'tests compare the text generated for one example with a stored file; nothing executes the contracts',
  ['crypto/stark/src/solidity_verifier.rs', 'crypto/stark/assets/', 'crypto/stark-verifier-ethereum/contracts/default_cs.sol'],
  [('generate', 'crypto/stark/src/solidity_verifier.rs'), ('oods polynomial template', 'crypto/stark/assets/'), ('evaluate_oods_point, prepare_batch_invert', 'crypto/stark-verifier-ethereum/contracts/default_cs.sol')],
  'enumeration of all small constraint expressions and trace layouts; the generated contracts are executed by an interpreter of their source and compared with direct evaluation',
  'all expressions of depth 1 and 2 over 8 kinds of atoms, all trace-cell sets of small tables, numbers of inverses 0..9, degrees; interpreter of the Solidity subset bound by self-check snippets and the recorded proofs of the repository')
p('C33', 'The building blocks of the verifier contracts compute what they stand for',
  'Field arithmetic, byte and bit utilities, the public coin, trace iterators, the proof-of-work check, the Merkle verification, the choice of query positions and the folding layout of the Ethereum contracts return, for all inputs in their domain, the mathematical result, and this agrees with the results of the Rust prover and verifier. Inputs that the contracts must not accept are refused.',
  ['inputs'], 'every field element at the boundaries, every set of leaves and index of small trees, every sequence of coin operations up to a depth',
  'the contract tests need a node and a network and cannot be run with the stable tests; boundary values and unusual leaf sets are not sampled',
  ['crypto/stark-verifier-ethereum/contracts/primefield.sol', 'crypto/stark-verifier-ethereum/contracts/utils.sol', 'crypto/stark-verifier-ethereum/contracts/public_coin.sol', 'crypto/stark-verifier-ethereum/contracts/iterator.sol', 'crypto/stark-verifier-ethereum/contracts/merkle.sol', 'crypto/stark-verifier-ethereum/contracts/proof_of_work.sol', 'crypto/stark-verifier-ethereum/contracts/fri.sol', 'crypto/stark-verifier-ethereum/contracts/default_cs.sol'],
  [('PrimeField', 'crypto/stark-verifier-ethereum/contracts/primefield.sol'), ('PublicCoin', 'crypto/stark-verifier-ethereum/contracts/public_coin.sol'), ('verify_merkle_proof', 'crypto/stark-verifier-ethereum/contracts/merkle.sol'), ('get_queries', 'crypto/stark-verifier-ethereum/contracts/fri.sol')],
  'exhaustive enumeration of boundary operands, leaf sets, bit patterns and operation sequences executed by an interpreter of the contract source against reference implementations',
  'all pairs of boundary operands, all 65 535 leaf subsets of trees to depth 4 with every alteration of one value or index, all short coin sequences, all arrays of up to 6 distinct-value patterns, roots of all orders 2^0..2^255')
p('C34', 'The verifier contract accepts exactly the valid proofs',
  'The Ethereum verifier contract returns true for every proof the Rust prover makes, exported in the contract format, of a supported constraint system. It does not accept a proof with any altered, missing or additional part, nor a proof by a dishonest prover of a statement that is violated, nor one for a different claim.',
  ['inputs', 'fault points', 'configurations'], 'every supported system and size, every altered word of an exported proof, every cheating strategy up to one deviation',
  'no stable test executes the contract, and a sampled valid proof cannot show that an invalid one is refused',
  ['crypto/stark-verifier-ethereum/contracts/', 'crypto/stark/src/solidity_seralizer.rs', 'crypto/stark/src/solidity_verifier.rs'],
  [('verify_proof', 'crypto/stark-verifier-ethereum/contracts/stark_verifier.sol'), ('fri_check', 'crypto/stark-verifier-ethereum/contracts/fri.sol'), ('proof export', 'crypto/stark/src/solidity_seralizer.rs')],
  'enumeration of systems, sizes, single alterations of every word and length, and cheating provers, executed by an interpreter of the contract source against the reference verifier',
  '8 systems x all folding layouts up to 32 rows (larger ones singly) x query counts; 13 bases: every word altered in 5 ways, every array in 6, all single cheating strategies x violated column; 16 recorded proofs of the repository validate the interpreter')
