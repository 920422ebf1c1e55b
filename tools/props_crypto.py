from props_algebra import EX
P = []
def p(id, title, statement, over, text, why, files, mech, level='model_checking', technique=EX, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note))

p('C14', 'Merkle commitments and openings are complete and canonical',
  'For every power-of-two number of leaves, every number of lower layers left out of storage and every list of indices (unsorted and repeated ones included), the Merkle root is the same function of the leaves, the opening consists of exactly the sibling hashes the verifier cannot compute, bottom layer first and left to right, the predicted proof size equals its length, and the honest opening verifies. Sizes that are not a power of two and indices outside of the tree are refused with an error.',
  ['inputs', 'configurations'], 'every tree size, every skipped-layer count, every index list',
  'the existing test samples random index lists on one fixed leaf pattern; skipped layers, siblings, duplicates and boundary sizes interact combinatorially',
  ['crypto/merkle-tree/src/tree.rs', 'crypto/merkle-tree/src/commitment.rs', 'crypto/merkle-tree/src/proof.rs', 'crypto/merkle-tree/src/index.rs'],
  [('opening queue', 'crypto/merkle-tree/src/tree.rs'), ('proof size', 'crypto/merkle-tree/src/commitment.rs')],
  note='all subsets up to 16 leaves, bounded subsets beyond; verifier side up to depth 63 on sparse trees')
p('C15', 'Merkle openings bind: only the committed leaves verify, without panics',
  'A Merkle opening verifies if and only if the given leaves are exactly the opened indices and recomputing the root from them and the given hashes yields the committed root; any changed, moved, missing, extra or conflicting leaf, changed, missing, extra or reordered hash, other root or other size is rejected. Verification and assembly of an opening never panic, whatever the indices, leaves, hashes and size.',
  ['inputs', 'faults'], 'every corruption of every opening',
  'tests only try one wrong root; a verifier that ignores a leaf, an index or a hash passes them',
  ['crypto/merkle-tree/src/proof.rs', 'crypto/merkle-tree/src/commitment.rs', 'crypto/merkle-tree/src/index.rs'],
  [('verify', 'crypto/merkle-tree/src/proof.rs')],
  technique='exhaustive fault enumeration on the real verifier, verdicts compared with a reference verifier',
  note='single and paired corruptions of every opening of trees of up to 8/16 leaves and of sparse trees up to depth 63; collision resistance of Keccak is assumed')
p('C17', 'Hashes of values are a fixed function of their content',
  'The hash of a byte string is its Keccak-256 digest with all but the first 20 bytes zeroed however the string is split into updates; 256-bit integers and hashes hash to their 32 big-endian bytes, field elements to those of their Montgomery form, and a list hashes to the hash of its only element or to the masked digest of the concatenated element hashes. References, slices and vectors of the same content hash identically.',
  ['inputs'], 'every message, every split, every list',
  'there are no tests of incremental hashing or of list hashing besides end-to-end constants',
  ['crypto/hash/src/hashable.rs', 'crypto/hash/src/masked_keccak.rs', 'crypto/hash/src/hash.rs'],
  [('Hashable impls', 'crypto/hash/src/hashable.rs')],
  note='every length to 420/700 bytes with every 2-way split; lists up to 20/70 elements')
p('C28', 'The memory-mapped vector behaves as a vector of fixed capacity',
  'After every sequence of pushing, truncating, clearing, resizing, extending, writing, cloning and comparing, the memory-mapped vector holds exactly the elements a plain vector would hold, every element is dropped exactly once and memory that holds no element is never dropped. Exceeding the capacity or indexing beyond the length panics and leaves the elements intact, and a panic while an element is copied or dropped leaves the vector usable.',
  ['inputs', 'histories'], 'every operation sequence and capacity, element types with and without destructors',
  'double drops and stale elements need multi-step histories (shrink, then grow)',
  ['utils/mmap-vec/src/mmap_vec.rs'], [('push / truncate / resize', 'utils/mmap-vec/src/mmap_vec.rs')],
  note='all sequences up to length 3/4 over 23 operations and 4/5 over 13')
p('C30', 'The logging allocator counts and reports allocations exactly',
  'After every sequence of allocations, zeroed allocations, reallocations and deallocations the logging allocator reports exactly the bytes currently allocated, the peak of that number, the total and the largest allocation and the number of allocations, and hands out memory that has the requested alignment and keeps its contents. Allocations from 1 MB, 10 MB and 100 MB on are logged once at info, warning and error level with their size, smaller ones are not logged, and those of 1 TB and more are rejected.',
  ['inputs', 'histories'], 'every sequence of allocator calls of every size',
  'the crate has no tests at all',
  ['utils/logging-allocator/src/logging_allocator.rs', 'utils/logging-allocator/src/size_bytes.rs'],
  [('alloc / dealloc', 'utils/logging-allocator/src/logging_allocator.rs'), ('message text', 'utils/logging-allocator/src/size_bytes.rs')],
  note='all call sequences up to length 4/5 over 19 calls, single-threaded')
