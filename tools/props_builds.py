P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level='model_checking', technique=technique, note=note, hook=hook))
p('C35', 'Verifier-only builds without std decide and compute the same as full ones',
  'Built without its optional features (no standard library, no prover, no threads; the configuration meant for small and web targets), the proof verifier gives for every proof and claim the verdict that the protocol prescribes, which is also that of the full build, and never panics. The Fourier transforms and coset shifts of that build give the same results for every vector.',
  ['inputs', 'configurations', 'fault points'], 'every proof (honest, altered, by a deviating prover, for a neighbouring claim, arbitrary bytes) and every vector, in the build without features',
  'the stable tests only run the build with default features; code selected by the absence of a feature is never executed by them',
  ['crypto/stark/src/verifier.rs', 'crypto/stark/src/lib.rs', 'crypto/merkle-tree/src/', 'algebra/primefield/src/fft/mod.rs', 'crypto/hash/src/'],
  [('verify', 'crypto/stark/src/verifier.rs'), ('clone_shifted, fft_root without threads', 'algebra/primefield/src/fft/mod.rs')],
  'exhaustive enumeration of protocol runs, single faults and deviations, and of unit vectors, executed in the build without features against the reference protocol and transform',
  'the spaces of C01 to C05, unit vectors of every length to 2^9 (thorough 2^10), dense vectors to 2^14 (2^18)')
p('C36', 'Allocator statistics are exact under every interleaving of threads',
  'Whatever the interleaving of several threads that allocate, reallocate and free through one logging allocator, afterwards it reports exactly the bytes still allocated, the total, the largest and the number of the successful allocations, and a peak that some order of the calls produces (with allocations only: the sum of all). No thread ever reads less than its own calls account for, and the memory of one thread is not disturbed by another.',
  ['schedules', 'operation sequences'], 'every interleaving, at the accesses to the shared counters, of 2 or 3 threads and every assignment of short programs of allocator calls to them',
  'a lost update of a shared counter or maximum needs a switch of threads between two particular instructions; the tests do not exercise the allocator at all',
  ['utils/logging-allocator/src/logging_allocator.rs'],
  [('alloc, dealloc, fetch_max', 'utils/logging-allocator/src/logging_allocator.rs')],
  'stateless exploration of the real allocator under a controlled scheduler of its atomics, with visited-state pruning, a bound on preemptions, on loads of overwritten values and on spuriously failing weak exchanges; oracle: a sequential model of the counters and the set of peaks of all orders of the calls',
  'all interleavings for 2 threads with 1 call each; up to 2 preemptions for 2 threads with up to 2 calls and 3 threads with 1 call (thorough: 3 to 4 preemptions, 3 calls, stale loads); the whole-program allocator is replaced by an allocator object of the same type',
  'atomics scheduled through a stand-in for std (cfg openzkp_verif)')
