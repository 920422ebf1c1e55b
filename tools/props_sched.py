P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level='model_checking', technique=technique, note=note, hook=hook))
HOOK = 'cfg openzkp_verif: the crate resolves std and rayon to a controlled scheduler'
p('C06', 'Results do not depend on the number of threads or the order of tasks',
  'Fourier transforms, shifted copies, vector commitments with their openings, and complete proofs are the same, byte for byte, for every number of threads and every order in which the tasks of a parallel loop are executed.',
  ['schedules', 'inputs', 'configurations'], 'every thread count, every order of parallel tasks, every size',
  'tests run with one thread count and whatever order the machine produces; chunk boundaries depend on the thread count',
  ['algebra/primefield/src/fft/', 'crypto/merkle-tree/src/tree.rs', 'crypto/stark/src/prover.rs', 'crypto/stark/src/proof_of_work.rs'],
  [('parallel transforms', 'algebra/primefield/src/fft/radix_sqrt.rs'), ('chunked copies', 'algebra/primefield/src/fft/mod.rs'), ('parallel tree layers', 'crypto/merkle-tree/src/tree.rs'), ('chunked constraint evaluation', 'crypto/stark/src/prover.rs')],
  'enumeration of task orders and thread counts on the real code under a controlled scheduler, results compared with a sequential reference',
  '11 thread counts x all permutations of up to 4 tasks (8 patterns beyond), uniformly and in each loop alone; transforms to 2^13, trees to 2^11, proofs to 1024 rows plus several evaluation chunks', HOOK)
p('C07', 'The proof of work is the smallest valid nonce under every schedule',
  'With any number of threads and any interleaving of them, including reordered memory accesses, the nonce in a proof is the smallest one whose digest has the required number of leading zero bits, and the search terminates. The verifier accepts a nonce if and only if its digest has at least the required number of leading zero bits.',
  ['schedules', 'inputs'], 'every interleaving of the searching threads, every challenge, every nonce',
  'a race in the shared minimum shows up only in rare interleavings and not in a single-threaded run',
  ['crypto/stark/src/proof_of_work.rs', 'crypto/stark/src/channel.rs'],
  [('Challenge::solve', 'crypto/stark/src/proof_of_work.rs'), ('fetch_min', 'crypto/stark/src/proof_of_work.rs'), ('Challenge::verify', 'crypto/stark/src/proof_of_work.rs')],
  'stateless model checking of the real multi-threaded search under a controlled scheduler with a weak memory model, results compared with a sequential reference',
  'all interleavings of 2 threads (difficulty 0..4), 3 threads (0..2), 4 threads (0) with at most 2 stale loads and 1 spurious exchange failure per run; 256 nonces x difficulties 0..10 for the verifier', HOOK)
