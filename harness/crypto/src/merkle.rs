//! C14 / C15: the Merkle vector commitment against a level-by-level reference tree.
use crate::hash::{rfield, rlist};
use vcommon::keccak::masked;
use vcommon::{hs, hw, Ck, Def};
use zkp_hash::{Hash, Hashable};
use zkp_merkle_tree::{Commitment, Proof, Tree, VectorCommitment};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

type H = [u8; 32];

pub const C14: Def = Def {
    prop: "C14",
    level: "model_checking",
    rule: "trees of 0..2^4 (thorough also 2^5..2^9) leaves, for every number of omitted layers 0..=depth+2: every subset of the indices for up to 16 leaves, every index sequence with repetitions up to length 4 for up to 8 leaves, every subset of at most 2 (thorough 3) indices to 128 leaves and every index to 4096, with stepped, contiguous and scattered sets of 5..257 and more indices; non-power-of-two sizes and out-of-range indices; four leaf types and a custom container; root, hash list, size and acceptance compared with a level-by-level reference tree on an independent Keccak; trees of 2^13 to 2^17 (thorough 2^20) leaves with strided openings; proof sizes for sizes up to 2^63",
    run: c14,
};
pub const C15: Def = Def {
    prop: "C15",
    level: "model_checking",
    rule: "for every subset of the indices of trees of up to 8 leaves (thorough 16) and for sparse trees of depth up to 63: every single leaf changed, moved, dropped, added or duplicated with other content, every bit of every proof hash and of the root flipped (six bits per hash for several indices of the larger trees), every pair of hashes (beyond 8: neighbours) swapped, every wrong hash count and wrong size; long openings (up to 257 leaves, trees up to 2^40) with hashes and leaves at spread positions changed, dropped, inserted, exchanged; the verdict is compared with a reference verifier and no call may panic",
    run: c15,
};

fn node(l: &H, r: &H) -> H {
    let mut b = l.to_vec();
    b.extend_from_slice(r);
    masked(&b)
}
/// levels[0] = [root], levels[depth] = leaves
fn levels(leaves: &[H]) -> Vec<Vec<H>> {
    let mut v = vec![leaves.to_vec()];
    while v[0].len() > 1 {
        let up = v[0].chunks(2).map(|c| node(&c[0], &c[1])).collect();
        v.insert(0, up);
    }
    v
}
/// The hashes a verifier cannot compute itself, bottom layer first, left to right.
fn opening(lv: &[Vec<H>], indices: &[usize]) -> Vec<H> {
    let mut known: Vec<usize> = indices.to_vec();
    known.sort_unstable();
    known.dedup();
    let mut out = vec![];
    for d in (1..lv.len()).rev() {
        for &i in &known {
            if !known.contains(&(i ^ 1)) {
                out.push(lv[d][i ^ 1]);
            }
        }
        known = known.iter().map(|i| i / 2).collect();
        known.dedup();
    }
    out
}
/// Number of hashes needed at depth `depth` (works for sparse trees).
fn opening_size(depth: usize, indices: &[usize]) -> usize {
    let mut known: Vec<usize> = indices.to_vec();
    known.sort_unstable();
    known.dedup();
    let mut n = 0;
    for _ in 0..depth {
        n += known.iter().filter(|i| known.binary_search(&(*i ^ 1)).is_err()).count();
        known = known.iter().map(|i| i / 2).collect();
        known.dedup();
    }
    n
}
/// Recompute the root from leaf hashes and an opening; None if a leaf is inconsistent or a hash is missing.
fn rroot(depth: usize, leaves: &[(usize, H)], hashes: &[H]) -> Option<H> {
    let mut known = leaves.to_vec();
    known.sort();
    known.dedup();
    if known.windows(2).any(|w| w[0].0 == w[1].0) {
        return None;
    }
    let mut it = hashes.iter();
    for _ in 0..depth {
        let mut up: Vec<(usize, H)> = vec![];
        let mut i = 0;
        while i < known.len() {
            let (ix, h) = known[i];
            let n = if ix % 2 == 0 && i + 1 < known.len() && known[i + 1].0 == ix + 1 {
                i += 1;
                node(&h, &known[i].1)
            } else if ix % 2 == 0 {
                node(&h, it.next()?)
            } else {
                node(it.next()?, &h)
            };
            up.push((ix / 2, n));
            i += 1;
        }
        known = up;
    }
    if it.next().is_some() {
        return None;
    }
    known.first().map(|k| k.1)
}
fn arr(h: &Hash) -> H {
    let mut a = [0; 32];
    a.copy_from_slice(h.as_bytes());
    a
}
fn leaf_value(i: usize, salt: usize) -> U256 {
    U256::from_limbs([
        (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ salt as u64,
        i as u64,
        !(i as u64 * 3),
        (salt as u64) << 40 | i as u64,
    ])
}
fn be(u: &U256) -> H {
    vcommon::big::Big::from_limbs(u.as_limbs()).be32()
}

/// custom container: two columns, leaf = pair, its own hash function
struct Pairs(Vec<(u64, u64)>);
struct PairLeaf(u64, u64);
impl Hashable for PairLeaf {
    fn hash(&self) -> Hash {
        let mut b = [0_u8; 32];
        b[..8].copy_from_slice(&self.0.to_be_bytes());
        b[24..].copy_from_slice(&self.1.to_be_bytes());
        Hash::new(b)
    }
}
impl VectorCommitment for Pairs {
    type Leaf = PairLeaf;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn leaf(&self, i: usize) -> PairLeaf {
        PairLeaf(self.0[i].0, self.0[i].1)
    }
}

/// check one opening of `tree` against the reference
fn check_open<C: VectorCommitment>(tree: &Tree<C>, lv: &[Vec<H>], idx: &[usize]) -> Result<(), String> {
    let want = opening(lv, idx);
    let proof = tree.open(idx).map_err(|e| format!("open failed: {:?}", e))?;
    let got: Vec<H> = proof.hashes().iter().map(arr).collect();
    if got != want {
        return Err(format!("opening has {} hashes, reference {}; or contents differ", got.len(), want.len()));
    }
    let n = tree.commitment().proof_size(idx).map_err(|e| format!("{:?}", e))?;
    if n != want.len() {
        return Err(format!("proof_size {} but the opening has {}", n, want.len()));
    }
    let leaves: Vec<(usize, C::Leaf)> = idx.iter().map(|&i| (i, tree.leaf(i))).collect();
    proof.verify(&leaves).map_err(|e| format!("honest opening rejected: {:?}", e))?;
    // the verifier's own copy, assembled from parts; leaves in another order
    let c = Commitment::from_size_hash(tree.commitment().size(), tree.commitment().hash()).map_err(|e| format!("{:?}", e))?;
    let p2 = Proof::from_hashes(&c, idx, proof.hashes()).map_err(|e| format!("from_hashes: {:?}", e))?;
    let leaves: Vec<(usize, C::Leaf)> = idx.iter().rev().map(|&i| (i, tree.leaf(i))).collect();
    p2.verify(&leaves).map_err(|e| format!("reassembled opening rejected: {:?}", e))
}
fn check_tree<C: VectorCommitment>(tree: &Tree<C>, lv: &[Vec<H>], size: usize) -> Result<(), String> {
    if tree.commitment().size() != size {
        return Err("committed size".into());
    }
    if arr(tree.commitment().hash()) != lv[0][0] {
        return Err(format!("root {:?} differs from the reference", tree.commitment().hash()));
    }
    if tree.leaf_depth() != lv.len() - 1 || tree.leaves().len() != size {
        return Err("leaf_depth or leaves".into());
    }
    if VectorCommitment::is_empty(tree.leaves()) != (size == 0) {
        return Err("is_empty of the leaves".into());
    }
    for i in 0..size {
        if arr(&tree.leaf(i).hash()) != lv[lv.len() - 1][i] || arr(&tree.leaves().leaf_hash(i)) != lv[lv.len() - 1][i] {
            return Err(format!("leaf {}", i));
        }
    }
    Ok(())
}
fn subsets_upto(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &cur {
            for i in s.last().map_or(0, |l| l + 1)..n {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}
fn subset(mask: u32) -> Vec<usize> {
    (0..32).filter(|i| mask >> i & 1 == 1).collect()
}

fn c14(ck: &mut Ck) {
    // empty tree
    for skip in 0..4 {
        ck.case(hw(&[skip]), 3, || format!("empty tree skip {}", skip), || {
            let t = Tree::from_leaves_skip_layers(Vec::<U256>::new(), skip as usize).map_err(|e| format!("{:?}", e))?;
            if t.commitment().size() != 0 || !VectorCommitment::is_empty(t.leaves()) {
                return Err("size".into());
            }
            let p = t.open(&[]).map_err(|e| format!("{:?}", e))?;
            if !p.hashes().is_empty() || t.commitment().proof_size(&[]) != Ok(0) {
                return Err("empty opening not empty".into());
            }
            p.verify::<U256>(&[]).map_err(|e| format!("{:?}", e))?;
            if t.open(&[0]).is_ok() {
                return Err("opened leaf 0 of an empty tree".into());
            }
            Ok(())
        });
    }
    // sizes that are not a power of two
    for n in (0..200_usize).filter(|n| *n != 0 && !n.is_power_of_two()) {
        ck.case(hw(&[1, n as u64]), 2, || format!("size {}", n), || {
            let v: Vec<U256> = (0..n).map(|i| leaf_value(i, 0)).collect();
            if Tree::from_leaves(v).is_ok() || Commitment::from_size_hash(n, &Hash::default()).is_ok() {
                return Err("accepted a size that is not a power of two".into());
            }
            Ok(())
        });
    }
    let maxd = ck.b(4_usize, 9);
    // tree shape x skip layers
    let mut shapes = vec![];
    for d in 0..=maxd.max(12) {
        for skip in 0..=d + 2 {
            shapes.push((d, skip));
        }
    }
    ck.par(&shapes, |ck, &(d, skip)| {
        let n = 1_usize << d;
        let uv: Vec<U256> = (0..n).map(|i| leaf_value(i, skip)).collect();
        let uh: Vec<H> = uv.iter().map(be).collect();
        let lv = levels(&uh);
        let mut sets: Vec<Vec<usize>> = match d {
            0..=3 => (0..1_u32 << n).map(subset).collect(),
            4 if skip == 1 || ck.thorough() => (0..1_u32 << n).map(subset).collect(),
            4 => subsets_upto(n, 4),
            5..=7 => subsets_upto(n, ck.b(2, 3)),
            _ => subsets_upto(n, 1),
        };
        // many indices in large trees: every k-th, blocks, pairs, scattered
        if d >= 5 {
            for step in [2_usize, 3, 4, 5, 7, 8, 16, 17, 33] {
                for at in 0..step.min(3) {
                    sets.push((at..n).step_by(step).collect());
                }
            }
            for len in [5_usize, 8, 9, 16, 17, 31, 33, 64, 65, 100, 129, 257] {
                for at in [0, 1, n / 2 - len.min(n / 2) / 2, n - len.min(n)] {
                    sets.push((at..n.min(at + len)).collect());
                }
                sets.push((0..len).map(|i| (i * i * 37 + i * 131) % n).collect());
                sets.push((0..len).flat_map(|i| [(i * 61) % n, (i * 61) % n ^ 1]).collect());
            }
        }
        // a full and an almost full set, and unsorted sequences with repetitions
        sets.push((0..n).rev().collect());
        sets.push((1..n).chain(1..n).collect());
        if d <= 3 {
            let maxlen = if d <= 2 { 4 } else { ck.b(3, 4) };
            let mut cur: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..maxlen {
                cur = cur.iter().flat_map(|s| (0..n).map(move |i| { let mut t = s.clone(); t.push(i); t })).collect();
                sets.extend(cur.iter().cloned());
            }
        }
        let key0 = format!("d{} skip{}", d, skip);
        let mut tree = None;
        ck.case(hw(&[2, d as u64, skip as u64]), 1, || format!("build {}", key0), || {
            let t = Tree::from_leaves_skip_layers(uv.clone(), skip).map_err(|e| format!("{:?}", e))?;
            check_tree(&t, &lv, n)?;
            if skip == 1 {
                let (c, t2) = uv.clone().commit().map_err(|e| format!("{:?}", e))?;
                check_tree(&t2, &lv, n)?;
                let t3 = Tree::from_leaves(uv.clone()).map_err(|e| format!("{:?}", e))?;
                check_tree(&t3, &lv, n)?;
                if c.hash() != t2.commitment().hash() || c.size() != n {
                    return Err("commit() returns another commitment".into());
                }
            }
            tree = Some(t);
            Ok(())
        });
        let tree = match tree {
            Some(t) => t,
            None => match Tree::from_leaves_skip_layers(uv.clone(), skip) {
                Ok(t) => t,
                Err(_) => return,
            },
        };
        for s in &sets {
            ck.case(hw(&[3, d as u64, skip as u64, hs(&format!("{:?}", s))]), 3, || format!("{} open {:?}", key0, s), || check_open(&tree, &lv, s));
        }
        for bad in [n, n + 1, 2 * n, 2 * n + 1, usize::MAX, 1 << 63] {
            for with in [vec![bad], vec![0, bad], vec![bad, n - 1]] {
                ck.case(hw(&[4, d as u64, skip as u64, hs(&format!("{:?}", with))]), 1, || format!("{} open {:?}", key0, with), || {
                    if tree.open(&with).is_ok() || tree.commitment().proof_size(&with).is_ok() || Proof::from_hashes(tree.commitment(), &with, &[]).is_ok() {
                        return Err("accepted an index outside of the tree".into());
                    }
                    Ok(())
                });
            }
        }
        // other leaf types, at small sizes
        if d <= 3 {
            let bigs: Vec<vcommon::big::Big> = (0..n).map(|i| vcommon::big::Big::from_limbs(leaf_value(i, skip).as_limbs()).low_bits(250)).collect();
            let fs: Vec<FieldElement> = bigs.iter().map(|b| FieldElement::from(U256::from_limbs(b.low4()))).collect();
            let flv = levels(&bigs.iter().map(rfield).collect::<Vec<_>>());
            let rows: Vec<Vec<U256>> = (0..n).map(|i| (0..1 + skip).map(|j| leaf_value(i, j)).collect()).collect();
            let rlv = levels(&rows.iter().map(|r| rlist(&r.iter().map(be).collect::<Vec<_>>())).collect::<Vec<_>>());
            let hv: Vec<Hash> = uh.iter().map(|h| Hash::new(*h)).collect();
            let pairs: Vec<(u64, u64)> = (0..n as u64).map(|i| (i * 7 + 1, !i)).collect();
            let plv = levels(&pairs.iter().map(|p| arr(&PairLeaf(p.0, p.1).hash())).collect::<Vec<_>>());
            for mask in 0..1_u32 << n {
                let s = subset(mask);
                ck.case(hw(&[5, d as u64, skip as u64, u64::from(mask)]), 12, || format!("{} other leaf types {:?}", key0, s), || {
                    let t = Tree::from_leaves_skip_layers(fs.clone(), skip).map_err(|e| format!("{:?}", e))?;
                    check_tree(&t, &flv, n)?;
                    check_open(&t, &flv, &s)?;
                    let t = Tree::from_leaves_skip_layers(rows.clone(), skip).map_err(|e| format!("{:?}", e))?;
                    check_tree(&t, &rlv, n)?;
                    check_open(&t, &rlv, &s)?;
                    let t = Tree::from_leaves_skip_layers(hv.clone(), skip).map_err(|e| format!("{:?}", e))?;
                    check_tree(&t, &lv, n)?;
                    check_open(&t, &lv, &s)?;
                    let t = Tree::from_leaves_skip_layers(Pairs(pairs.clone()), skip).map_err(|e| format!("{:?}", e))?;
                    check_tree(&t, &plv, n)?;
                    check_open(&t, &plv, &s)
                });
            }
        }
    });
    // large trees
    let large: Vec<(usize, usize)> = (13..=ck.b(17, 20)).flat_map(|d| vec![(d, 0), (d, 1), (d, 2), (d, d - 1), (d, d), (d, d + 1)]).collect();
    ck.par(&large, |ck, &(d, skip)| {
        let n = 1_usize << d;
        let uv: Vec<U256> = (0..n).map(|i| leaf_value(i, skip)).collect();
        let lv = levels(&uv.iter().map(be).collect::<Vec<H>>());
        ck.case(hw(&[8, d as u64, skip as u64]), n as u64, || format!("large tree d{} skip{}", d, skip), || {
            let t = Tree::from_leaves_skip_layers(uv.clone(), skip).map_err(|e| format!("{:?}", e))?;
            check_tree(&t, &lv, n)?;
            if skip < 3 {
                for step in [1, 3, 37, 1000, n / 2 - 1] {
                    check_open(&t, &lv, &(0..n).step_by(step).collect::<Vec<_>>()).map_err(|e| format!("every {}-th leaf: {}", step, e))?;
                }
            }
            for i in [0, 1, n / 2 - 1, n / 2, n - 2, n - 1, 4095, 4096] {
                check_open(&t, &lv, &[i]).map_err(|e| format!("leaf {}: {}", i, e))?;
            }
            Ok(())
        });
    });
    // openings of sparse trees up to the maximal size: the verifier side only
    let depths: Vec<usize> = (0..64).collect();
    ck.par(&depths, |ck, &d| {
        for s in sparse_sets(d) {
            ck.case(hw(&[6, d as u64, hs(&format!("{:?}", s))]), 3, || format!("sparse d{} {:?}", d, s), || {
                let (root, leaves, hashes) = sparse(d, &s);
                let c = Commitment::from_size_hash(1 << d, &Hash::new(root)).map_err(|e| format!("{:?}", e))?;
                if c.proof_size(&s) != Ok(hashes.len()) {
                    return Err(format!("proof_size {:?}, reference {}", c.proof_size(&s), hashes.len()));
                }
                let hh: Vec<Hash> = hashes.iter().map(|h| Hash::new(*h)).collect();
                let p = Proof::from_hashes(&c, &s, &hh).map_err(|e| format!("{:?}", e))?;
                let lf: Vec<(usize, Hash)> = leaves.iter().map(|(i, h)| (*i, Hash::new(*h))).collect();
                p.verify(&lf).map_err(|e| format!("valid opening rejected: {:?}", e))
            });
        }
    });
}
fn sparse_sets(d: usize) -> Vec<Vec<usize>> {
    let n = 1_usize << d;
    let mut pts = vec![0, n - 1, n / 2, (n / 2).saturating_sub(1), n / 3, 1 % n, n - 1 - (n > 1) as usize];
    pts.sort_unstable();
    pts.dedup();
    (1_u32..1 << pts.len()).map(|m| subset(m).into_iter().map(|i| pts[i]).collect()).collect()
}
/// a tree of depth d known only along the paths of `s`: (root, leaves, opening)
fn sparse(d: usize, s: &[usize]) -> (H, Vec<(usize, H)>, Vec<H>) {
    let leaves: Vec<(usize, H)> = s.iter().map(|&i| (i, masked(&i.to_be_bytes()))).collect();
    let hashes: Vec<H> = (0..opening_size(d, s)).map(|i| masked(&[1, i as u8, d as u8, (i >> 8) as u8])).collect();
    let root = rroot(d, &leaves, &hashes).unwrap();
    (root, leaves, hashes)
}

/// One verifier call with arbitrary (possibly corrupted) parts: the verdict must be the reference's.
fn judge(ck: &mut Ck, what: &dyn Fn() -> String, size: usize, root: &H, idx: &[usize], hashes: &[H], leaves: &[(usize, H)], honest: bool) {
    let depth = size.trailing_zeros() as usize;
    let in_range = idx.iter().chain(leaves.iter().map(|l| &l.0)).all(|i| *i < size);
    let mut a: Vec<usize> = idx.to_vec();
    a.sort_unstable();
    a.dedup();
    let mut b: Vec<usize> = leaves.iter().map(|l| l.0).collect();
    b.sort_unstable();
    b.dedup();
    let want = in_range
        && a == b
        && hashes.len() == opening_size(depth, idx)
        && (a.is_empty() || rroot(depth, leaves, hashes).map_or(false, |r| r == *root));
    ck.outcome(if want { "accepted" } else { "rejected" });
    let st = hw(&[size as u64, hs(&format!("{:?}{:?}{:?}{:?}", root, idx, hashes, leaves))]);
    ck.case(st, 2, || what(), || {
        if honest && !want {
            return Err("reference rejects the honest case".into());
        }
        let c = match Commitment::from_size_hash(size, &Hash::new(*root)) {
            Ok(c) => c,
            Err(e) => return if want { Err(format!("{:?}", e)) } else { Ok(()) },
        };
        let hh: Vec<Hash> = hashes.iter().map(|h| Hash::new(*h)).collect();
        let lf: Vec<(usize, Hash)> = leaves.iter().map(|(i, h)| (*i, Hash::new(*h))).collect();
        let got = match Proof::from_hashes(&c, idx, &hh) {
            Ok(p) => p.verify(&lf),
            Err(e) => Err(e),
        };
        if got.is_ok() != want {
            return Err(format!("verdict {:?}, reference says {}", got, if want { "accept" } else { "reject" }));
        }
        Ok(())
    });
}
fn mutate(ck: &mut Ck, tag: &str, size: usize, root: H, s: &[usize], hashes: &[H], leaves: &[(usize, H)], bits: &[usize]) {
    let n = size;
    judge(ck, &|| format!("{} honest", tag), n, &root, s, hashes, leaves, true);
    let other: H = masked(b"other");
    for k in 0..leaves.len() {
        for bit in bits {
            let mut l = leaves.to_vec();
            l[k].1[bit / 8] ^= 1 << (bit % 8);
            judge(ck, &|| format!("{} leaf {} bit {}", tag, k, bit), n, &root, s, hashes, &l, false);
            // duplicate the leaf with other content, in front and behind
            let mut l2 = leaves.to_vec();
            l2.push(l[k]);
            judge(ck, &|| format!("{} conflicting duplicate of leaf {} bit {}", tag, k, bit), n, &root, s, hashes, &l2, false);
            l2.rotate_right(1);
            judge(ck, &|| format!("{} conflicting duplicate in front of leaf {} bit {}", tag, k, bit), n, &root, s, hashes, &l2, false);
        }
        let mut l = leaves.to_vec();
        l[k].1 = other;
        judge(ck, &|| format!("{} leaf {} replaced", tag, k), n, &root, s, hashes, &l, false);
        let mut l = leaves.to_vec();
        l.remove(k);
        judge(ck, &|| format!("{} leaf {} dropped", tag, k), n, &root, s, hashes, &l, false);
        let mut l = leaves.to_vec();
        let x = l[k];
        l.push(x);
        judge(ck, &|| format!("{} leaf {} repeated", tag, k), n, &root, s, hashes, &l, false);
        for to in moved(n, leaves[k].0) {
            let mut l = leaves.to_vec();
            l[k].0 = to;
            judge(ck, &|| format!("{} leaf {} moved to {}", tag, k, to), n, &root, s, hashes, &l, false);
            // moved in both the leaf list and the index list
            let idx: Vec<usize> = l.iter().map(|x| x.0).collect();
            judge(ck, &|| format!("{} leaf and index {} moved to {}", tag, k, to), n, &root, &idx, hashes, &l, false);
            let mut l = leaves.to_vec();
            l.push((to, leaves[k].1));
            judge(ck, &|| format!("{} extra leaf {}", tag, to), n, &root, s, hashes, &l, false);
        }
        for j in 0..k {
            let mut l = leaves.to_vec();
            let t = l[j].1;
            l[j].1 = l[k].1;
            l[k].1 = t;
            judge(ck, &|| format!("{} leaves {} {} swapped", tag, j, k), n, &root, s, hashes, &l, false);
        }
    }
    judge(ck, &|| format!("{} no leaves", tag), n, &root, s, hashes, &[], false);
    judge(ck, &|| format!("{} no leaves no indices", tag), n, &root, &[], hashes, &[], false);
    for k in 0..hashes.len() {
        for bit in bits {
            let mut h = hashes.to_vec();
            h[k][bit / 8] ^= 1 << (bit % 8);
            judge(ck, &|| format!("{} hash {} bit {}", tag, k, bit), n, &root, s, &h, leaves, false);
        }
        for j in if hashes.len() <= 8 { 0 } else { k.saturating_sub(1) }..k {
            let mut h = hashes.to_vec();
            h.swap(j, k);
            judge(ck, &|| format!("{} hashes {} {} swapped", tag, j, k), n, &root, s, &h, leaves, false);
        }
        if k > 8 && k + 2 < hashes.len() {
            continue;
        }
        let mut h = hashes.to_vec();
        h.remove(k);
        judge(ck, &|| format!("{} hash {} dropped", tag, k), n, &root, s, &h, leaves, false);
        let mut h = hashes.to_vec();
        h.insert(k, other);
        judge(ck, &|| format!("{} hash inserted at {}", tag, k), n, &root, s, &h, leaves, false);
    }
    let mut h = hashes.to_vec();
    h.push(other);
    judge(ck, &|| format!("{} hash appended", tag), n, &root, s, &h, leaves, false);
    for &bit in bits {
        let mut r = root;
        r[bit / 8] ^= 1 << (bit % 8);
        judge(ck, &|| format!("{} root bit {}", tag, bit), n, &r, s, hashes, leaves, false);
    }
    for size in [0, 1, n / 2, n.wrapping_mul(2), n.wrapping_mul(4), n + 1, 1 << 63] {
        if size == n {
            continue;
        }
        judge_size(ck, &|| format!("{} size {}", tag, size), size, &root, s, hashes, leaves);
    }
}
/// wrong size: only totality and, when the size is a power of two, the reference verdict
fn judge_size(ck: &mut Ck, what: &dyn Fn() -> String, size: usize, root: &H, s: &[usize], hashes: &[H], leaves: &[(usize, H)]) {
    if size.is_power_of_two() {
        judge(ck, what, size, root, s, hashes, leaves, false);
    } else {
        ck.case(hw(&[7, size as u64, hs(&format!("{:?}", s))]), 1, || what(), || {
            if let Ok(c) = Commitment::from_size_hash(size, &Hash::new(*root)) {
                let hh: Vec<Hash> = hashes.iter().map(|h| Hash::new(*h)).collect();
                if !s.is_empty() && Proof::from_hashes(&c, s, &hh).is_ok() {
                    return Err("accepted an opening of a tree of this size".into());
                }
                if size != 0 {
                    return Err("accepted a size that is not a power of two".into());
                }
            }
            Ok(())
        });
    }
    let _ = leaves;
}
fn moved(n: usize, from: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if n <= 16 { (0..n).collect() } else { vec![from ^ 1, 0, n - 1, from / 2, from.wrapping_add(1)] };
    v.extend_from_slice(&[n, n + 1, n | from, usize::MAX, (1 << 63) | from, from.wrapping_add(n)]);
    v.retain(|t| *t != from);
    v
}
/// all small positions, powers of two and their neighbours, the last ones
fn spread(n: usize) -> Vec<usize> {
    (0..n).filter(|&k| k < 9 || k + 3 > n || k.is_power_of_two() || (k + 1).is_power_of_two() || (k - 1).is_power_of_two() || k % 100 == 0).collect()
}
fn c15(ck: &mut Ck) {
    let maxd = ck.b(3, 4);
    let mut items = vec![];
    for d in 0..=maxd {
        for mask in 0..1_u32 << (1_u32 << d) {
            // at 16 leaves: at most 3 indices or at most 2 missing
            if d == 4 && mask.count_ones() > 3 && mask.count_ones() < 14 {
                continue;
            }
            items.push((d, mask));
        }
    }
    let all: Vec<usize> = (0..256).collect();
    ck.par(&items, |ck, &(d, mask)| {
        let n = 1_usize << d;
        let s = subset(mask);
        let hv: Vec<H> = (0..n).map(|i| be(&leaf_value(i, d))).collect();
        let lv = levels(&hv);
        let hashes = opening(&lv, &s);
        let leaves: Vec<(usize, H)> = s.iter().map(|&i| (i, hv[i])).collect();
        let few: Vec<usize> = vec![0, 7, 100, 159, 160, 255];
        let bits = if d <= 2 || (d == 3 && (ck.thorough() || mask.count_ones() == 1)) { &all } else { &few };
        mutate(ck, &format!("d{} {:?}", d, s), n, lv[0][0], &s, &hashes, &leaves, bits);
    });
    let depths: Vec<(usize, Vec<usize>)> = (4..64).filter(|d| ck.thorough() || d % 7 == 0 || [4, 5, 31, 32, 33, 62, 63].contains(d)).flat_map(|d| sparse_sets(d).into_iter().filter(|s| s.len() <= 3).map(move |s| (d, s))).collect();
    ck.par(&depths, |ck, (d, s)| {
        let (root, leaves, hashes) = sparse(*d, s);
        mutate(ck, &format!("sparse d{} {:?}", d, s), 1 << d, root, s, &hashes, &leaves, &[0, 159, 160, 255]);
    });
    // long openings
    let mut long = vec![];
    for d in [8_usize, 12, 16, 20, 40] {
        for m in [9_usize, 17, 33, 65, 129, 257] {
            if 1 << d > 2 * m {
                long.push((d, m, 0));
                long.push((d, m, 1));
            }
        }
    }
    ck.par(&long, |ck, &(d, m, kind)| {
        let n = 1_usize << d;
        let idx: Vec<usize> = if kind == 0 { (0..m).map(|i| i * (n / m)).collect() } else { (0..m).map(|i| n - m + i).collect() };
        let (root, leaves, hashes) = sparse(d, &idx);
        let tag = format!("long d{} {} leaves kind {}", d, m, kind);
        judge(ck, &|| format!("{} honest", tag), n, &root, &idx, &hashes, &leaves, true);
        let other: H = masked(b"other");
        for k in spread(leaves.len()) {
            let mut l = leaves.to_vec();
            l[k].1[31] ^= 1;
            judge(ck, &|| format!("{} leaf {} changed", tag, k), n, &root, &idx, &hashes, &l, false);
            let mut l2 = leaves.to_vec();
            l2.push(l[k]);
            judge(ck, &|| format!("{} conflicting duplicate of leaf {}", tag, k), n, &root, &idx, &hashes, &l2, false);
            let mut l = leaves.to_vec();
            l.remove(k);
            judge(ck, &|| format!("{} leaf {} dropped", tag, k), n, &root, &idx, &hashes, &l, false);
            let mut l = leaves.to_vec();
            let j = (k + 1) % l.len();
            let t = l[j].1;
            l[j].1 = l[k].1;
            l[k].1 = t;
            judge(ck, &|| format!("{} leaf {} exchanged", tag, k), n, &root, &idx, &hashes, &l, false);
        }
        for k in spread(hashes.len()) {
            let mut h = hashes.to_vec();
            h[k][31] ^= 1;
            judge(ck, &|| format!("{} hash {} changed", tag, k), n, &root, &idx, &h, &leaves, false);
            let mut h = hashes.to_vec();
            h.remove(k);
            judge(ck, &|| format!("{} hash {} dropped", tag, k), n, &root, &idx, &h, &leaves, false);
            let mut h = hashes.to_vec();
            h.insert(k, other);
            judge(ck, &|| format!("{} hash inserted at {}", tag, k), n, &root, &idx, &h, &leaves, false);
            if k > 0 {
                let mut h = hashes.to_vec();
                h.swap(k, k - 1);
                judge(ck, &|| format!("{} hash {} exchanged", tag, k), n, &root, &idx, &h, &leaves, false);
            }
        }
        let mut h = hashes.to_vec();
        h.push(other);
        judge(ck, &|| format!("{} hash appended", tag), n, &root, &idx, &h, &leaves, false);
    });
}
