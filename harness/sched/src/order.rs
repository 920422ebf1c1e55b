//! C06: transforms, trees and proofs for every number of threads and order of their tasks.
use crate::refstark::{self as r, Cheat, Spec};
use crate::rf::{evaluate, interpolate, permuted, Fe};
use crate::systems::{min_n, system, SYSTEMS};
use crate::rt::{with_orders, with_threads, Orders};
use vcommon::keccak::keccak256;
use vcommon::{hs, Ck, Def};
use zkp_hash::Hash;
use zkp_merkle_tree::{Tree};
use zkp_primefield::{fft::permute, Fft, FieldElement};
use zkp_stark::prove;
use zkp_u256::U256;

pub const C06: Def = Def {
    prop: "C06",
    level: "model_checking",
    rule: "Fourier transforms (plain, inverse, shifted copies, low-degree extension) of every power-of-two length to 2^13 (thorough 2^15), vector commitments of every size to 2^11 (2^13) with openings, and complete proofs of 10 constraint systems (8..1024 rows, and one with several evaluation chunks), each for 1..=9, 16 and 64 threads with the tasks of every parallel loop executed in every order pattern (all permutations of up to 4 tasks, otherwise 8 patterns) - the same in all loops, and with each single loop reordered alone; results compared byte for byte with the sequential reference",
    run: c06,
};
const THREADS: [usize; 11] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 64];

fn fes(n: usize, salt: u64) -> Vec<Fe> {
    (0..n as u64).map(|i| Fe::int(i * i * 77 + salt).pow(5) + Fe::int(salt)).collect()
}
fn conv(v: &[Fe]) -> Vec<FieldElement> {
    v.iter().map(|x| x.fe()).collect()
}
fn same(what: &str, a: &[FieldElement], b: &[FieldElement]) -> Result<(), String> {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None if a.len() == b.len() => Ok(()),
        None => Err(format!("{}: {} values instead of {}", what, a.len(), b.len())),
        Some(i) => Err(format!("{}: value {} of {} is wrong", what, i, a.len())),
    }
}
/// all ways to run f; f must succeed in every one
fn schedules(ck: &mut Ck, name: &str, threads: &[usize], f: &(dyn Fn() -> Result<(), String> + Sync)) {
    for t in threads {
        let go = |ck: &mut Ck, o: Orders| {
            let key = format!("{} threads={} {:?}", name, t, o);
            let mut l = 0;
            ck.case(hs(&key), 1, || key.clone(), || {
                let (r, n) = with_threads(*t, || with_orders(o, f));
                l = n;
                r
            });
            ck.steps(l as u64);
            l
        };
        let mut n = 0;
        for p in 0..24 {
            n = n.max(go(ck, Orders::All(p)));
        }
        if *t == 2 || *t == 7 {
            for k in 0..n {
                for p in 1..8 {
                    go(ck, Orders::Only(k, p));
                }
            }
        }
    }
}
fn tree_ref(leaves: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
    let mut out = vec![leaves.to_vec()];
    while out.last().unwrap().len() > 1 {
        let l = out.last().unwrap();
        let next = l
            .chunks(2)
            .map(|c| {
                let mut h = keccak256(&[&c[0][..], &c[1][..]].concat());
                for b in &mut h[20..] {
                    *b = 0;
                }
                h
            })
            .collect();
        out.push(next);
    }
    out
}
fn default_layout(n: usize) -> Vec<usize> {
    let log = n.trailing_zeros() as usize;
    let k = if log > 8 { log - 8 } else { log };
    let mut v = vec![3; k / 3];
    if k % 3 > 0 {
        v.push(k % 3);
    }
    v
}

enum Item {
    Fft(usize),
    Shift(usize),
    Tree(usize),
    Proof(Spec, Vec<Vec<Fe>>, Vec<usize>),
}
fn c06(ck: &mut Ck) {
    let mut items = vec![];
    // the expensive ones first
    {
        let (mut s, t) = system("periodic", 1 << 14, 3);
        s.blowup = 16;
        s.queries = 4;
        s.layout = vec![3, 3];
        items.push(Item::Proof(s, t, vec![3]));
        let n = ck.b(1 << 15, 1 << 16);
        let (mut s, t) = system("square", n, 3);
        s.blowup = ck.b(4, 2);
        s.queries = 4;
        s.layout = vec![4, 3];
        items.push(Item::Proof(s, t, vec![4]));
    }
    for name in SYSTEMS {
        for n in ck.b(vec![8, 64, 1024], vec![1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]) {
            if n < min_n(name) {
                continue;
            }
            let (mut s, t) = system(name, n, 5);
            s.blowup = 8.max(s.split());
            s.queries = 5;
            s.pow = 3;
            s.layout = default_layout(n);
            items.push(Item::Proof(s, t, if n > 64 && ck.quick() { vec![1, 5, 16] } else { THREADS.to_vec() }));
        }
    }
    for log in (0..=ck.b(13, 15)).rev() {
        items.push(Item::Fft(1 << log));
    }
    for n in [0, 1, 2, 3, 7, 31, 100, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 5000, 8191, 8192, 8193, 10_000] {
        items.push(Item::Shift(n));
    }
    for log in 0..=ck.b(11, 13) {
        items.push(Item::Tree(1 << log));
    }
    ck.par(&items, |ck, it| match it {
        Item::Fft(n) => {
            let x = fes(*n, 3);
            let shift = Fe::int(3);
            let natural = conv(&x);
            let plain = conv(&permuted(&evaluate(&x, Fe::one(), *n)));
            let inverse = conv(&permuted(&interpolate(&x, Fe::one())));
            let shifted = conv(&permuted(&evaluate(&x, shift, *n)));
            schedules(ck, &format!("transform of {}", n), &THREADS, &|| {
                let mut v = natural.clone();
                v.fft();
                same("fft", &v, &plain)?;
                let mut v = natural.clone();
                v.ifft();
                same("ifft", &v, &inverse)?;
                permute(&mut v);
                v.fft();
                permute(&mut v);
                same("fft of ifft", &v, &natural)?;
                let mut v = vec![FieldElement::from(5_u64); *n];
                v.clone_shifted(&natural, &shift.fe());
                v.fft();
                same("shifted transform", &v, &shifted)
            });
        }
        Item::Shift(n) => {
            let x = fes(*n, 9);
            let mut k = Fe::one();
            let mut want = vec![];
            for v in &x {
                want.push(*v * k);
                k *= Fe::int(7);
            }
            let (x, want) = (conv(&x), conv(&want));
            schedules(ck, &format!("shifted copy of {}", n), &THREADS, &|| {
                let mut v = vec![FieldElement::from(5_u64); *n];
                v.clone_shifted(&x, &FieldElement::from(7_u64));
                same("clone_shifted", &v, &want)
            });
        }
        Item::Tree(n) => {
            let leaves: Vec<U256> = (0..*n as u64).map(|i| U256::from(i * i + 1)).collect();
            let bytes: Vec<[u8; 32]> = leaves.iter().map(|l| l.to_bytes_be()).collect();
            let lv = tree_ref(&bytes);
            let root = Hash::new(lv.last().unwrap()[0]);
            for skip in [0, 1, 2, 3] {
                if 1 << skip > *n {
                    continue;
                }
                schedules(ck, &format!("tree of {} skipping {}", n, skip), &THREADS, &|| {
                    let t = Tree::from_leaves_skip_layers(leaves.clone(), skip).map_err(|e| format!("{:?}", e))?;
                    if t.commitment().hash() != &root {
                        return Err("wrong root".into());
                    }
                    let idx: Vec<usize> = [0, 1, n / 3, n / 2, n - 1].iter().copied().filter(|i| i < n).collect();
                    for i in &idx {
                        let p = t.open(&[*i]).map_err(|e| format!("{:?}", e))?;
                        let want: Vec<Hash> = (0..lv.len() - 1).map(|d| Hash::new(lv[d][(i >> d) ^ 1])).collect();
                        if p.hashes() != &want[..] {
                            return Err(format!("opening of {} has other hashes", i));
                        }
                        p.verify(&[(*i, &leaves[*i])]).map_err(|e| format!("opening of {}: {:?}", i, e))?;
                    }
                    Ok(())
                });
            }
        }
        Item::Proof(s, t, threads) => {
            let tx = r::prove(s, t, &Cheat::None);
            let con = s.constraints();
            let table = r::table(t);
            let f = || {
                let p = prove(&con, &table).map_err(|e| format!("prove failed: {:?}", e))?;
                if p.as_bytes() == &tx.bytes[..] {
                    return Ok(());
                }
                let at = p.as_bytes().iter().zip(&tx.bytes).position(|(x, y)| x != y).unwrap_or(0);
                let sec = tx.sections.iter().find(|s| s.1 <= at && at < s.2).map_or("length", |s| &s.0);
                Err(format!("the proof differs from the sequential one first at byte {} ({})", at, sec))
            };
            if s.n >= 1 << 14 {
                for p in [0, 1, 7] {
                    let key = format!("{} threads={} order {}", s.key(), threads[0], p);
                    ck.case(hs(&key), 1, || key.clone(), || with_threads(threads[0], || with_orders(Orders::All(p), f)).0);
                }
            } else {
                schedules(ck, &s.key(), threads, &f);
            }
        }
    });
}
