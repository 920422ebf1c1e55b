//! C33: the building blocks of the verifier contracts compute what they say.
use crate::{
    interp::{Stop, Tree, Vm},
    refstark::{leading_zeros, open_len},
    rf::{horner, Fe},
    sys,
    word::W,
};
use std::collections::BTreeMap;
use vcommon::{
    hs,
    keccak::{keccak256, masked},
    Ck, Def,
};

pub const C33: Def = Def {
    prop: "C33",
    rule: "field operations on all pairs of boundary values; polynomial evaluation and batch inversion for all lengths; roots of all orders 2^0..2^255; bit reversal of all numbers up to a width and of all sparse wider ones; sorting, copying and truncating of all short arrays; all operation sequences of the public coin up to a depth; query generation for all counts; Merkle proofs of all leaf subsets of all small trees, right and altered; executed statement by statement against reference functions",
    level: "model_checking",
    run: c33,
};

struct Env {
    vm: Vm,
    at: BTreeMap<&'static str, usize>,
}
const CLASSES: [&str; 7] = ["PrimeField", "Utils", "PublicCoin", "Iterators", "MerkleVerifier", "StarkVerifier", "Recurrence"];
thread_local! {
    static ENV: std::cell::RefCell<Option<Result<Env, String>>> = const { std::cell::RefCell::new(None) };
}
fn env<T>(f: impl FnOnce(&mut Env) -> Option<T>) -> Option<T> {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.get_or_insert_with(|| {
            let mut vm = Vm::new(sys::sources())?;
            let mut at = BTreeMap::new();
            for c in CLASSES {
                if let Ok(k) = vm.class(c) {
                    let args: Vec<_> = match (c, vm.class("ConstraintPolyLen256")) {
                        ("Recurrence", Ok(q)) => vec![(crate::ast::Ty::Contract(q as u32), W::u(0x10000))],
                        _ => vec![],
                    };
                    if let Ok(i) = vm.deploy(k, &args) {
                        at.insert(c, i);
                    }
                }
            }
            Ok(Env { vm, at })
        });
        match e {
            Ok(e) => f(e),
            Err(_) => None,
        }
    })
}
#[derive(Debug, PartialEq)]
enum Out {
    Ok(Vec<Tree>, Vec<Tree>),
    Revert,
}
/// None: cannot be executed
fn call(class: &'static str, name: &str, ret: &[&str], args: &[(&str, &str, Tree)]) -> Option<Out> {
    env(|e| {
        let i = *e.at.get(class)?;
        match e.vm.call_named(i, name, ret, args) {
            Ok((r, a)) => Some(Out::Ok(r, a)),
            Err(Stop::Revert(_)) => Some(Out::Revert),
            Err(_) => None,
        }
    })
}
fn w(x: W) -> Tree {
    Tree::Word(x)
}
fn u(x: u64) -> Tree {
    Tree::u(x)
}
fn show(o: &Out) -> String {
    match o {
        Out::Revert => "reverts".into(),
        Out::Ok(r, a) => format!("returns {:?}, arguments afterwards {:?}", r, a),
    }
}
/// one call; judged by the caller
fn one(
    ck: &mut Ck,
    class: &'static str,
    name: &'static str,
    ret: &[&str],
    args: &[(&str, &str, Tree)],
    judge: impl FnOnce(&Out) -> bool,
) {
    let key = || format!("{}.{} {:?}", class, name, args.iter().map(|a| (a.1, &a.2)).collect::<Vec<_>>());
    let mut decided = false;
    ck.case(hs(&key()), 1, key, || match call(class, name, ret, args) {
        None => Ok(()),
        Some(o) => {
            decided = true;
            if judge(&o) {
                Ok(())
            } else {
                Err(show(&o))
            }
        }
    });
    ck.outcome(if decided { name } else { "not decided" });
}
fn is(v: W) -> impl FnOnce(&Out) -> bool {
    move |o| matches!(o, Out::Ok(r, _) if r == &[w(v)])
}
const P: &str = "0800000000000011000000000000000000000000000000000000000000000001";
fn p() -> W {
    W::hex(P)
}
fn fw(f: Fe) -> W {
    W(f.0)
}

fn c33(ck: &mut Ck) {
    ck.case(1, 1, || "interpreter arithmetic".into(), || {
        crate::word::self_check();
        Ok(())
    });
    field(ck);
    utils(ck);
    coin(ck);
    queries(ck);
    merkle(ck);
}

fn values(ck: &Ck) -> (Vec<W>, Vec<W>) {
    let mut v = vec![W::ZERO, W::ONE, W::u(2), W::u(3), W::u(u64::MAX), W::u(1).shl(W::u(64))];
    for k in [127, 128, 191, 192, 196, 250, 251] {
        let t = W::ONE.shl(W::u(k));
        v.extend([t, t.sub(W::ONE), p().sub(t)]);
    }
    v.extend([p().sub(W::ONE), p().sub(W::u(2)), fw(Fe::one()), fw(Fe::int(3)), p().shr(W::ONE), p().shr(W::ONE).add(W::ONE)]);
    for i in 0..ck.b(4, 24) {
        v.push(W::from_be(&keccak256(&[i as u8])).divrem(p()).1);
    }
    let mut wide = v.clone();
    wide.extend([p(), p().add(W::ONE), p().add(p()), W::MAX, W::MAX.sub(W::ONE), W::ONE.shl(W::u(255)), W::from_be(&keccak256(b"w"))]);
    let fix = |mut x: Vec<W>| {
        x.sort();
        x.dedup();
        x
    };
    (fix(v.into_iter().filter(|x| *x < p()).collect()), fix(wide))
}
fn rinv() -> W {
    W::ONE.shl(W::u(128)).mulmod(W::ONE.shl(W::u(128)), p()).powmod(p().sub(W::u(2)), p())
}
fn field(ck: &mut Ck) {
    let (red, wide) = values(ck);
    let r = W::ONE.shl(W::u(128)).mulmod(W::ONE.shl(W::u(128)), p());
    let ri = rinv();
    const F: &str = "PrimeField";
    const U: &str = "uint256";
    let (rd, wd) = (&red, &wide);
    ck.par(wd, |ck, a| {
        let a = *a;
        one(ck, F, "from_montgomery", &[U], &[(U, "value", w(a))], is(a.mulmod(ri, p())));
        one(ck, F, "to_montgomery", &[U], &[(U, "value", w(a))], is(a.mulmod(r, p())));
        one(ck, F, "from_montgomery_bytes", &[U], &[("bytes32", "bs", w(a))], is(a.mulmod(ri, p())));
        for b in wd {
            let b = *b;
            one(ck, F, "fmul", &[U], &[(U, "a", w(a)), (U, "b", w(b))], is(a.mulmod(b, p())));
            one(ck, F, "fadd", &[U], &[(U, "a", w(a)), (U, "b", w(b))], is(a.addmod(b, p())));
            one(ck, F, "fmul_mont", &[U], &[(U, "a", w(a)), (U, "b", w(b))], is(a.mulmod(b, p()).mulmod(ri, p())));
            one(ck, F, "fpow", &[U], &[(U, "value", w(a)), (U, "exp", w(b))], is(a.powmod(b, p())));
        }
        for b in rd {
            let n = p().sub(*b).divrem(p()).1;
            one(ck, F, "fsub", &[U], &[(U, "a", w(a)), (U, "b", w(*b))], is(a.addmod(n, p())));
        }
        if !a.divrem(p()).1.is_zero() {
            one(ck, F, "inverse", &[U], &[(U, "value", w(a))], is(a.powmod(p().sub(W::u(2)), p())));
        }
        for m in [W::u(2), W::u(7), W::u(1 << 40), W::MAX, p()] {
            for e in [W::ZERO, W::ONE, W::u(2), W::u(1025), W::MAX] {
                let x = [(U, "base", w(a)), (U, "exponent", w(e)), (U, "modulus", w(m))];
                one(ck, F, "expmod", &[U], &x, is(a.powmod(e, m)));
            }
        }
    });
    // roots of unity
    for k in 0..256_u64 {
        let want = if k <= 192 {
            let e = p().sub(W::ONE).shr(W::u(k));
            Some(W::u(3).powmod(e, p()))
        } else {
            None
        };
        let good = |o: &Out| match want {
            Some(x) => matches!(o, Out::Ok(r, _) if r == &[w(x)]),
            None => *o == Out::Revert,
        };
        one(ck, F, "generator_power", &[U], &[("uint8", "log_order", u(k))], good);
        one(ck, F, "root", &[U], &[(U, "order", w(W::ONE.shl(W::u(k))))], good);
        if k < 64 {
            let e = "{uint256 eval_domain_generator, uint8 log_eval_domain_size, uint64 eval_domain_size}";
            let size = W::ONE.shl(W::u(k));
            one(ck, F, "init_eval", &[e], &[("uint8", "log_eval_domain_size", u(k))], |o| {
                matches!(o, Out::Ok(r, _) if r == &[Tree::Seq(vec![w(want.unwrap()), u(k), w(size)])])
            });
            for i in [0, 1, 2, 3, 5, 100, (1 << k) - 1, 1 << k] {
                let x = [(e, "eval_x", Tree::Seq(vec![w(want.unwrap()), u(k), w(size)])), (U, "index", u(i))];
                one(ck, F, "lookup", &[U], &x, is(want.unwrap().powmod(W::u(i), p())));
            }
        }
    }
    for o in (0..ck.b(300, 3000_u64)).filter(|o| !o.is_power_of_two()) {
        let pm = p().sub(W::ONE);
        let (q, r) = pm.divrem(W::u(o.max(1)));
        one(ck, F, "root", &[U], &[(U, "order", u(o))], |x| {
            if o == 0 || !r.is_zero() {
                *x == Out::Revert
            } else {
                matches!(x, Out::Ok(v, _) if v == &[w(W::u(3).powmod(q, p()))])
            }
        });
    }
    // polynomials of every length; coefficients at their extremes
    let lens: Vec<usize> = (0..=ck.b(40, 80)).collect();
    ck.par(&lens, |ck, &len| {
        for pat in 0..6_u64 {
            let c: Vec<Fe> = (0..len)
                .map(|i| match pat {
                    0 => Fe::sint(-1),
                    1 => Fe::int(i as u64 + 1),
                    2 => Fe(p().sub(W::ONE).0),
                    3 => {
                        if i + 1 == len {
                            Fe::one()
                        } else {
                            Fe::ZERO
                        }
                    }
                    4 => {
                        if i == 0 {
                            Fe(p().sub(W::ONE).0)
                        } else {
                            Fe::ZERO
                        }
                    }
                    _ => Fe(W::from_be(&keccak256(&[len as u8, i as u8])).divrem(p()).1 .0),
                })
                .collect();
            for x in [Fe::ZERO, Fe::one(), Fe::sint(-1), Fe::int(3), Fe::root(1 << 10), Fe(p().sub(W::ONE).0)] {
                // the contract works on plain numbers; Montgomery coefficients give a Montgomery result
                let xp = W::from_be(&hex::decode(sys::plain(x)).unwrap());
                let cs: Vec<W> = c.iter().map(|c| fw(*c)).collect();
                let a = [("uint256[]", "coefficients", Tree::words(&cs)), (U, "x", w(xp))];
                one(ck, F, "horner_eval", &[U], &a, is(fw(horner(&c, x))));
            }
            if len > 0 {
                let v: Vec<W> = c.iter().map(|c| fw(*c)).collect();
                if v.iter().all(|x| !x.is_zero()) {
                    let inv: Vec<W> = v.iter().map(|x| x.powmod(p().sub(W::u(2)), p())).collect();
                    let a = [
                        ("uint256[]", "input_data", Tree::words(&v)),
                        ("uint256[]", "output_data", Tree::words(&vec![W::u(pat); len])),
                    ];
                    one(ck, F, "batch_invert", &[], &a, |o| {
                        matches!(o, Out::Ok(_, b) if b[0] == Tree::words(&v) && b[1] == Tree::words(&inv))
                    });
                }
                let a = [
                    ("uint256[]", "input_data", Tree::words(&v)),
                    ("uint256[]", "output_data", Tree::words(&vec![W::ONE; len + 1])),
                ];
                one(ck, F, "batch_invert", &[], &a, |o| *o == Out::Revert);
            }
            let v: Vec<W> = c.iter().map(|c| fw(*c)).collect();
            one(ck, F, "from_bytes_array_raw", &["uint256[]"], &[("bytes32[]", "input", Tree::words(&v))], |o| {
                matches!(o, Out::Ok(r, _) if r == &[Tree::words(&v)])
            });
        }
    });
}

fn arrays(max_len: usize, vals: &[u64]) -> Vec<Vec<u64>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max_len {
        let mut next = vec![];
        for l in &last {
            for v in vals {
                let mut l: Vec<u64> = l.clone();
                l.push(*v);
                next.push(l);
            }
        }
        all.extend(next.clone());
        last = next;
    }
    all
}
fn utils(ck: &mut Ck) {
    const U: &str = "Utils";
    let rev = |n: u64, bits: u64| (0..bits).filter(|b| n >> b & 1 == 1).map(|b| 1_u64 << (bits - 1 - b)).sum::<u64>();
    let widths: Vec<u64> = (0..=63).collect();
    let full = ck.b(9, 13);
    ck.par(&widths, |ck, &bits| {
        let mut v: Vec<u64> = if bits <= full {
            (0..1 << bits).collect()
        } else {
            let mut v = vec![0, (1 << bits) - 1];
            for i in 0..bits {
                v.push(1 << i);
                v.push((1 << bits) - 1 - (1 << i));
                for j in 0..i {
                    v.push(1 << i | 1 << j);
                }
            }
            v
        };
        v.sort_unstable();
        v.dedup();
        for n in v {
            let want = rev(n, bits);
            one(ck, U, "bit_reverse", &["uint256"], &[("uint256", "num", u(n)), ("uint8", "number_of_bits", u(bits))], is(W::u(want)));
            if bits <= 40 {
                let a = [("uint256", "num", u(n)), ("uint256", "number_of_bits", u(bits))];
                one(ck, U, "bit_reverse2", &["uint256"], &a, is(W::u(want)));
            }
        }
    });
    let mut v: Vec<u64> = (1..=ck.b(1500, 70000)).collect();
    for k in 1..64_u64 {
        v.extend([1 << k, (1 << k) - 1, (1 << k) + 1, (1 << k) | (1 << (k / 2))]);
    }
    v.push(u64::MAX);
    v.sort_unstable();
    v.dedup();
    let chunks: Vec<&[u64]> = v.chunks(500).collect();
    ck.par(&chunks, |ck, c| {
        for n in *c {
            let want = 63 - u64::from(n.leading_zeros());
            one(ck, U, "num_bits", &["uint8"], &[("uint64", "data", u(*n))], is(W::u(want)));
        }
    });
    // sorting: all short arrays
    let mut all = arrays(ck.b(5, 6), &[0, 1, 2, 3]);
    all.extend(arrays(4, &[0, 1 << 63, u64::MAX, 7]));
    for n in 6..=ck.b(40, 120_u64) {
        all.push((0..n).rev().collect());
        all.push((0..n).map(|i| i * 7 % n).collect());
        all.push((0..n).map(|i| i % 3).collect());
        all.push((0..n).collect());
    }
    let chunks: Vec<&[Vec<u64>]> = all.chunks(64).collect();
    ck.par(&chunks, |ck, c| {
        for a in *c {
            let mut s = a.clone();
            s.sort_unstable();
            let t = |v: &[u64]| Tree::Seq(v.iter().map(|x| u(*x)).collect());
            one(ck, U, "sort", &[], &[("uint256[]", "data", t(a))], |o| matches!(o, Out::Ok(_, b) if b[0] == t(&s)));
        }
    });
    for big in [W::MAX, W::ONE.shl(W::u(255)), W::ONE.shl(W::u(128))] {
        let a = Tree::words(&[big, W::ZERO, big.sub(W::ONE)]);
        let s = Tree::words(&[W::ZERO, big.sub(W::ONE), big]);
        one(ck, U, "sort", &[], &[("uint256[]", "data", a)], |o| matches!(o, Out::Ok(_, b) if b[0] == s));
    }
    for ty in ["uint256[]", "bytes32[]", "uint64[]"] {
        for n in 0..8_u64 {
            let data: Vec<Tree> = (0..n).map(|i| u(i + 10)).collect();
            for to in 0..10_u64 {
                one(ck, U, "truncate", &[], &[(ty, "data", Tree::Seq(data.clone())), ("uint256", "to_len", u(to))], |o| {
                    if to > n {
                        *o == Out::Revert
                    } else {
                        matches!(o, Out::Ok(_, b) if b[0] == Tree::Seq(data[..to as usize].to_vec()))
                    }
                });
            }
            if ty != "uint64[]" {
                // the target may be longer; what lies beyond stays
                for m in n..n + 3 {
                    let b: Vec<Tree> = (0..m).map(|i| u(i + 90)).collect();
                    let want: Vec<Tree> = data.iter().cloned().chain(b[n as usize..].iter().cloned()).collect();
                    let a = [(ty, "a", Tree::Seq(data.clone())), (ty, "b", Tree::Seq(b))];
                    one(ck, U, "deep_copy", &[], &a, |o| {
                        matches!(o, Out::Ok(_, x) if x[0] == Tree::Seq(data.clone()) && x[1] == Tree::Seq(want.clone()))
                    });
                }
            }
        }
    }
    // iterators
    const I: &str = "{uint256 index, uint256[] data_pointer}";
    for n in 0..5_u64 {
        let data = Tree::Seq((0..n).map(|i| u(i + 10)).collect());
        one(ck, "Iterators", "init_iterator", &[I], &[("uint256[]", "data", data.clone())], |o| {
            matches!(o, Out::Ok(r, _) if r == &[Tree::Seq(vec![u(0), data.clone()])])
        });
        for i in 0..n + 2 {
            let it = Tree::Seq(vec![u(i), data.clone()]);
            one(ck, "Iterators", "next", &["uint256"], &[(I, "iterator", it.clone())], |o| {
                if i < n {
                    matches!(o, Out::Ok(r, b) if r == &[u(i + 10)] && b[0] == Tree::Seq(vec![u(i + 1), data.clone()]))
                } else {
                    *o == Out::Revert
                }
            });
            one(ck, "Iterators", "has_next", &["bool"], &[(I, "iterator", it)], is(W::b(i < n)));
        }
    }
}

// public coin -------------------------------------------------------------------------------------
const COIN: &str = "{bytes32 digest, uint64 counter}";
#[derive(Clone)]
struct RefCoin {
    digest: [u8; 32],
    counter: u64,
}
impl RefCoin {
    fn write(&mut self, d: &[u8]) {
        self.digest = keccak256(&[&self.digest[..], d].concat());
        self.counter = 0;
    }
    fn read(&mut self) -> W {
        let r = keccak256(&[&self.digest[..], &[0; 24], &self.counter.to_be_bytes()].concat());
        self.counter += 1;
        W::from_be(&r)
    }
    fn field(&mut self) -> W {
        loop {
            let mut b = self.read().be();
            b[0] &= 0x0f;
            let x = W::from_be(&b);
            if x < p() {
                return x;
            }
        }
    }
    fn tree(&self) -> Tree {
        Tree::Seq(vec![w(W::from_be(&self.digest)), u(self.counter)])
    }
}
const OPS: usize = 18;
/// name, result type, further argument, expected result
fn step(op: usize, c: &mut RefCoin) -> (&'static str, Option<&'static str>, Option<(&'static str, &'static str, Tree)>, Option<Tree>) {
    let a = W::hex("00000000000000000000000000000000000000000000000000000000000000ff");
    let b = W::hex("ff00000000000000000000000000000000000000000000000000000000000001");
    match op {
        0 | 1 => {
            let x = if op == 0 { a } else { b };
            c.write(&x.be());
            ("write_bytes32", None, Some(("bytes32", "to_be_written", w(x))), None)
        }
        2..=4 => {
            let v = &[a, b, a][..[0, 1, 3][op - 2]];
            for x in v {
                c.write(&x.be());
            }
            ("write_many_bytes32", None, Some(("bytes32[]", "to_be_written", Tree::words(v))), None)
        }
        5 | 6 => {
            let v = &[b, a][..op - 4];
            for x in v {
                c.write(&x.be());
            }
            ("write_many_field_elements", None, Some(("uint256[]", "to_be_written", Tree::words(v))), None)
        }
        7 | 8 => {
            // eight bytes, left aligned in a word
            let n: u64 = if op == 7 { 1 } else { 0xff00_0000_0000_0080 };
            c.write(&n.to_be_bytes());
            ("write_bytes8", None, Some(("bytes8", "to_be_written", w(W::u(n).shl(W::u(192))))), None)
        }
        9..=11 => {
            let v = &[a, b, b][..[0, 1, 3][op - 9]];
            c.write(&v.iter().flat_map(|x| x.be()).collect::<Vec<_>>());
            ("write_layer", None, Some(("uint256[]", "to_be_written", Tree::words(v))), None)
        }
        12 => {
            let r = c.read();
            ("read_bytes32", Some("bytes32"), None, Some(w(r)))
        }
        13 => {
            let r = c.field();
            ("read_field_element", Some("uint256"), None, Some(w(r)))
        }
        14 | 15 => {
            let n = if op == 14 { 0 } else { 3 };
            let v: Vec<W> = (0..n).map(|_| c.field()).collect();
            ("read_many_field_elements", Some("uint256[]"), Some(("uint256", "how_many", u(n))), Some(Tree::words(&v)))
        }
        _ => {
            let n = op as u64 - 15;
            let v: Vec<W> = (0..n).map(|_| c.read()).collect();
            ("read_many_bytes32", Some("bytes32[]"), Some(("uint256", "how_many", u(n))), Some(Tree::words(&v)))
        }
    }
}
fn coin(ck: &mut Ck) {
    for len in 0..=ck.b(140, 300_usize) {
        let d: Vec<u8> = (0..len).map(|i| (i * 37) as u8).collect();
        let c = RefCoin { digest: keccak256(&d), counter: 0 };
        one(ck, "PublicCoin", "init_coin", &[COIN], &[("bytes", "starting_data", Tree::Bytes(d))], |o| {
            matches!(o, Out::Ok(r, _) if r == &[c.tree()])
        });
    }
    let depth = ck.b(3, 4_usize);
    let firsts: Vec<usize> = (0..OPS * OPS).collect();
    ck.par(&firsts, |ck, f| {
        let mut seqs = vec![vec![f / OPS, f % OPS]];
        for _ in 2..depth {
            seqs = seqs.into_iter().flat_map(|s| (0..OPS).map(move |o| [&s[..], &[o]].concat())).collect();
        }
        for seq in seqs {
            let key = || format!("coin operations {:?}", seq);
            let mut decided = true;
            let mut end = 0;
            ck.case(hs(&key()), seq.len() as u64, key, || {
                let mut r = RefCoin { digest: keccak256(b"start"), counter: 0 };
                // the state of the contract is carried on
                let mut state = r.tree();
                for op in &seq {
                    let (name, ret, arg, want) = step(*op, &mut r);
                    let mut a = vec![(COIN, "coin", state.clone())];
                    a.extend(arg);
                    let ret: Vec<&str> = ret.into_iter().collect();
                    match call("PublicCoin", name, &ret, &a) {
                        None => {
                            decided = false;
                            return Ok(());
                        }
                        Some(Out::Revert) => return Err(format!("{} reverts", name)),
                        Some(Out::Ok(o, b)) => {
                            if o.first() != want.as_ref() {
                                return Err(format!("{} returns {:?}, expected {:?}", name, o, want));
                            }
                            if b[0] != r.tree() {
                                return Err(format!("{} leaves the coin in state {:?}, expected {:?}", name, b[0], r.tree()));
                            }
                            state = b[0].clone();
                        }
                    }
                }
                end = hs(&format!("{:?}", state));
                Ok(())
            });
            ck.state(end);
            ck.outcome(if decided { "coin" } else { "not decided" });
        }
    });
}
fn queries(ck: &mut Ck) {
    const S: &str = "StarkVerifier";
    let mut items = vec![];
    for seed in 0..ck.b(3, 12_u64) {
        for n in 0..=255_u64 {
            for bits in [1, 4, 8, 20, 33, 40, 63] {
                if bits == 8 || n < 30 || n > 250 {
                    items.push((seed, n, bits));
                }
            }
        }
        for bits in 1..=63 {
            items.push((seed, 9, bits));
        }
    }
    ck.par(&items, |ck, &(seed, n, bits)| {
        let s = keccak256(&seed.to_be_bytes());
        let mut c = RefCoin { digest: s, counter: seed };
        let start = c.tree();
        let mut v = vec![];
        while v.len() < n as usize {
            for x in c.read().be().chunks(8) {
                let mut b = [0; 8];
                b.copy_from_slice(x);
                v.push(u64::from_be_bytes(b) & ((1 << bits) - 1));
            }
        }
        v.truncate(n as usize);
        v.sort_unstable();
        let want = Tree::Seq(v.into_iter().map(u).collect());
        let a = [(COIN, "coin", start), ("uint8", "max_bit_length", u(bits)), ("uint8", "num_queries", u(n))];
        // nothing is read from the coin afterwards
        one(ck, S, "get_queries", &["uint256[]"], &a, |o| matches!(o, Out::Ok(r, _) if r == &[want.clone()]));
    });
    // proof of work
    let bits: Vec<u64> = (0..=ck.b(12, 16)).chain([64, 128, 255]).collect();
    ck.par(&bits, |ck, &bits| {
        for seed in 0..2_u64 {
            let d = keccak256(&seed.to_be_bytes());
            let pow = keccak256(&[&[0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xed], &d[..], &[bits as u8]].concat());
            let valid = |n: u64| leading_zeros(&keccak256(&[&pow[..], &n.to_be_bytes()].concat())) as u64 >= bits;
            let mut tried: Vec<u64> = (0..ck.b(60, 300)).collect();
            // the first nonces that work, those that just fail, and wide ones
            if bits <= 16 {
                tried.extend((0..1 << 20).filter(|n| valid(*n)).take(3));
                // exactly enough, and one bit too few
                let zeros = |n: u64| leading_zeros(&keccak256(&[&pow[..], &n.to_be_bytes()].concat())) as u64;
                tried.extend((0..1 << 20).filter(|n| zeros(*n) == bits).take(2));
                if bits > 0 {
                    tried.extend((0..1 << 20).filter(|n| zeros(*n) == bits - 1).take(3));
                }
                tried.extend((0..1 << 18).map(|n: u64| n << 40).filter(|n| valid(*n)).take(2));
            }
            for n in tried {
                let mut c = RefCoin { digest: d, counter: seed };
                let start = c.tree();
                c.write(&n.to_be_bytes());
                let want = (valid(n), c.tree());
                let a = [
                    (COIN, "coin", start),
                    ("bytes8", "pow_nonce", w(W::u(n).shl(W::u(192)))),
                    ("uint8", "pow_bits", u(bits)),
                ];
                one(ck, S, "check_proof_of_work", &["bool"], &a, |o| {
                    matches!(o, Out::Ok(r, b) if r == &[w(W::b(want.0))] && b[0] == want.1)
                });
            }
        }
    });
    // fold layout
    for log in 1..=ck.b(60, 190_usize) {
        let red = if log > 8 { log - 8 } else { log };
        let mut v = vec![u(3); red / 3];
        if red % 3 != 0 {
            v.push(u(red as u64 % 3));
        }
        let want = Tree::Seq(v);
        one(ck, "Recurrence", "default_fri_layout", &["uint8[]"], &[("uint8", "log_trace_len", u(log as u64))], |o| {
            matches!(o, Out::Ok(r, _) if r == &[want.clone()])
        });
    }
}

// Merkle proofs -----------------------------------------------------------------------------------
fn tree(depth: usize) -> Vec<Vec<[u8; 32]>> {
    let mut l = vec![(0..1_usize << depth).map(|i| masked(&[depth as u8, i as u8, 7, (i >> 8) as u8])).collect::<Vec<_>>()];
    while l.last().unwrap().len() > 1 {
        let n = l.last().unwrap().chunks(2).map(|p| masked(&p.concat())).collect();
        l.push(n);
    }
    l
}
fn opening(t: &[Vec<[u8; 32]>], idx: &[usize]) -> Vec<W> {
    let mut out = vec![];
    let mut cur: Vec<usize> = idx.to_vec();
    for l in &t[..t.len() - 1] {
        for i in &cur {
            if !cur.contains(&(i ^ 1)) {
                out.push(W::from_be(&l[i ^ 1]));
            }
        }
        cur = cur.into_iter().map(|i| i / 2).collect();
        cur.dedup();
    }
    out
}
fn merkle(ck: &mut Ck) {
    const M: &str = "MerkleVerifier";
    for n in 1..=ck.b(24, 100_usize) {
        let leaf: Vec<W> = (0..n).map(|i| W::from_be(&keccak256(&[i as u8]))).collect();
        let want = if n == 1 { leaf[0] } else { W::from_be(&masked(&leaf.iter().flat_map(|x| x.be()).collect::<Vec<_>>())) };
        one(ck, M, "merkle_leaf_hash", &["bytes32"], &[("uint256[]", "leaf", Tree::words(&leaf))], is(want));
    }
    let mut items: Vec<(usize, Vec<usize>)> = vec![];
    for depth in 0..=4_usize {
        for set in 1_u32..=(((1_u64 << (1 << depth)) - 1) as u32) {
            // all subsets; of the largest tree every third one in the quick tier, and all of few leaves
            if depth == 4 && ck.quick() && set.count_ones() > 3 && set.count_ones() < 14 && set % 7 != 0 {
                continue;
            }
            items.push((depth, (0..1 << depth).filter(|i| set >> i & 1 == 1).collect()));
        }
    }
    for depth in [5_usize, 6, 10] {
        for k in 0..ck.b(40, 400_usize) {
            let mut v: Vec<usize> = (0..=k % 20).map(|i| (k * 131 + i * i * 37 + i) % (1 << depth)).collect();
            v.sort_unstable();
            v.dedup();
            items.push((depth, v));
        }
    }
    let trees: Vec<_> = (0..=10).map(|d| if d <= 6 || d == 10 { tree(d) } else { vec![] }).collect();
    let chunks: Vec<&[(usize, Vec<usize>)]> = items.chunks(128).collect();
    let thorough = ck.thorough();
    ck.par(&chunks, |ck, c| {
        for (depth, idx) in *c {
            let t = &trees[*depth];
            let root = W::from_be(&t[*depth][0]);
            let leaves: Vec<W> = idx.iter().map(|i| W::from_be(&t[0][*i])).collect();
            let at: Vec<W> = idx.iter().map(|i| W::u((1 << depth) + *i as u64)).collect();
            let dec = opening(t, idx);
            assert_eq!(dec.len(), open_len(1 << depth, idx));
            let mut go = |root: W, leaves: &[W], at: &[W], dec: &[W], valid: bool| {
                let a = [
                    ("bytes32", "root", w(root)),
                    ("bytes32[]", "leaves", Tree::words(leaves)),
                    ("uint256[]", "indices", Tree::words(at)),
                    ("bytes32[]", "decommitment", Tree::words(dec)),
                ];
                one(ck, M, "verify_merkle_proof", &["bool"], &a, |o| {
                    if valid {
                        matches!(o, Out::Ok(r, _) if r == &[w(W::ONE)])
                    } else {
                        !matches!(o, Out::Ok(r, _) if r == &[w(W::ONE)])
                    }
                });
            };
            go(root, &leaves, &at, &dec, true);
            let few = *depth == 4 && !thorough && idx.len() > 2;
            if few {
                continue;
            }
            // altered proofs: every leaf, every hash, the root, every index
            for &bit in if *depth > 4 { &[96_u64][..] } else { &[0, 96, 255] } {
                let x = W::ONE.shl(W::u(bit));
                go(root.xor(x), &leaves, &at, &dec, false);
                for i in 0..leaves.len() {
                    let mut l = leaves.clone();
                    l[i] = l[i].xor(x);
                    go(root, &l, &at, &dec, false);
                }
                for i in 0..dec.len() {
                    let mut d = dec.clone();
                    d[i] = d[i].xor(x);
                    go(root, &leaves, &at, &d, false);
                }
            }
            for i in 0..at.len() {
                for n in (0..1 << depth).filter(|n| *depth <= 4 || (n ^ idx[i]) == 1 || (n ^ idx[i]) == 2) {
                    if !idx.contains(&n) && (i == 0 || idx[i - 1] < n) && (i + 1 == at.len() || n < idx[i + 1]) {
                        let mut a = at.clone();
                        a[i] = W::u((1 << depth) + n as u64);
                        go(root, &leaves, &a, &dec, false);
                    }
                }
            }
            for i in 1..leaves.len() {
                let mut l = leaves.clone();
                l.swap(i - 1, i);
                go(root, &l, &at, &dec, false);
            }
            for i in 1..dec.len() {
                let mut d = dec.clone();
                d.swap(i - 1, i);
                go(root, &leaves, &at, &d, false);
            }
            if !dec.is_empty() {
                go(root, &leaves, &at, &dec[..dec.len() - 1], false);
                go(root, &leaves, &at, &dec[1..], false);
            }
            go(root, &leaves[1..], &at, &dec, false);
            go(root, &[], &[], &dec, false);
        }
    });
}
