//! C01-C05: the proof system, against the reference prover and verifier.
use crate::refstark::{self as r, Cheat, Spec};
use crate::rf::Fe;
use crate::systems::{layouts, min_n, system, SYSTEMS};
use std::collections::BTreeSet;
use vcommon::{guard, hs, hw, Ck, Def};
#[cfg(feature = "prover")]
use zkp_stark::prove;
use zkp_stark::{verify, Proof, RationalExpression as RE};

pub const C01: Def = Def {
    prop: "C01",
    level: "model_checking",
    rule: "honest protocol runs over the product of 10 constraint systems (degrees 1..5, 1..5 columns, boundary, periodic, claim-polynomial, forward/backward/wrapping offsets) x trace lengths 1..=32 (thorough 1..=64) x blowups x every FRI layout with reductions 1..=4 (full folding), then query counts 1..45 (duplicates), proof-of-work bits 0..=8, partial folding layouts, seeds, systems with the highest degree at every place and with claims in every role, large configurations (up to 130 columns, 260 constraints, degree 65, 130 trace references, 10 folding layers, 260 queries, 2048 final coefficients, domains to 32768, 20 proof-of-work bits, seeds of 1100 bytes, 70 claims), long traces to 4096 and one 65536-row trace (several evaluation chunks); every message of the transcript is compared byte for byte with the reference prover and the proof must be accepted by the implementation and the reference verifier",
    run: c01,
};
pub const C02: Def = Def {
    prop: "C02",
    level: "model_checking",
    rule: "for 8 configurations every byte of the honest proof flipped (quick 2 masks, thorough 9), every 32-byte word replaced by 0, 1, p-1, p, 2^256-1 and its neighbours, removed, duplicated, swapped with every other word, every truncation and extensions; in 45 configurations with one large parameter each (130 columns, degree 65, 10 layers, folding by 8 steps, 260 queries, 20 proof-of-work bits, domains to 32768, ...) words next to power-of-two positions of every message changed, removed, doubled, copied, swapped and the proof cut there; the verdict must equal that of the reference verifier",
    run: c02,
};
pub const C03: Def = Def {
    prop: "C03",
    level: "model_checking",
    rule: "provers that deviate from the protocol in one message (garbage commitment to trace/constraints/each FRI layer, trace or constraint polynomials of too high degree, lies about every out-of-domain value with and without repairing the equation, another or damaged function in each FRI layer, wrong folding coefficient, wrong or partially agreeing final polynomial, invalid or larger nonces, answers for other queries, non-canonical encodings) and continue honestly, over 10 systems x configurations, on satisfying traces and on every single-cell corruption of them, and in the 45 large configurations at positions next to powers of two; verdict must equal the reference verifier's, and prove() must return a proof iff the trace satisfies the constraints",
    run: c03,
};
pub const C04: Def = Def {
    prop: "C04",
    level: "model_checking",
    rule: "every honest proof of 7 configurations is presented to the verifier of every neighbouring claim: each constant in each constraint changed, each constraint removed, doubled, swapped, claim polynomials changed, each seed byte changed, seed shortened/extended, each parameter (rows, columns, blowup, queries, proof-of-work bits, every FRI layout) changed, in the 45 large configurations at positions next to powers of two; verdict must equal the reference verifier's",
    run: c04,
};
pub const C05: Def = Def {
    prop: "C05",
    level: "model_checking",
    rule: "all byte strings of one repeated byte value (5 values) and of pseudorandom content of every length from 0 to beyond the proof length, every prefix of an honest proof padded to full length with each of 5 byte values, every window of an honest proof replaced, for 9 configurations, and at message ends and power-of-two lengths for the 45 large ones; the verifier must return (and agree with the reference verifier) without panicking",
    run: c05,
};

#[cfg(feature = "prover")]
fn honest(spec: &Spec, cols: &[Vec<Fe>]) -> Result<Vec<u8>, String> {
    let con = spec.constraints();
    let proof = prove(&con, &r::table(cols)).map_err(|e| format!("prove failed on a satisfying trace: {:?}", e))?;
    Ok(proof.as_bytes().to_vec())
}
/// without a prover in the build: the proof of the reference prover
#[cfg(not(feature = "prover"))]
fn honest(spec: &Spec, cols: &[Vec<Fe>]) -> Result<Vec<u8>, String> {
    Ok(r::prove(spec, cols, &Cheat::None).bytes)
}
#[cfg(feature = "prover")]
fn proof_of(spec: &Spec, cols: &[Vec<Fe>]) -> Result<Vec<u8>, String> {
    prove(&spec.constraints(), &r::table(cols)).map(|p| p.as_bytes().to_vec()).map_err(|e| format!("{:?}", e))
}
#[cfg(not(feature = "prover"))]
fn proof_of(spec: &Spec, cols: &[Vec<Fe>]) -> Result<Vec<u8>, String> {
    if r::satisfied(spec, cols) {
        honest(spec, cols)
    } else {
        Err("not satisfied".into())
    }
}
fn diff(a: &[u8], b: &r::Tx) -> String {
    let at = a.iter().zip(&b.bytes).position(|(x, y)| x != y).unwrap_or(a.len().min(b.bytes.len()));
    let sec = b.sections.iter().find(|s| s.1 <= at && at < s.2).map_or("end", |s| &s.0);
    format!("proof of {} bytes differs from the reference ({} bytes) first at byte {} ({})", a.len(), b.bytes.len(), at, sec)
}
fn with(mut s: Spec, blowup: usize, queries: usize, pow: usize, layout: &[usize]) -> Spec {
    s.blowup = blowup.max(s.split()).max(2);
    s.queries = queries;
    s.pow = pow;
    s.layout = layout.to_vec();
    s
}
fn default_layout(n: usize) -> Vec<usize> {
    let log = n.trailing_zeros() as usize;
    let k = if log > 8 { log - 8 } else { log };
    let mut v = vec![3; k / 3];
    if k % 3 > 0 {
        v.push(k % 3);
    }
    v
}
/// verdict of the implementation; a panic is an error
fn verdict(spec: &Spec, proof: &[u8]) -> Result<bool, String> {
    let con = spec.constraints();
    let p = Proof::from_bytes(proof.to_vec());
    guard(|| verify(&con, &p).is_ok()).map_err(|e| format!("the verifier panicked: {}", e))
}
/// same verdict as the reference?
fn agree(spec: &Spec, proof: &[u8]) -> Result<Result<(), &'static str>, String> {
    let want = r::verify(spec, proof);
    let got = verdict(spec, proof)?;
    if got == want.is_ok() {
        Ok(want)
    } else if got {
        Err(format!("accepted, but has to be rejected ({})", want.unwrap_err()))
    } else {
        Err("rejected, but has to be accepted".into())
    }
}

pub fn c01(ck: &mut Ck) {
    let mut specs = vec![];
    let max_log = ck.b(5, 6);
    for name in SYSTEMS {
        for log in 0..=max_log {
            let n = 1 << log;
            if n < min_n(name) {
                continue;
            }
            let (s, t) = system(name, n, 5);
            let d = s.split().max(2);
            let blowups: BTreeSet<usize> = [d, 2 * d, 16, 32].into_iter().collect();
            for b in blowups {
                // every full folding
                for l in layouts(log) {
                    specs.push((with(s.clone(), b, 3, 0, &l), t.clone()));
                }
            }
            // partial folding
            for sum in 0..log {
                for l in layouts(sum) {
                    specs.push((with(s.clone(), 4, 5, 0, &l), t.clone()));
                }
            }
            // queries, proof of work
            for q in [1, 2, 4, 5, 8, 13, 45] {
                for pow in [0, 1, 5] {
                    specs.push((with(s.clone(), 8, q, pow, &default_layout(n)), t.clone()));
                }
            }
            // seeds
            for len in [0_usize, 1, 31, 32, 33, 135, 136, 137, 300] {
                let mut v = with(s.clone(), 4, 2, 2, &default_layout(n));
                v.seed = (0..len).map(|i| (i * 37 + 1) as u8).collect();
                specs.push((v, t.clone()));
            }
        }
        // other witnesses
        for secret in [0, 1, 2, u64::MAX] {
            for log in [2, 3] {
                let (s, t) = system(name, 1 << log, secret);
                specs.push((with(s.clone(), 4, 4, 3, &[1, log - 1]), t.clone()));
            }
        }
        // longer traces with the default layout
        for log in 6..=ck.b(10, 12) {
            let (s, t) = system(name, 1 << log, 9);
            specs.push((with(s, 8, 13, ck.b(4, 8), &default_layout(1 << log)), t));
        }
    }
    // long draws from the public coin: many queries, constraints and columns
    for (name, n, q) in [("fib", 8, 255), ("square", 16, 1100), ("fib", 256, 1500), ("claim", 4, 2300)] {
        let (s, t) = system(name, n, 3);
        specs.push((with(s, 4, q, 1, &default_layout(n)), t));
    }
    for (n, cols) in [(8, 2), (8, 17), (4, 70), (4, 140), (2, 300)] {
        let (s, t) = fixed(n, cols);
        specs.push((with(s, 4, 3, 0, &[1]), t));
    }
    for (s, t) in variants() {
        let n = s.n;
        specs.push((with(s, 4, 4, 2, &default_layout(n)), t));
    }
    specs.extend(large(ck.thorough()).into_iter().filter(|(s, _)| provable(s)));
    // several chunks in the constraint evaluation (65536 rows each)
    for (name, n) in [("square", 1 << 16), ("periodic", 1 << 16)] {
        let (s, t) = system(name, n, 3);
        specs.push((with(s, 2, 4, 0, &[4, 3, 2, 1]), t));
        if ck.quick() {
            break;
        }
    }
    specs.reverse(); // big ones first
    ck.par(&specs, |ck, (s, t)| {
        let steps = (7 + 2 * s.layout.len()) as u64;
        ck.case(hs(&s.key()), steps, || s.key(), || {
            let want = r::prove(s, t, &Cheat::None);
            if let Err(e) = r::verify(s, &want.bytes) {
                panic!("reference rejects its own proof: {} (satisfied: {})", e, r::satisfied(s, t));
            }
            let got = honest(s, t)?;
            if got != want.bytes {
                return Err(diff(&got, &want));
            }
            verify(&s.constraints(), &Proof::from_bytes(got)).map_err(|e| format!("honest proof rejected: {:?}", e))
        });
    });
}

/// systems that differ in the order and number of constraints, and in where claims occur
fn variants() -> Vec<(Spec, Vec<Vec<Fe>>)> {
    use crate::systems::{all_rows, c, on_row};
    use RE::{Trace, X};
    let mut out = vec![];
    // the constraint of highest degree at every place among others
    for n in [4, 8] {
        for len in [2, 5, 26] {
            for at in 0..len {
                let (mut s, t) = system("square", n, 6);
                let top = s.exprs[0].clone();
                s.exprs = (0..len - 1).map(|i| (Trace(0, 0) - c(t[0][i % n])) * on_row(n, i % n)).collect();
                s.exprs.insert(at, top);
                s.name = format!("highest degree at {} of {}", at, len);
                out.push((s, t));
            }
        }
    }
    // claims: alone, shared, nested, several, unused, in other arguments
    let n = 8;
    let (base, t) = system("claim", n, 3);
    let p = base.claims[0].clone();
    let values: Vec<Fe> = t[0].iter().map(|v| *v * Fe::int(3)).collect();
    let q = crate::rf::interpolate(&values, Fe::one());
    let claim = |i: usize| RE::ClaimPolynomial(i, n - 1, Box::new(X), Some("claim"));
    let unnamed = |i: usize| RE::ClaimPolynomial(i, n - 1, Box::new(X), None);
    let sq = || Trace(0, 0) * Trace(0, 0);
    let g = Fe::root(n);
    let shifted = |i: usize| RE::ClaimPolynomial(i, n - 1, Box::new(X * c(g)), Some("claim"));
    for (k, (claims, e)) in [
        (vec![p.clone()], vec![(sq() - claim(0)) * all_rows(n)]),
        (vec![p.clone()], vec![(sq() - unnamed(0)) * all_rows(n)]),
        (vec![q.clone()], vec![(Trace(0, 0) * 3 - claim(0)) * all_rows(n)]),
        (vec![p.clone()], vec![(sq() - claim(0)) * all_rows(n), (claim(0) - sq()) * on_row(n, 3), (Trace(0, 0) - c(t[0][1])) * on_row(n, 1)]),
        (vec![p.clone(), q.clone()], vec![(sq() - claim(0)) * all_rows(n), (Trace(0, 0) * 3 - claim(1)) * all_rows(n)]),
        (vec![q.clone(), p.clone()], vec![(sq() - claim(1)) * all_rows(n), (Trace(0, 0) * 3 - claim(0)) * all_rows(n)]),
        (vec![q.clone(), p.clone()], vec![(sq() - claim(1)) * all_rows(n), (claim(1) * 3 - claim(0) * Trace(0, 0)) * all_rows(n)]),
        (vec![q.clone()], vec![(claim(0) * claim(0) - sq() * 9) * all_rows(n)]),
        (vec![q.clone()], vec![(claim(0).pow(2) - sq() * 9) * all_rows(n)]),
        (vec![q.clone()], vec![(RE::Neg(Box::new(claim(0))) + Trace(0, 0) * 3) * all_rows(n)]),
        (vec![p.clone()], vec![(Trace(0, 1) * Trace(0, 1) - shifted(0)) * all_rows(n)]),
        (vec![p.clone(), q.clone()], vec![(Trace(0, 0) * 3 - claim(1)) * all_rows(n)]),
        (vec![vec![t[0][2]]], vec![(Trace(0, 0) - RE::ClaimPolynomial(0, 0, Box::new(X), None)) * on_row(n, 2)]),
    ]
    .into_iter()
    .enumerate()
    {
        let mut s = base.clone();
        s.claims = claims;
        s.exprs = e;
        s.name = format!("claims {}", k);
        out.push((s, t.clone()));
    }
    out
}

/// small configurations for the corruption checks: (system, rows, blowup, queries, pow, layout)
fn small() -> Vec<(Spec, Vec<Vec<Fe>>)> {
    [
        ("fib", 4, 4, 2, 3, vec![1, 1]),
        ("square", 8, 4, 1, 0, vec![2]),
        ("cube3", 4, 4, 2, 0, vec![2]),
        ("periodic", 8, 4, 3, 4, vec![1, 2]),
        ("claim", 4, 4, 2, 0, vec![1]),
        ("wide", 2, 4, 4, 0, vec![1]),
        ("boundary", 2, 2, 6, 0, vec![]),
        ("backward", 16, 4, 1, 0, vec![3, 1]),
        ("quint", 16, 8, 1, 0, vec![4]),
    ]
    .into_iter()
    .map(|(name, n, b, q, pow, l)| {
        let (s, t) = system(name, n, 5);
        (with(s, b, q, pow, &l), t)
    })
    .collect()
}

/// a sequence of n rows in every column, with every cell fixed by a constraint of its own
fn fixed(n: usize, cols: usize) -> (Spec, Vec<Vec<Fe>>) {
    let t: Vec<Vec<Fe>> = (0..cols).map(|i| (0..n).map(|j| Fe::int((i * n + j + 2) as u64).pow(3)).collect()).collect();
    let mut s = system("boundary", n, 3).0;
    s.cols = cols;
    s.exprs = vec![];
    for (i, c) in t.iter().enumerate() {
        for (j, v) in c.iter().enumerate() {
            s.exprs.push((RE::Trace(i, 0) - crate::systems::c(*v)) * crate::systems::on_row(n, j));
        }
    }
    s.name = format!("{} columns fixed", cols);
    (s, t)
}
/// configurations in which one parameter is large, in every parameter
pub fn large(thorough: bool) -> Vec<(Spec, Vec<Vec<Fe>>)> {
    use crate::systems::{all_rows, c, not_last, on_row};
    use RE::{Trace, X};
    let mut out = vec![];
    // columns (and constraints)
    for (n, cols) in [(2, 9), (4, 17), (2, 33), (2, 65), (2, 130)] {
        let (s, t) = fixed(n, cols);
        out.push((with(s, 4, 3, 0, &[1]), t));
    }
    // constraints on one column
    for n in [16, 64, 256] {
        let (s, t) = fixed(n, 1);
        out.push((with(s, 2, 2, 0, &[2]), t));
    }
    // degree
    for d in [9, 17, 33, 65] {
        let n = 4;
        let mut a = vec![Fe::int(3)];
        for i in 1..n {
            a.push(a[i - 1].pow(d as u64) + Fe::int(1));
        }
        let mut s = system("square", n, 3).0;
        s.exprs = vec![
            (Trace(0, 1) - Trace(0, 0).pow(d) - 1) * not_last(n),
            (Trace(0, 0) - c(a[n - 1])) * on_row(n, n - 1),
        ];
        s.name = format!("degree {}", d);
        out.push((with(s, 2, 4, 0, &[1]), vec![a]));
    }
    // trace references
    for k in [17_usize, 33, 65, 130] {
        let n = k.next_power_of_two();
        let t: Vec<Fe> = (0..n).map(|j| Fe::int((j + 2) as u64).pow(5)).collect();
        let mut sum = Fe::ZERO;
        let mut e = RE::Constant(Fe::ZERO.fe());
        for i in 0..k {
            e = e + Trace(0, if i % 3 == 1 { i as isize - n as isize } else { i as isize }) * c(Fe::int(i as u64 + 1));
            sum += t[i] * Fe::int(i as u64 + 1);
        }
        let mut s = system("square", n, 3).0;
        s.exprs = vec![(e - c(sum)) * on_row(n, 0)];
        s.name = format!("{} references", k);
        out.push((with(s, 2, 3, 0, &[2]), vec![t]));
    }
    // folding layers and folding steps
    for (n, b, q, l) in [
        (256, 2, 3, vec![1; 8]),
        (1024, 2, 3, vec![1; 10]),
        (4096, 2, 2, vec![1, 2, 1, 3, 1, 2, 1]),
        (64, 2, 3, vec![5]),
        (64, 4, 3, vec![6]),
        (128, 2, 3, vec![7]),
        (256, 2, 2, vec![1, 6]),
        (512, 2, 2, vec![8]),
    ] {
        let (s, t) = system("fib", n, 4);
        out.push((with(s, b, q, 0, &l), t));
    }
    // queries
    for q in [33, 65, 130, 260] {
        let (s, t) = system("square", 64, 4);
        out.push((with(s, 16, q, 0, &[2]), t));
    }
    // final polynomials
    for n in [128, 512, 2048] {
        let (s, t) = system("square", n, 4);
        out.push((with(s.clone(), 2, 3, 0, &[]), t.clone()));
        out.push((with(s, 2, 3, 0, &[1]), t));
    }
    // domains
    for (n, b) in [(1024, 4), (4096, 4), (64, 256), (2, 1024), (1 << 14, 2)] {
        let (s, t) = system("square", n, 4);
        out.push((with(s, b, 3, 0, &default_layout(n)), t));
    }
    if thorough {
        let (s, t) = system("square", 1 << 15, 4);
        out.push((with(s, 4, 3, 0, &default_layout(1 << 15)), t));
    }
    // proof of work
    for pow in [10, 12, 14, 16, 18, 20] {
        let (s, t) = system("fib", 4, 4);
        out.push((with(s, 4, 2, pow, &[1]), t));
    }
    // seeds
    for len in [40_usize, 140, 300, 1100] {
        let (s, t) = system("fib", 4, 4);
        let mut s = with(s, 4, 2, 2, &[1]);
        s.seed = (0..len).map(|i| (i * 37 + 1) as u8).collect();
        out.push((s, t));
    }
    // claims: many, and long
    for k in [9_usize, 40, 70] {
        let n = k.next_power_of_two();
        let t: Vec<Fe> = (0..n).map(|j| Fe::int((j + 2) as u64).pow(5)).collect();
        let mut s = system("square", n, 3).0;
        s.claims = (0..k).map(|i| vec![t[i]]).collect();
        s.exprs = (0..k).map(|i| (Trace(0, 0) - RE::ClaimPolynomial(i, 0, Box::new(X), None)) * on_row(n, i)).collect();
        s.name = format!("{} claims", k);
        out.push((with(s, 2, 3, 0, &[1]), vec![t]));
    }
    for n in [64, 512] {
        let t: Vec<Fe> = (0..n).map(|j| Fe::int((j + 2) as u64).pow(5)).collect();
        let mut s = system("square", n, 3).0;
        s.claims = vec![crate::rf::interpolate(&t, Fe::one())];
        s.exprs = vec![(Trace(0, 0) - RE::ClaimPolynomial(0, n - 1, Box::new(X), None)) * all_rows(n)];
        s.name = format!("claim of {} coefficients", n);
        out.push((with(s, 2, 3, 0, &[1]), vec![t]));
    }
    out
}
/// the prover folds by at most four steps at once; the verifier by any number
pub fn provable(s: &Spec) -> bool {
    s.layout.iter().all(|k| *k <= 4)
}
/// positions below n: the first, the last and those next to powers of two
pub fn spread(n: usize) -> Vec<usize> {
    let mut v: BTreeSet<usize> = [0, 1].into_iter().collect();
    let mut p = 2;
    while p <= n {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([n.saturating_sub(2), n.saturating_sub(1)]);
    v.into_iter().filter(|i| *i < n).collect()
}
/// a few of the given positions
pub fn few(n: usize) -> Vec<usize> {
    let v: BTreeSet<usize> = [0, n / 2, n.saturating_sub(1)].into_iter().filter(|i| *i < n).collect();
    v.into_iter().collect()
}

pub fn c02(ck: &mut Ck) {
    let masks: Vec<u8> = ck.b(vec![0x01, 0x80], vec![1, 2, 4, 8, 16, 32, 64, 128, 255]);
    let mut items = vec![];
    let bases: Vec<(Spec, Vec<u8>)> = small().into_iter().map(|(s, t)| {
        let p = r::prove(&s, &t, &Cheat::None).bytes;
        (s, p)
    }).collect();
    // the constants p-1 and p in big-endian bytes
    let pm1 = (-Fe::one() * Fe::one()).bytes();
    let _ = pm1;
    let p_be: [u8; 32] = {
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&crate::rf::P[3 - i].to_be_bytes());
        }
        o
    };
    let mut p1_be = p_be;
    p1_be[31] -= 1;
    let mut one = [0; 32];
    one[31] = 1;
    let words = [[0; 32], one, p1_be, p_be, [0xff; 32]];
    for (b, (_, p)) in bases.iter().enumerate() {
        for at in 0..p.len() {
            items.push((b, 0_usize, at));
        }
        for at in 0..p.len() / 32 {
            items.push((b, 1, at));
        }
        for at in 0..p.len() {
            items.push((b, 2, at));
        }
    }
    ck.par(&items, |ck, &(b, kind, at)| {
        let (s, p) = &bases[b];
        let check = |ck: &mut Ck, what: String, q: Vec<u8>| {
            if q == *p {
                return;
            }
            let mut why = "";
            ck.case(vcommon::h64(&q), 1, || format!("{}: {}", s.key(), what), || {
                why = match agree(s, &q)? {
                    Ok(()) => "accepted",
                    Err(e) => e,
                };
                Ok(())
            });
            ck.outcome(why);
        };
        // the nonce is 8 bytes long, so words are not aligned after it; use real boundaries
        match kind {
            0 => {
                for m in &masks {
                    let mut q = p.clone();
                    q[at] ^= m;
                    check(ck, format!("byte {} ^= {:#x}", at, m), q);
                }
            }
            1 => {
                let starts = word_starts(s, p);
                if at >= starts.len() {
                    return;
                }
                let a = starts[at];
                for (i, w) in words.iter().enumerate() {
                    let mut q = p.clone();
                    q[a..a + 32].copy_from_slice(w);
                    check(ck, format!("word at {} = constant {}", a, i), q);
                }
                let mut q = p.clone();
                q.drain(a..a + 32);
                check(ck, format!("word at {} removed", a), q);
                let mut q = p.clone();
                let w: Vec<u8> = p[a..a + 32].to_vec();
                for (k, x) in w.iter().enumerate() {
                    q.insert(a + k, *x);
                }
                check(ck, format!("word at {} doubled", a), q);
                for &c in &starts[at + 1..] {
                    let mut q = p.clone();
                    for k in 0..32 {
                        q.swap(a + k, c + k);
                    }
                    check(ck, format!("words at {} and {} swapped", a, c), q);
                    if ck.thorough() {
                        let mut q = p.clone();
                        q[a..a + 32].copy_from_slice(&p[c..c + 32]);
                        check(ck, format!("word at {} copied to {}", c, a), q);
                        let mut q = p.clone();
                        q[c..c + 32].copy_from_slice(&p[a..a + 32]);
                        check(ck, format!("word at {} copied to {}", a, c), q);
                    }
                }
                // add and subtract one (field element neighbours, canonical encodings of others)
                if let Some(f) = Fe::from_bytes(&p[a..a + 32]) {
                    for g in [f + Fe::one(), f - Fe::one(), -f, f + f] {
                        let mut q = p.clone();
                        q[a..a + 32].copy_from_slice(&g.bytes());
                        check(ck, format!("element at {} changed", a), q);
                    }
                    // non-canonical encoding of the same value
                    let mut q = p.clone();
                    let mut carry = 0_u16;
                    for k in (0..32).rev() {
                        let t = u16::from(p[a + k]) + u16::from(p_be[k]) + carry;
                        q[a + k] = t as u8;
                        carry = t >> 8;
                    }
                    check(ck, format!("element at {} plus modulus", a), q);
                }
            }
            _ => {
                check(ck, format!("truncated to {}", at), p[..at].to_vec());
                if at < 70 {
                    for v in [0, 0xff] {
                        let mut q = p.clone();
                        q.resize(p.len() + at + 1, v);
                        check(ck, format!("extended by {} bytes {:#x}", at + 1, v), q);
                    }
                    let mut q = p.clone();
                    q.extend_from_slice(&p[p.len() - at.max(1).min(p.len())..]);
                    check(ck, format!("last {} bytes doubled", at.max(1)), q);
                }
            }
        }
    });
    // large configurations: alterations at words spread over every message
    let bases: Vec<(Spec, r::Tx)> = large(ck.thorough()).into_iter().map(|(s, t)| {
        let p = r::prove(&s, &t, &Cheat::None);
        (s, p)
    }).collect();
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for (b, (s, tx)) in bases.iter().enumerate() {
        let heavy = s.big_n() * s.cols > 4096 || tx.bytes.len() > 40_000;
        let mut at: BTreeSet<usize> = BTreeSet::new();
        // messages of the same kind follow each other; take them together and one by one
        let mut start = 0;
        for (i, sec) in tx.sections.iter().enumerate() {
            let whole = i + 1 == tx.sections.len() || tx.sections[i + 1].0 != sec.0;
            let words = (sec.2 - sec.1) / 32;
            at.extend((if heavy { few(words) } else { spread(words) }).into_iter().map(|k| sec.1 + 32 * k));
            if sec.2 - sec.1 == 8 {
                at.insert(sec.1);
            }
            if whole {
                let words = (sec.2 - start) / 32;
                at.extend(spread(words).into_iter().map(|k| start + 32 * k));
                start = sec.2;
            }
        }
        let at: Vec<usize> = at.into_iter().collect();
        for w in at.windows(2) {
            items.push((b, w[0], w[1]));
        }
        items.push((b, *at.last().unwrap(), at[0]));
    }
    ck.par(&items, |ck, &(b, at, other)| {
        let (s, p) = (&bases[b].0, &bases[b].1.bytes);
        let check = |ck: &mut Ck, what: &str, q: Vec<u8>| {
            if q == *p {
                return;
            }
            let mut why = "";
            ck.case(vcommon::h64(&q), 1, || format!("{}: {} at {}", s.key(), what, at), || {
                why = match agree(s, &q)? {
                    Ok(()) => "accepted",
                    Err(e) => e,
                };
                Ok(())
            });
            ck.outcome(why);
        };
        let end = (at + 32).min(p.len());
        for k in [0, 7, 15, 31] {
            if at + k < p.len() {
                let mut q = p.clone();
                q[at + k] ^= 1;
                check(ck, "bit changed", q);
            }
        }
        let mut q = p.clone();
        q.drain(at..end);
        check(ck, "word removed", q);
        let mut q = p.clone();
        let w: Vec<u8> = p[at..end].to_vec();
        q.splice(at..at, w);
        check(ck, "word doubled", q);
        check(ck, "truncated", p[..at].to_vec());
        if at + 32 <= p.len() && other + 32 <= p.len() {
            let mut q = p.clone();
            let w: Vec<u8> = q[at..at + 32].to_vec();
            q.copy_within(other..other + 32, at);
            check(ck, "other word copied", q.clone());
            q[other..other + 32].copy_from_slice(&w);
            check(ck, "words swapped", q);
            let mut q = p.clone();
            q[at..at + 32].copy_from_slice(&[0; 32]);
            check(ck, "zero", q);
            if let Some(f) = Fe::from_bytes(&p[at..at + 32]) {
                let mut q = p.clone();
                q[at..at + 32].copy_from_slice(&(f + Fe::one()).bytes());
                check(ck, "element increased", q);
                let mut q = p.clone();
                let mut carry = 0_u16;
                for k in (0..32).rev() {
                    let t = u16::from(p[at + k]) + u16::from(p_be[k]) + carry;
                    q[at + k] = t as u8;
                    carry = t >> 8;
                }
                check(ck, "element plus modulus", q);
            }
        }
        if other < at {
            for n in [1, 32, 8192] {
                let mut q = p.clone();
                q.resize(p.len() + n, 0);
                check(ck, "extended", q);
            }
        }
    });
}
/// start of each 32-byte word of the proof (the nonce is 8 bytes)
fn word_starts(s: &Spec, p: &[u8]) -> Vec<usize> {
    let head = 32 * (2 + s.args().len() + s.split() + s.layout.len());
    let last = 32 * (s.n >> s.layout.iter().sum::<usize>());
    let nonce = head + last;
    let mut v: Vec<usize> = (0..nonce / 32).map(|i| 32 * i).collect();
    let mut a = nonce + 8;
    while a + 32 <= p.len() {
        v.push(a);
        a += 32;
    }
    v
}

fn cheats(s: &Spec, quick: bool) -> Vec<Cheat> {
    use Cheat::*;
    let mut v = vec![TraceRoot, ConstraintRoot];
    let d = s.split();
    let args = s.args().len();
    for k in 0..s.layout.len() {
        v.extend([FriRoot(k), FriSwap(k), FriCoefficient(k), NcFri(k)]);
        let pts = s.big_n() >> s.layout[..k].iter().sum::<usize>();
        let most = if s.queries >= 13 { 512 } else if quick { 8 } else { 64 };
        for i in 0..pts.min(most) {
            v.push(FriPoint(k, i));
            v.push(FriPointOnly(k, i));
        }
    }
    for c in 0..s.cols {
        v.extend([TraceHigh(c), NcTrace(c)]);
    }
    for i in 0..d {
        v.extend([OodsConstraint(i), NcOodsConstraint(i), NcConstraint(i)]);
        for j in [0, 1, s.n - 1, s.n, s.n + 1, 2 * s.n] {
            v.push(ConstraintAdd(i, j));
        }
        for a in 0..=args {
            v.push(OodsFixed(a, i));
        }
    }
    for a in 0..args {
        v.extend([OodsTrace(a), NcOodsTrace(a)]);
    }
    let last = s.n >> s.layout.iter().sum::<usize>();
    for i in 0..last {
        v.extend([Last(i), NcLast(i)]);
    }
    for i in 0..if quick { 12 } else { 60 } {
        v.push(LastAgree(i));
    }
    for i in 0..s.queries {
        v.push(QueryNeighbour(i));
    }
    if s.pow > 0 {
        for i in 0..4 {
            v.extend([NonceLarger(i), NonceBad(i)]);
        }
        v.extend([NonceExact(s.pow - 1), NonceExact(s.pow), NonceExact(s.pow + 1)]);
    } else {
        v.push(NonceLarger(0));
    }
    v
}

/// deviations for large configurations
fn cheats_large(s: &Spec) -> Vec<Cheat> {
    use Cheat::*;
    let mut v = vec![TraceRoot, ConstraintRoot];
    let heavy = s.big_n() * s.cols > 8192;
    let sp = |n: usize| if heavy { few(n) } else { spread(n) };
    let (d, args) = (s.split(), s.args().len());
    for k in 0..s.layout.len() {
        v.extend([FriRoot(k), FriSwap(k), FriCoefficient(k), NcFri(k)]);
        let pts = s.big_n() >> s.layout[..k].iter().sum::<usize>();
        for i in few(pts) {
            v.push(FriPoint(k, i));
            v.push(FriPointOnly(k, i));
        }
    }
    for c in sp(s.cols) {
        v.extend([TraceHigh(c), NcTrace(c)]);
    }
    for i in sp(d) {
        v.extend([OodsConstraint(i), NcOodsConstraint(i), NcConstraint(i), ConstraintAdd(i, s.n - 1), ConstraintAdd(i, s.n)]);
        v.push(OodsFixed(args, i));
        v.push(OodsFixed(i % args, i));
    }
    for a in sp(args) {
        v.extend([OodsTrace(a), NcOodsTrace(a), OodsFixed(a, 0)]);
    }
    for i in sp(s.n >> s.layout.iter().sum::<usize>()) {
        v.extend([Last(i), NcLast(i)]);
    }
    for i in 0..2 {
        v.push(LastAgree(i));
    }
    for i in sp(s.queries) {
        v.push(QueryNeighbour(i));
    }
    v.push(NonceLarger(0));
    if s.pow > 0 {
        v.extend([NonceBad(0), NonceBad(1), NonceExact(s.pow - 1), NonceExact(s.pow)]);
    }
    v
}

pub fn c03(ck: &mut Ck) {
    let mut bases = small();
    for (name, n, b, q, pow, l) in [
        ("fib", 16, 2, 2, 2, vec![2]),
        ("fib", 8, 8, 4, 0, vec![3]),
        ("square", 16, 2, 3, 5, vec![1, 1]),
        ("square", 4, 16, 1, 1, vec![1]),
        ("cube3", 8, 4, 3, 0, vec![1, 1, 1]),
        ("periodic", 16, 2, 2, 0, vec![2, 2]),
        ("claim", 8, 2, 3, 6, vec![1]),
        ("wide", 4, 4, 2, 0, vec![]),
        ("backward", 8, 2, 5, 1, vec![1]),
        ("boundary", 16, 2, 2, 0, vec![1, 3]),
        // many queries, as in practice, such that a deviation is seen by only some of them
        ("fib", 32, 16, 20, 0, vec![1]),
        ("square", 16, 16, 45, 0, vec![2]),
        ("backward", 16, 16, 13, 0, vec![]),
    ] {
        let (s, t) = system(name, n, 5);
        bases.push((with(s, b, q, pow, &l), t));
    }
    if ck.thorough() {
        for name in SYSTEMS {
            for log in 2..=5_usize {
                for (q, l) in [(1, vec![log]), (2, vec![1; log]), (3, vec![1]), (7, vec![2])] {
                    if l[0] > 4 {
                        continue;
                    }
                    let (s, t) = system(name, 1 << log, 77);
                    bases.push((with(s, 4, q, 3, &l), t));
                }
            }
        }
    }
    for (s, t) in variants() {
        if s.name.starts_with("claims") || s.name.ends_with("of 5") {
            let n = s.n;
            bases.push((with(s, 4, 2, 0, &default_layout(n)), t));
        }
    }
    // one deviation each, on the satisfying trace and on a violating one
    let quick = ck.quick();
    let mut items = vec![];
    for (b, (s, t)) in bases.iter().enumerate() {
        for c in cheats(s, quick) {
            items.push((b, c.clone(), false));
            items.push((b, c, true));
        }
        items.push((b, Cheat::None, true));
        let _ = t;
    }
    let few_bases = bases.len();
    bases.extend(large(ck.thorough()));
    for (b, (s, _)) in bases.iter().enumerate().skip(few_bases) {
        for c in cheats_large(s) {
            // the nonce is searched again for each of them
            if s.pow > 14 && !matches!(c, Cheat::NonceExact(_) | Cheat::NonceLarger(_) | Cheat::NonceBad(_) | Cheat::Last(0) | Cheat::TraceRoot) {
                continue;
            }
            if !matches!(c, Cheat::NonceExact(_) | Cheat::NonceLarger(_) | Cheat::NonceBad(_) | Cheat::NcTrace(_) | Cheat::NcLast(_) | Cheat::NcFri(_) | Cheat::NcOodsTrace(_)) {
                items.push((b, c.clone(), true));
            }
            items.push((b, c, false));
        }
        items.push((b, Cheat::None, true));
    }
    let bases = bases;
    ck.par(&items, |ck, (b, c, bad)| {
        let (s, t) = &bases[*b];
        let mut t = t.clone();
        if *bad {
            let row = s.n / 2;
            t[0][row] += Fe::int(1);
        }
        let key = format!("{} cheat={:?} bad_trace={}", s.key(), c, bad);
        let mut why = "";
        ck.case(hs(&key), 1, || key.clone(), || {
            let tx = r::prove(s, &t, c);
            why = match agree(s, &tx.bytes)? {
                Ok(()) => "accepted",
                Err(e) => e,
            };
            Ok(())
        });
        ck.outcome(why);
    });
    // every single-cell corruption
    let mut items = vec![];
    for (b, (s, _)) in bases.iter().enumerate() {
        if b >= few_bases && (s.pow > 14 || !provable(s)) {
            continue;
        }
        let big = b >= few_bases;
        for col in if big { spread(s.cols) } else { (0..s.cols).collect() } {
            for row in if big { few(s.n) } else { (0..s.n).collect() } {
                items.push((b, col, row));
            }
        }
    }
    ck.par(&items, |ck, &(b, col, row)| {
        let (s, t) = &bases[b];
        for (k, delta) in [Fe::one(), -Fe::one(), -t[col][row] - t[col][row]].iter().enumerate() {
            if *delta == Fe::ZERO {
                continue;
            }
            let mut t = t.clone();
            t[col][row] += *delta;
            let sat = r::satisfied(s, &t);
            let key = format!("{} cell ({},{}) change {}", s.key(), row, col, k);
            ck.outcome(if sat { "still satisfied" } else { "violated" });
            ck.case(hs(&key), 3, || key.clone(), || {
                let got = proof_of(s, &t);
                match (sat, got) {
                    (true, Err(e)) => Err(format!("no proof of a satisfying trace: {}", e)),
                    (true, Ok(p)) => {
                        let want = r::prove(s, &t, &Cheat::None);
                        if p != want.bytes {
                            return Err(diff(&p, &want));
                        }
                        Ok(())
                    }
                    (false, Ok(p)) => {
                        let v = r::verify(s, &p);
                        Err(format!("prove() returned a proof of a violating trace; reference verdict {:?}", v))
                    }
                    (false, Err(_)) => {
                        // the best a prover can do with this trace
                        let tx = r::prove(s, &t, &Cheat::None);
                        agree(s, &tx.bytes).map(|_| ())?;
                        let tx = r::prove(s, &t, &Cheat::OodsFixed(usize::MAX, 0));
                        agree(s, &tx.bytes).map(|_| ())
                    }
                }
            });
        }
    });
}

/// all variants of the expression in which one constant is changed
fn constants_changed(e: &RE) -> Vec<RE> {
    let mut out = vec![];
    let b = |x: RE| Box::new(x);
    match e {
        RE::X | RE::Trace(..) => {}
        RE::Constant(c) => {
            out.push(RE::Constant((Fe::of(c) + Fe::one()).fe()));
            out.push(RE::Constant((-Fe::of(c)).fe()));
        }
        RE::Polynomial(p, a) => {
            for i in 0..p.len() {
                let mut c: Vec<Fe> = p.coefficients().iter().map(Fe::of).collect();
                c[i] += Fe::one();
                out.push(RE::Polynomial(r::dense(&c), a.clone()));
            }
            out.extend(constants_changed(a).into_iter().map(|a| RE::Polynomial(p.clone(), b(a))));
        }
        RE::ClaimPolynomial(i, k, a, n) => {
            out.extend(constants_changed(a).into_iter().map(|a| RE::ClaimPolynomial(*i, *k, b(a), *n)));
        }
        RE::Add(x, y) => {
            out.extend(constants_changed(x).into_iter().map(|x| RE::Add(b(x), y.clone())));
            out.extend(constants_changed(y).into_iter().map(|y| RE::Add(x.clone(), b(y))));
        }
        RE::Mul(x, y) => {
            out.extend(constants_changed(x).into_iter().map(|x| RE::Mul(b(x), y.clone())));
            out.extend(constants_changed(y).into_iter().map(|y| RE::Mul(x.clone(), b(y))));
        }
        RE::Neg(a) => out.extend(constants_changed(a).into_iter().map(|a| RE::Neg(b(a)))),
        RE::Inv(a) => out.extend(constants_changed(a).into_iter().map(|a| RE::Inv(b(a)))),
        RE::Exp(a, k) => out.extend(constants_changed(a).into_iter().map(|a| RE::Exp(b(a), *k))),
    }
    out
}
/// all variants in which one trace reference is changed
fn references_changed(e: &RE, cols: usize) -> Vec<RE> {
    let count = std::cell::Cell::new(0_usize);
    let _ = e.map(&|x| {
        if let RE::Trace(..) = x {
            count.set(count.get() + 1);
        }
        x
    });
    let mut out = vec![];
    for which in 0..count.get() {
        for (dc, dr) in [(1, 0), (0, 1_isize), (0, -1)] {
            let seen = std::cell::Cell::new(0);
            out.push(e.map(&|x| match x {
                RE::Trace(c, o) => {
                    let k = seen.get();
                    seen.set(k + 1);
                    if k == which {
                        RE::Trace((c + dc) % cols, o + dr)
                    } else {
                        RE::Trace(c, o)
                    }
                }
                x => x,
            }));
        }
    }
    out
}

pub fn c04(ck: &mut Ck) {
    let mut bases = small();
    if ck.thorough() {
        for name in SYSTEMS {
            for (log, q, pow, l) in [(2, 2, 2, vec![2]), (3, 3, 0, vec![1, 1]), (4, 4, 5, vec![2, 1]), (5, 2, 1, vec![3, 2])] {
                let (s, t) = system(name, 1 << log, 21);
                bases.push((with(s, 8, q, pow, &l), t));
            }
        }
    }
    for (s, t) in variants() {
        if s.name.starts_with("claims") {
            let n = s.n;
            bases.push((with(s, 4, 2, 0, &default_layout(n)), t));
        }
    }
    let few_bases = bases.len();
    bases.extend(large(ck.thorough()));
    let mut items: Vec<(usize, String, Spec)> = vec![];
    let proofs: Vec<Vec<u8>> = bases.iter().map(|(s, t)| r::prove(s, t, &Cheat::None).bytes).collect();
    for (b, (s, _)) in bases.iter().enumerate() {
        let big = b >= few_bases;
        // positions: all of them, or some in large configurations
        let some = |n: usize| -> Vec<usize> { if big { spread(n) } else { (0..n).collect() } };
        let mut add = |what: String, v: Spec| {
            // well-formed claims only: degrees must fit
            let d = v.degree();
            let target = d * v.n - 1;
            let ok = d >= 1
                && v.blowup >= v.split()
                && v.exprs.iter().all(|e| {
                    let (num, den) = r::degree(e, 1, v.n - 1);
                    target + den >= num
                })
                && v.layout.iter().sum::<usize>() <= v.n.trailing_zeros() as usize;
            if ok {
                items.push((b, what, v));
            }
        };
        add("same".into(), s.clone());
        for k in some(s.exprs.len()) {
            let e = &s.exprs[k];
            let changed = constants_changed(e);
            for i in some(changed.len()) {
                let mut v = s.clone();
                v.exprs[k] = changed[i].clone();
                add(format!("constraint {} constant {}", k, i), v);
            }
            let changed = references_changed(e, s.cols);
            for i in some(changed.len()) {
                let c = changed[i].clone();
                let mut v = s.clone();
                v.exprs[k] = c;
                add(format!("constraint {} reference {}", k, i), v);
            }
            if s.exprs.len() > 1 {
                let mut v = s.clone();
                v.exprs.remove(k);
                add(format!("constraint {} removed", k), v);
            }
            let mut v = s.clone();
            v.exprs.push(e.clone());
            add(format!("constraint {} doubled", k), v);
            for j in k + 1..s.exprs.len() {
                if big && j > k + 2 {
                    break;
                }
                let mut v = s.clone();
                v.exprs.swap(k, j);
                add(format!("constraints {} and {} swapped", k, j), v);
            }
        }
        for k in some(s.claims.len()) {
            for i in some(s.claims[k].len()) {
                let mut v = s.clone();
                v.claims[k][i] += Fe::one();
                add(format!("claim polynomial {} coefficient {}", k, i), v);
            }
        }
        for i in some(s.seed.len()) {
            for m in [1, 0x80] {
                let mut v = s.clone();
                v.seed[i] ^= m;
                add(format!("seed byte {} ^= {}", i, m), v);
            }
            let mut v = s.clone();
            v.seed.truncate(i);
            add(format!("seed truncated to {}", i), v);
        }
        for x in [0, 1, 0xff] {
            let mut v = s.clone();
            v.seed.push(x);
            add(format!("seed extended by {}", x), v);
        }
        for q in 1..=s.queries + 3 {
            if big && q > 2 && q + 2 < s.queries {
                continue;
            }
            let mut v = s.clone();
            v.queries = q;
            add(format!("queries {}", q), v);
        }
        for pow in if big { s.pow.saturating_sub(3)..=s.pow + 3 } else { 0..=12 } {
            let mut v = s.clone();
            v.pow = pow;
            add(format!("pow {}", pow), v);
        }
        for bl in if big { vec![s.blowup / 2, s.blowup * 2] } else { vec![2, 4, 8, 16, 32, 64] } {
            if bl < 2 {
                continue;
            }
            let mut v = s.clone();
            v.blowup = bl;
            add(format!("blowup {}", bl), v);
        }
        let mut other = vec![];
        if big {
            // neighbouring layouts: a step more or less, neighbours swapped, merged, split, an end cut off
            for i in 0..s.layout.len() {
                let mut l = s.layout.clone();
                l[i] += 1;
                other.push(l.clone());
                if l[i] > 2 {
                    l[i] -= 2;
                    other.push(l.clone());
                    l.insert(i + 1, 1);
                    other.push(l);
                }
                let mut l = s.layout.clone();
                l.remove(i);
                other.push(l);
                if i + 1 < s.layout.len() {
                    let mut l = s.layout.clone();
                    l.swap(i, i + 1);
                    other.push(l.clone());
                    l[i] += l.remove(i + 1);
                    other.push(l);
                }
            }
            other.push([&s.layout[..], &[1]].concat());
        }
        for sum in 0..=s.n.trailing_zeros() as usize {
            for l in if big { std::mem::take(&mut other) } else { layouts(sum) } {
                let mut v = s.clone();
                v.layout = l.clone();
                add(format!("layout {:?}", l), v);
            }
        }
        for cols in s.cols..=s.cols + 2 {
            let mut v = s.clone();
            v.cols = cols;
            add(format!("columns {}", cols), v);
        }
        for n in [s.n / 2, s.n * 2, s.n * 4] {
            if n == 0 {
                continue;
            }
            let mut v = s.clone();
            v.n = n;
            add(format!("rows {}", n), v.clone());
            // the same evaluation domain
            if s.big_n() % n == 0 && s.big_n() / n > 1 {
                v.blowup = s.big_n() / n;
                add(format!("rows {} on the same domain", n), v);
            }
        }
        // the proof of every other configuration
        for (o, (v, _)) in bases.iter().enumerate() {
            if o != b && ((o < few_bases && !big) || o + 1 == b || o == b + 1) {
                add(format!("configuration {}", o), v.clone());
            }
        }
    }
    ck.par(&items, |ck, (b, what, v)| {
        let key = format!("proof of [{}] for: {}", bases[*b].0.key(), what);
        let mut why = "";
        ck.case(hs(&key), 1, || key.clone(), || {
            why = match agree(v, &proofs[*b])? {
                Ok(()) => "accepted",
                Err(e) => e,
            };
            Ok(())
        });
        ck.outcome(why);
        // adaptive: the same witness proved for the other seed is fine, if it still satisfies
        let (s, t) = &bases[*b];
        // (in large configurations for other statements only)
        if *b >= few_bases && (s.big_n() > 4096 || !(what.starts_with("constraint") || what.starts_with("claim"))) {
            return;
        }
        if v.n == s.n && v.cols == s.cols {
            let key = format!("witness of [{}] for: {}", s.key(), what);
            ck.case(hs(&key), 2, || key.clone(), || {
                let sat = r::satisfied(v, t);
                let tx = r::prove(v, t, &Cheat::None);
                if let Ok(()) = agree(v, &tx.bytes)? {
                    if !sat {
                        return Err("a proof of a claim the witness does not satisfy was accepted by both".into());
                    }
                }
                Ok(())
            });
        }
    });
}

pub fn c05(ck: &mut Ck) {
    let fills = [0x00_u8, 0x01, 0x07, 0x7f, 0xff];
    let mut bases = small();
    if ck.thorough() {
        for name in SYSTEMS {
            let (s, t) = system(name, 8, 21);
            bases.push((with(s, 8, 2, 1, &[2, 1]), t));
        }
    }
    let proofs: Vec<Vec<u8>> = bases.iter().map(|(s, t)| r::prove(s, t, &Cheat::None).bytes).collect();
    let mut items = vec![];
    for (b, p) in proofs.iter().enumerate() {
        for at in 0..p.len() + 40 {
            items.push((b, at));
        }
    }
    // large configurations: some lengths
    let few_bases = bases.len();
    bases.extend(large(ck.thorough()));
    let mut proofs = proofs;
    for (b, (s, t)) in bases.iter().enumerate().skip(few_bases) {
        let tx = r::prove(s, t, &Cheat::None);
        let ends: BTreeSet<usize> = tx.sections.iter().map(|s| s.2).collect();
        let ends: Vec<usize> = ends.into_iter().collect();
        let mut at: BTreeSet<usize> = spread(ends.len()).into_iter().flat_map(|i| [ends[i] - 1, ends[i], ends[i] + 1]).collect();
        at.extend(spread(tx.bytes.len()));
        at.extend([tx.bytes.len(), tx.bytes.len() + 1, tx.bytes.len() + 32]);
        items.extend(at.into_iter().map(|a| (b, a)));
        proofs.push(tx.bytes);
    }
    let (bases, proofs) = (bases, proofs);
    ck.par(&items, |ck, &(b, at)| {
        let (s, p) = (&bases[b].0, &proofs[b]);
        let big = b >= few_bases;
        let run = |ck: &mut Ck, what: String, q: Vec<u8>| {
            let mut why = "";
            ck.case(hw(&[b as u64, vcommon::h64(&q)]), 1, || format!("{}: {}", s.key(), what), || {
                why = match agree(s, &q)? {
                    Ok(()) => "accepted",
                    Err(e) => e,
                };
                Ok(())
            });
            ck.outcome(why);
        };
        // strings of this length
        for f in fills {
            run(ck, format!("{} bytes {:#x}", at, f), vec![f; at]);
        }
        let mut q = vec![];
        let mut i = 0_u64;
        while q.len() < at {
            q.extend_from_slice(&vcommon::keccak::keccak256(&[&i.to_be_bytes()[..], &[b as u8]].concat()));
            i += 1;
        }
        q.truncate(at);
        run(ck, format!("{} pseudorandom bytes", at), q.clone());
        // small elements only: top nibble of every word cleared
        for w in q.chunks_mut(32) {
            w[0] &= 0x07;
        }
        run(ck, format!("{} pseudorandom bytes, small words", at), q);
        if at < p.len() {
            for f in if big { &fills[..1] } else { &fills[..] } {
                let f = *f;
                let mut q = p[..at].to_vec();
                run(ck, format!("prefix {}", at), q.clone());
                q.resize(p.len(), f);
                run(ck, format!("prefix {} padded with {:#x}", at, f), q);
                for len in [8, 32, 64] {
                    let mut q = p.clone();
                    let end = (at + len).min(q.len());
                    for x in &mut q[at..end] {
                        *x = f;
                    }
                    run(ck, format!("{} bytes at {} set to {:#x}", len, at, f), q);
                }
            }
        }
    });
}
