//! C07: the proof of work under every schedule.
use crate::refstark::{self as r, Cheat, Spec};
use crate::rf::Fe;
use crate::systems::system;
use crate::rt::{explore, with_orders, with_threads, Orders};
use vcommon::{guard, hs, Ck, Def};
use zkp_stark::{prove, verify, Proof};

pub const C07: Def = Def {
    prop: "C07",
    level: "model_checking",
    rule: "stateless exploration with visited-state pruning of the real multi-threaded search: all interleavings of the searching tasks at their operations on shared atomics and locks, including loads of overwritten values (relaxed and acquire/release, bounded number per run) and spuriously failing weak exchanges, for 1..=4 tasks x difficulties 0..=4 x channel seeds; sequential task orders for more threads and difficulties up to 14 (thorough 18); the resulting proof must be the reference proof, whose nonce is the smallest valid one; and every nonce 0..256 (plus large ones) at difficulties 0..=10, and the smallest valid, larger valid and just insufficient nonces at difficulties 11..=20 (thorough 24; arbitrary nonces up to 63), is accepted by the verifier exactly if the digest has enough leading zeros",
    run: c07,
};
fn tiny(seed: u64, pow: usize) -> (Spec, Vec<Vec<Fe>>) {
    let (mut s, t) = system("boundary", 2, 3);
    s.seed = seed.to_be_bytes().to_vec();
    s.blowup = 2.max(s.split());
    s.queries = 1;
    s.layout = vec![];
    s.pow = pow;
    (s, t)
}
enum Item {
    /// threads, difficulty, seed, stale loads, spurious failures
    Explore(usize, usize, u64, usize, usize),
    Order(usize, usize, u64),
    VerifyHigh(usize, u64),
    Verify(usize, u64),
}
fn nonce(spec: &Spec, proof: &[u8], tx: &r::Tx) -> u64 {
    let _ = spec;
    let s = tx.sections.iter().find(|s| s.0 == "nonce").unwrap();
    if proof.len() < s.2 {
        return u64::MAX;
    }
    let mut b = [0; 8];
    b.copy_from_slice(&proof[s.1..s.2]);
    u64::from_be_bytes(b)
}
fn c07(ck: &mut Ck) {
    let mut items = vec![];
    // (threads, difficulty, seeds, stale loads, spurious failures)
    let bounds = ck.b(
        vec![(1, 4, 4, 2, 1), (2, 4, 6, 2, 1), (3, 2, 3, 1, 0), (3, 1, 3, 0, 1), (4, 0, 1, 0, 0)],
        vec![(1, 6, 16, 3, 2), (2, 5, 24, 3, 2), (3, 3, 8, 2, 1), (3, 4, 4, 1, 0), (4, 1, 4, 0, 0), (4, 0, 1, 1, 0)],
    );
    for (t, max, seeds, stale, spurious) in bounds {
        for d in 0..=max {
            for seed in 0..seeds {
                items.push(Item::Explore(t, d, seed, stale, spurious));
            }
        }
    }
    for t in [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 64] {
        for d in 0..=ck.b(9, 12) {
            for seed in 0..ck.b(4, 16) {
                items.push(Item::Order(t, d, seed));
            }
        }
    }
    for d in 0..=10 {
        for seed in 0..ck.b(4, 16) {
            items.push(Item::Verify(d, seed));
        }
    }
    // high difficulties
    for t in [1, 3, 8] {
        for d in ck.b(vec![12, 14], vec![12, 14, 16, 18]) {
            items.push(Item::Order(t, d, 0));
        }
    }
    for d in (11..=ck.b(20, 24)).chain([25, 28, 31, 32, 33, 40, 48, 56, 63]) {
        items.push(Item::VerifyHigh(d, d as u64 % 3));
    }
    // the largest explorations first
    items.sort_by_key(|i| match i {
        Item::Explore(t, d, ..) => 1000 - 100 * t - d,
        _ => 2000,
    });
    ck.par(&items, |ck, it| match *it {
        Item::Explore(t, d, seed, stale, spurious) => {
            let (s, cols) = tiny(seed, d);
            let tx = r::prove(&s, &cols, &Cheat::None);
            let (con, table) = (s.constraints(), r::table(&cols));
            let key = format!("all schedules threads={} difficulty={} seed={} stale={} spurious={}", t, d, seed, stale, spurious);
            let mut st = Default::default();
            // an exploration that is still running then is reported as incomplete
            let limit = std::time::Duration::from_secs_f64((ck.b(480.0, 4800.0) - ck.elapsed() as f64).max(20.0));
            let began = std::time::Instant::now();
            ck.case(hs(&key), 1, || key.clone(), || {
                let mut bad = None;
                st = with_threads(t, || {
                    explore(stale, spurious, 60_000, || {
                        vcommon::beat();
                        let p = match guard(|| prove(&con, &table)) {
                            Ok(Ok(p)) => p,
                            Ok(Err(e)) => {
                                bad = Some(format!("prove failed: {:?}", e));
                                return false;
                            }
                            Err(e) => {
                                bad = Some(format!("prove panicked: {}", e));
                                return false;
                            }
                        };
                        if p.as_bytes() != &tx.bytes[..] {
                            bad = Some(format!("nonce {} found instead of the smallest one {}", nonce(&s, p.as_bytes(), &tx), nonce(&s, &tx.bytes, &tx)));
                            return false;
                        }
                        began.elapsed() < limit
                    })
                });
                bad.map_or(Ok(()), Err)
            });
            if std::env::var_os("VERIF_DEBUG").is_some() {
                println!("{:.1} {}: {:?}", ck.elapsed(), key, st);
            }
            ck.steps(st.transitions);
            for i in 0..st.states {
                ck.state(vcommon::hw(&[hs(&key), i]));
            }
            ck.outcome(if st.complete { "all schedules explored" } else { "schedule bound reached" });
        }
        Item::Order(t, d, seed) => {
            let (s, cols) = tiny(seed, d);
            let tx = r::prove(&s, &cols, &Cheat::None);
            let (con, table) = (s.constraints(), r::table(&cols));
            for p in 0..24 {
                let key = format!("order {} threads={} difficulty={} seed={}", p, t, d, seed);
                ck.case(hs(&key), 1, || key.clone(), || {
                    let p = with_threads(t, || with_orders(Orders::All(p), || prove(&con, &table))).0.map_err(|e| format!("{:?}", e))?;
                    if p.as_bytes() != &tx.bytes[..] {
                        return Err(format!("nonce {} found instead of the smallest one {}", nonce(&s, p.as_bytes(), &tx), nonce(&s, &tx.bytes, &tx)));
                    }
                    Ok(())
                });
            }
        }
        Item::VerifyHigh(d, seed) => {
            let (s, cols) = tiny(seed, d);
            let con = s.constraints();
            let mut all: Vec<Cheat> = (0..24).map(Cheat::Nonce).collect();
            all.extend([1 << 31, 1 << 32, u64::MAX].iter().map(|x| Cheat::Nonce(*x)));
            if d <= 24 {
                // the smallest valid one, those just short of it, and more than enough
                all.extend([Cheat::None, Cheat::NonceExact(d - 1), Cheat::NonceExact(d - 2), Cheat::NonceExact(d / 2), Cheat::NonceExact(8), Cheat::NonceExact(d)]);
                if d < 20 {
                    all.extend([Cheat::NonceLarger(0), Cheat::NonceLarger(1), Cheat::NonceExact(d + 1)]);
                }
            } else {
                all.extend([Cheat::NonceExact(8), Cheat::NonceExact(16), Cheat::NonceExact(18)]);
            }
            for c in all {
                let key = format!("verify nonce {:?} difficulty={} seed={}", c, d, seed);
                ck.case(hs(&key), 1, || key.clone(), || {
                    let tx = r::prove(&s, &cols, &c);
                    let want = r::verify(&s, &tx.bytes).is_ok();
                    let got = verify(&con, &Proof::from_bytes(tx.bytes)).is_ok();
                    if want != got {
                        return Err(format!("accepted: {}, has to be: {}", got, want));
                    }
                    Ok(())
                });
            }
        }
        Item::Verify(d, seed) => {
            let (s, cols) = tiny(seed, d);
            let con = s.constraints();
            for x in (0..256).chain([1 << 31, 1 << 32, (1 << 32) + 1, u64::MAX - 1, u64::MAX]) {
                let key = format!("verify nonce {} difficulty={} seed={}", x, d, seed);
                ck.case(hs(&key), 1, || key.clone(), || {
                    let tx = r::prove(&s, &cols, &Cheat::Nonce(x));
                    let want = r::verify(&s, &tx.bytes).is_ok();
                    let got = verify(&con, &Proof::from_bytes(tx.bytes)).is_ok();
                    if want != got {
                        return Err(format!("accepted: {}, has to be: {}", got, want));
                    }
                    Ok(())
                });
            }
        }
    });
}
