//! C34: the verifier contract accepts exactly the valid proofs.
use crate::{
    interp::{Tree, Vm},
    json::J,
    proof::SolProof,
    refstark::{self as r, Cheat, Spec},
    rf::Fe,
    sys::{self, Verdict},
    systems::{layouts, system},
    word::W,
};
use vcommon::{hs, Ck, Def};
use zkp_stark::{proof_serialize, prove};

pub const C34: Def = Def {
    prop: "C34",
    rule: "every proof of the real prover, every single deviation of a cheating prover on satisfying and violating traces, every changed word and every changed array length, for constraint systems x sizes x query counts x fold layouts; the contracts of /repo, executed statement by statement, against the reference verifier",
    level: "model_checking",
    run: c34,
};

fn terms(s: &Spec) -> usize {
    if s.name == "periodic" {
        1
    } else {
        0
    }
}
fn with(mut s: Spec, queries: usize, pow: usize, layout: &[usize]) -> Spec {
    s.queries = queries;
    s.pow = pow;
    s.layout = layout.to_vec();
    s
}
/// the proof of the real prover as the real exporter writes it
fn exported(s: &Spec, cols: &[Vec<Fe>]) -> Result<SolProof, String> {
    let c = s.constraints();
    let p = prove(&c, &r::table(cols)).map_err(|e| format!("prove: {:?}", e))?;
    let mut t = String::new();
    proof_serialize(&c, &p, &mut t).map_err(|e| format!("proof_serialize: {:?}", e))?;
    SolProof::from_json(&J::parse(&format!("{{{}}}", t))?, s.seed.clone())
}
/// run the contract and judge
fn judge(s: &Spec, p: &SolProof, expected: Option<bool>) -> Result<&'static str, String> {
    match sys::with(s, terms(s), |d| d.verify(p)) {
        Err(Ok(e)) => Err(e),
        Err(Err(_)) => Ok("not decided"),
        Ok(Verdict::Unknown(_)) => Ok("not decided"),
        Ok(Verdict::Accepted) => match expected {
            Some(false) => Err("the contract accepts a proof that is not valid".into()),
            _ => Ok("accepted"),
        },
        Ok(Verdict::Rejected(m)) => match expected {
            Some(true) => Err(format!("the contract rejects a valid proof: {}", m)),
            _ => Ok("rejected"),
        },
    }
}
/// Some(verdict) of the reference; None where encodings that are not reduced are involved
fn reference(s: &Spec, p: &SolProof) -> Option<bool> {
    match r::verify(s, &sys::flatten(p)) {
        Ok(()) => Some(true),
        Err("not canonical") => None,
        Err(_) => Some(false),
    }
}

fn cheats(s: &Spec, few: bool) -> Vec<Cheat> {
    use Cheat::*;
    let mut v = vec![TraceRoot, ConstraintRoot];
    let d = s.split();
    let args = s.args().len();
    for k in 0..s.layout.len() {
        v.extend([FriRoot(k), FriSwap(k), FriCoefficient(k)]);
        let pts = s.big_n() >> s.layout[..k].iter().sum::<usize>();
        for i in 0..pts.min(if few { 8 } else { 256 }) {
            v.push(FriPoint(k, i));
            v.push(FriPointOnly(k, i));
        }
    }
    for c in 0..s.cols {
        v.push(TraceHigh(c));
    }
    for i in 0..d {
        v.push(OodsConstraint(i));
        for j in [0, s.n - 1, s.n, 2 * s.n] {
            v.push(ConstraintAdd(i, j));
        }
        for a in 0..=args {
            v.push(OodsFixed(a, i));
        }
    }
    for a in 0..args {
        v.push(OodsTrace(a));
    }
    for i in 0..s.n >> s.layout.iter().sum::<usize>() {
        v.push(Last(i));
    }
    for i in 0..6 {
        v.push(LastAgree(i));
    }
    for i in 0..s.queries {
        v.push(QueryNeighbour(i));
    }
    for i in 0..2 {
        v.push(NonceLarger(i));
        if s.pow > 0 {
            v.push(NonceBad(i));
        }
    }
    for k in 1..=args {
        v.push(DropOods(k));
    }
    for k in 1..=3 {
        v.push(ExtraOods(k));
    }
    v.extend([LongLast(true), LongLast(false)]);
    v
}
/// the exported proof no longer has the shape the parameters demand
fn misshapen(c: &Cheat) -> bool {
    matches!(c, Cheat::DropOods(_) | Cheat::ExtraOods(_) | Cheat::LongLast(_))
}

/// all words of a proof, in a fixed order
fn places(p: &mut SolProof) -> Vec<&mut W> {
    let mut v: Vec<&mut W> = vec![];
    v.extend(p.trace_values.iter_mut());
    v.push(&mut p.trace_commitment);
    v.extend(p.constraint_values.iter_mut());
    v.push(&mut p.constraint_commitment);
    v.extend(p.trace_oods_values.iter_mut());
    v.extend(p.constraint_oods_values.iter_mut());
    v.extend(p.trace_decommitment.iter_mut());
    v.extend(p.constraint_decommitment.iter_mut());
    v.extend(p.fri_values.iter_mut().flatten());
    v.extend(p.fri_commitments.iter_mut());
    v.extend(p.fri_decommitments.iter_mut().flatten());
    v.extend(p.last_layer_coefficients.iter_mut());
    v
}
/// change the length of one array; true if the array has parts that no check may depend on
fn arrays(p: &mut SolProof) -> Vec<(String, &mut Vec<W>, bool)> {
    let mut v: Vec<(String, &mut Vec<W>, bool)> = vec![
        ("trace_values".into(), &mut p.trace_values, false),
        ("constraint_values".into(), &mut p.constraint_values, false),
        ("trace_oods_values".into(), &mut p.trace_oods_values, false),
        ("constraint_oods_values".into(), &mut p.constraint_oods_values, false),
        ("trace_decommitment".into(), &mut p.trace_decommitment, true),
        ("constraint_decommitment".into(), &mut p.constraint_decommitment, true),
        ("fri_commitments".into(), &mut p.fri_commitments, true),
        ("last_layer_coefficients".into(), &mut p.last_layer_coefficients, false),
    ];
    for (i, x) in p.fri_values.iter_mut().enumerate() {
        v.push((format!("fri_values[{}]", i), x, true));
    }
    for (i, x) in p.fri_decommitments.iter_mut().enumerate() {
        v.push((format!("fri_decommitments[{}]", i), x, true));
    }
    v
}

fn c34(ck: &mut Ck) {
    // 0. the interpreter itself
    ck.case(1, 1, || "interpreter arithmetic".into(), || {
        crate::word::self_check();
        Ok(())
    });
    recorded(ck);
    // 1. valid proofs
    let mut specs = vec![];
    for name in ["fib", "square", "cube3", "periodic", "claim", "quint", "boundary", "wide"] {
        for log in 1..=ck.b(5, 7_usize) {
            if name == "quint" && log < 2 {
                continue;
            }
            for sum in 1..=log {
                for l in layouts(sum) {
                    if l.iter().any(|x| *x > 3) {
                        continue;
                    }
                    if log > 3 && ck.quick() && l.len() > 2 && name != "fib" {
                        continue;
                    }
                    for (q, pow) in [(1, 0), (3, 2), (8, 0)] {
                        let (s, t) = system(name, 1 << log, 5 + q as u64);
                        specs.push((with(s, q, pow, &l), t));
                    }
                }
            }
        }
    }
    for (name, log, q, l) in [
        ("fib", 8, 20, vec![3, 3, 2]),
        ("fib", 9, 20, vec![1]),
        ("square", 10, 13, vec![3, 3]),
        ("fib", 4, 255, vec![2]),
        ("wide", 3, 64, vec![3]),
        ("cube3", 6, 45, vec![2, 2]),
        ("fib", 12, 20, vec![3, 1]),
        ("boundary", 11, 30, vec![3, 3, 3]),
    ] {
        let (s, t) = system(name, 1 << log, 3);
        specs.push((with(s, q, 4, &l), t));
    }
    // many queries in small domains: repeated indices and neighbours
    for q in 1..=ck.b(24, 48) {
        for (name, log, l) in [("fib", 1, vec![1]), ("boundary", 2, vec![2]), ("square", 3, vec![1, 2]), ("wide", 3, vec![3])] {
            for secret in 0..2 {
                let (s, t) = system(name, 1 << log, 11 + secret);
                specs.push((with(s, q, 0, &l), t));
            }
        }
    }
    // systems of small domains under many seeds: all query patterns that occur
    for seed in 0..ck.b(200, 2000_u32) {
        let (mut s, t) = system("fib", 2, 7);
        s.seed = seed.to_be_bytes().to_vec();
        specs.push((with(s, 2 + seed as usize % 4, 0, &[1]), t));
    }
    ck.par(&specs, |ck, (s, t)| {
        let key = format!("valid: {}", s.key());
        let mut o = "";
        ck.case(hs(&key), 1, || key.clone(), || {
            let p = exported(s, t)?;
            o = judge(s, &p, Some(true))?;
            Ok(())
        });
        ck.outcome(&format!("valid {}", o));
    });
    // 2. cheating provers
    let mut bases = vec![];
    for (name, log, q, pow, l) in [
        ("fib", 3, 3, 0, vec![1]),
        ("fib", 4, 2, 3, vec![3]),
        ("fib", 3, 6, 0, vec![2]),
        ("square", 3, 3, 0, vec![1, 1]),
        ("square", 4, 2, 1, vec![2, 1]),
        ("cube3", 2, 3, 0, vec![1]),
        ("cube3", 3, 2, 0, vec![3]),
        ("periodic", 3, 2, 2, vec![1, 2]),
        ("claim", 3, 3, 0, vec![2]),
        ("quint", 3, 2, 0, vec![1]),
        ("boundary", 4, 4, 0, vec![1, 3]),
        ("wide", 3, 2, 0, vec![1]),
        ("zero", 3, 2, 0, vec![1]),
        // large ones
        ("fib", 6, 25, 0, vec![1, 1, 1, 1]),
        ("square", 7, 3, 9, vec![1, 1, 1, 1, 1, 1]),
        ("wide", 4, 20, 0, vec![3]),
        ("cube3", 5, 12, 11, vec![2, 2]),
        ("boundary", 8, 9, 0, vec![3, 3, 1]),
        ("fib", 9, 4, 0, vec![2]),
    ] {
        let (s, t) = if name == "zero" {
            // the satisfying trace is zero where the last value is left out
            let (s, mut t) = system("wide", 1 << log, 5);
            for c in [0, 1, 2, 4] {
                t[c] = vec![Fe::ZERO; 1 << log];
            }
            (Spec { name: "zero".into(), ..s }, t)
        } else {
            system(name, 1 << log, 5)
        };
        bases.push((with(s, q, pow, &l), t));
    }
    if ck.thorough() {
        for name in ["fib", "square", "cube3", "periodic", "claim", "quint", "boundary", "wide"] {
            for log in 2..=4_usize {
                for sum in 1..=log {
                    for l in layouts(sum).into_iter().filter(|l| l.iter().all(|x| *x <= 3)) {
                        let (s, t) = system(name, 1 << log, 77);
                        bases.push((with(s, 4, 1, &l), t));
                    }
                }
            }
        }
    }
    let mut items = vec![];
    for (b, (s, _)) in bases.iter().enumerate() {
        for c in cheats(s, ck.quick()) {
            for bad in 0..=s.cols {
                items.push((b, c.clone(), bad));
            }
        }
        for bad in 0..=s.cols {
            items.push((b, Cheat::None, bad));
        }
    }
    ck.par(&items, |ck, (b, c, bad)| {
        let (s, t) = &bases[*b];
        let mut t = t.clone();
        if *bad > 0 {
            let row = s.n / 2;
            t[*bad - 1][row] += Fe::int(1);
        }
        let key = format!("{} cheat={:?} bad column={}", s.key(), c, bad);
        let mut o = "";
        ck.case(hs(&key), 1, || key.clone(), || {
            let tx = r::prove(s, &t, c);
            let p = sys::assemble(s, &tx);
            let e = if misshapen(c) { Some(false) } else { reference(s, &p) };
            o = judge(s, &p, e)?;
            Ok(())
        });
        ck.outcome(&format!("cheat {}", o));
    });
    // 3. every changed word, every changed length
    let mut items = vec![];
    for (b, (s, t)) in bases.iter().enumerate() {
        let mut p = sys::assemble(s, &r::prove(s, t, &Cheat::None));
        for i in 0..places(&mut p).len() {
            items.push((b, i, 0));
        }
        for i in 0..arrays(&mut p).len() {
            items.push((b, i, 1));
        }
        items.push((b, 0, 2));
    }
    let two128 = W([0, 0, 1, 0]);
    ck.par(&items, |ck, &(b, i, kind)| {
        let (s, t) = &bases[b];
        let honest = sys::assemble(s, &r::prove(s, t, &Cheat::None));
        let mut all: Vec<(String, SolProof, bool)> = vec![];
        match kind {
            0 => {
                let mut p = honest.clone();
                let n = places(&mut p).len();
                let old = *places(&mut p)[i];
                let other = *places(&mut p)[(i + 1) % n];
                for (k, v) in [old.add(W::ONE), old.add(two128), W::ZERO, other, old.xor(W::u(2))].into_iter().enumerate() {
                    if v != old {
                        let mut p = honest.clone();
                        *places(&mut p)[i] = v;
                        all.push((format!("word {} change {}", i, k), p, false));
                    }
                }
            }
            1 => {
                for k in 0..6 {
                    let mut p = honest.clone();
                    let (name, open) = {
                        let mut a = arrays(&mut p);
                        let (name, v, open) = &mut a[i];
                        let row = v.first().copied();
                        match k {
                            0 => v.push(W::ZERO),
                            1 => {
                                let l = v.last().copied().unwrap_or(W::ONE);
                                v.push(l);
                            }
                            2 => v.clear(),
                            3 => {
                                let _ = v.pop();
                            }
                            4 => {
                                if let Some(w) = row {
                                    v.insert(0, w);
                                }
                            }
                            _ => {
                                let c = v.clone();
                                v.extend(c);
                            }
                        }
                        (name.clone(), *open)
                    };
                    if p != honest {
                        // what follows the part that is read is not looked at
                        all.push((format!("{} length change {}", name, k), p, open && (k < 2 || k > 3)));
                    }
                }
            }
            _ => {
                let add = |n: u64| {
                    let mut p = honest.clone();
                    p.pow_nonce = (u64::from_be_bytes(p.pow_nonce).wrapping_add(n)).to_be_bytes();
                    p
                };
                for n in [1, 2, 3, 1 << 32, u64::MAX] {
                    all.push((format!("nonce plus {}", n), add(n), false));
                }
                for k in 0..3 {
                    let mut p = honest.clone();
                    match k {
                        0 => p.public_inputs.push(0),
                        1 => {
                            let _ = p.public_inputs.pop();
                        }
                        _ => p.public_inputs[0] ^= 1,
                    }
                    all.push((format!("public input change {}", k), p, false));
                }
                for k in 0..2 {
                    let mut p = honest.clone();
                    if k == 0 {
                        let _ = p.fri_values.pop();
                    } else {
                        let _ = p.fri_decommitments.pop();
                    }
                    all.push((format!("fri layers change {}", k), p, false));
                }
            }
        }
        for (name, p, open) in all {
            let key = format!("{} {}", s.key(), name);
            let mut o = "";
            ck.case(hs(&key), 1, || key.clone(), || {
                let e = if open {
                    None
                } else if p.public_inputs != honest.public_inputs {
                    Some(false)
                } else {
                    reference(s, &p)
                };
                o = judge(s, &p, e)?;
                Ok(())
            });
            ck.outcome(&format!("changed {}", o));
        }
    });
}

/// the proofs recorded in the repository, which its own tests run against a real Ethereum machine
fn recorded(ck: &mut Ck) {
    let base = "/repo/crypto/stark-verifier-ethereum/test";
    let load = || -> Option<Vec<(String, Vec<u8>, J)>> {
        let mut v = vec![];
        let j = J::parse(&std::fs::read_to_string(format!("{}/small_fib_proof.json", base)).ok()?).ok()?;
        let pi = j.get("public_inputs")?.hex()?;
        v.push(("TrivialFib".to_string(), pi, j));
        let j = J::parse(&std::fs::read_to_string(format!("{}/recurrence_proofs.json", base)).ok()?).ok()?;
        for e in j.arr()? {
            let pi = e.get("public_inputs")?;
            let mut d = pi.get("value")?.hex()?;
            if let J::Num(n) = pi.get("index")? {
                d.extend_from_slice(&W::u(*n).be());
            }
            v.push(("Recurrence".to_string(), d, e.clone()));
        }
        Some(v)
    };
    let items: Vec<(usize, (String, Vec<u8>, J))> = load().unwrap_or_default().into_iter().enumerate().collect();
    ck.par(&items, |ck, (i, (name, pi, j))| {
        let key = format!("recorded proof {} for {}", i, name);
        let mut o = "not decided";
        ck.case(hs(&key), 1, || key.clone(), || {
            let p = SolProof::from_json(j, pi.clone())?;
            let run = || -> Result<Verdict, String> {
                let un = |e: crate::interp::Stop| format!("{:?}", e);
                let mut vm = Vm::new(sys::sources())?;
                let c = vm.class("StarkVerifier").map_err(un)?;
                let v = vm.deploy(c, &[]).map_err(un)?;
                let s = if name == "TrivialFib" {
                    let c = vm.class(name).map_err(un)?;
                    vm.deploy(c, &[]).map_err(un)?
                } else {
                    let k = vm.class("ConstraintPolyLen256").map_err(un)?;
                    let a = vm.deploy(k, &[]).map_err(un)?;
                    let c = vm.class(name).map_err(un)?;
                    vm.deploy(c, &[(crate::ast::Ty::Contract(k as u32), Vm::address(a))]).map_err(un)?
                };
                let _ = Tree::u(0);
                Ok(sys::Deployed { vm, verifier: v, system: s }.verify(&p))
            };
            match run() {
                Ok(Verdict::Accepted) => {
                    o = "accepted";
                    Ok(())
                }
                Ok(Verdict::Rejected(m)) => Err(format!("the contract rejects a recorded valid proof: {}", m)),
                _ => Ok(()),
            }
        });
        ck.outcome(&format!("recorded {}", o));
    });
}
