//! C35: the verifier and the transforms built without optional features (no std, no prover).
#[allow(dead_code)]
#[path = "../../stark/src/protocol.rs"]
mod protocol;
#[allow(dead_code)]
#[path = "../../stark/src/refstark.rs"]
mod refstark;
#[path = "../../stark/src/rf.rs"]
mod rf;
#[path = "../../stark/src/systems.rs"]
mod systems;
use rf::{bitrev, evaluate, Fe};
use vcommon::{hs, hw, Ck, Def};
use zkp_primefield::{Fft, FieldElement};

const C35: Def = Def {
    prop: "C35",
    level: "model_checking",
    rule: "the crates built without default features (no std, no prover, no threads): every case of C01 (proofs of the reference prover accepted), C02 (altered proofs), C03 (deviating provers, violated traces), C04 (neighbouring claims) and C05 (arbitrary byte strings) through the verifier of that build; the verdict must equal that of the reference verifier, which the full build is compared with as well; every unit vector of every power-of-two length up to 2^9 (thorough 2^10), dense vectors to 2^14 (thorough 2^18), through fft, ifft, both cofactor variants and clone_shifted of that build, against the reference transform",
    run: c35,
};

fn f(v: Fe) -> FieldElement {
    v.fe()
}
fn brev(v: &[Fe]) -> Vec<FieldElement> {
    (0..v.len()).map(|i| f(v[bitrev(v.len(), i)])).collect()
}
fn same(what: &str, got: &[FieldElement], want: &[FieldElement]) -> Result<(), String> {
    match got.iter().zip(want).position(|(a, b)| a != b) {
        None if got.len() == want.len() => Ok(()),
        p => Err(format!("{} of length {} differs from the reference at {:?}", what, want.len(), p)),
    }
}
fn transforms(x: &[Fe], shift: Fe) -> Result<(), String> {
    let n = x.len();
    let plain: Vec<FieldElement> = x.iter().map(|v| f(*v)).collect();
    let on = |s: Fe| brev(&evaluate(x, s, n));
    let mut y = plain.clone();
    y.fft();
    same("fft", &y, &on(Fe::one()))?;
    // the inverse transform of values in natural order, its result is in bit-reversed order
    let mut z: Vec<FieldElement> = evaluate(x, Fe::one(), n).into_iter().map(f).collect();
    z.ifft();
    same("ifft", &z, &brev(x))?;
    let mut y = plain.clone();
    y.fft_cofactor(&f(shift));
    same("fft_cofactor", &y, &on(shift))?;
    let mut y = vec![FieldElement::from(7_u64); n];
    y.clone_shifted(&plain, &f(shift));
    let mut c = Fe::one();
    let want: Vec<FieldElement> = x
        .iter()
        .map(|v| {
            let r = f(*v * c);
            c *= shift;
            r
        })
        .collect();
    same("clone_shifted", &y, &want)
}

fn c35(ck: &mut Ck) {
    protocol::c01(ck);
    protocol::c02(ck);
    protocol::c03(ck);
    protocol::c04(ck);
    protocol::c05(ck);
    let mut items = vec![];
    for log in 0..=ck.b(9, 10) {
        for at in 0..1_usize << log {
            items.push((log, at));
        }
    }
    for log in 0..=ck.b(14, 18) {
        for k in 0..3 {
            items.push((log, usize::MAX - k));
        }
    }
    ck.par(&items, |ck, &(log, at)| {
        let n = 1_usize << log;
        let shift = Fe::int(if at % 2 == 0 { 3 } else { 5 }).pow(7 + (at % 64) as u64);
        let x: Vec<Fe> = if at < n {
            (0..n).map(|i| Fe::int(u64::from(i == at))).collect()
        } else {
            (0..n).map(|i| Fe::int((i + 2) as u64).pow(5) + Fe::int((usize::MAX - at) as u64)).collect()
        };
        ck.case(hw(&[hs("fft"), log as u64, at as u64]), 4, || format!("transforms of length {} vector {}", n, at), || transforms(&x, shift));
    });
}

fn main() {
    rf::self_check();
    vcommon::main(&[C35])
}
