//! C32: the contracts generated for a constraint system compute the same numbers as the system.
use crate::{
    interp::{Stop, Tree},
    refstark::{combined_at, degree, dense, eval, Spec},
    rf::{bitrev, Fe},
    sys,
    systems::{c, system},
    word::W,
};
use vcommon::{hs, keccak::keccak256, Ck, Def};
use zkp_stark::RationalExpression as RE;
use RE::{Trace, X};

pub const C32: Def = Def {
    prop: "C32",
    rule: "all constraint expressions of depth 1 and 2 over X, constants, trace cells, periodic and claim polynomials with negation, inversion, powers, sums, products and quotients; all sets of trace cells of small tables; numbers of inverses, periodic columns and degrees; the sizes and parameters written into the contract to be completed, for all blowups 2..64, proof-of-work bits 0..30 and query counts 1..66; no generated file empty or with unmatched brackets; each generated set of contracts executed on chosen data against direct evaluation of the expressions",
    level: "model_checking",
    run: c32,
};

fn spec(n: usize, cols: usize, exprs: Vec<RE>, claims: Vec<Vec<Fe>>) -> Spec {
    Spec { name: "generated".into(), n, cols, seed: b"g".to_vec(), exprs, claims, blowup: 16, pow: 0, queries: 3, layout: vec![1] }
}
fn periodic(e: &RE, v: &mut Vec<RE>) {
    match e {
        RE::Polynomial(..) => {
            if !v.contains(e) {
                v.push(e.clone());
            }
        }
        RE::X | RE::Constant(_) | RE::Trace(..) | RE::ClaimPolynomial(..) => {}
        RE::Neg(a) | RE::Inv(a) | RE::Exp(a, _) => periodic(a, v),
        RE::Add(a, b) | RE::Mul(a, b) => {
            periodic(a, v);
            periodic(b, v);
        }
    }
}
fn any(e: &RE, f: &mut dyn FnMut(&RE) -> bool) -> bool {
    f(e)
        || match e {
            RE::X | RE::Constant(_) | RE::Trace(..) => false,
            RE::Polynomial(_, a) | RE::ClaimPolynomial(_, _, a, _) | RE::Neg(a) | RE::Inv(a) | RE::Exp(a, _) => any(a, f),
            RE::Add(a, b) | RE::Mul(a, b) => any(a, f) || any(b, f),
        }
}
/// can occur in a system with this target degree, and only has what can be exported
fn in_scope(e: &RE, n: usize, target: usize) -> bool {
    let (tn, td) = degree(e, 0, 1);
    let (num, den) = degree(e, 1, n - 1);
    if tn < td || num > target + den {
        return false;
    }
    !any(e, &mut |x| match x {
        RE::Inv(a) => any(a, &mut |y| matches!(y, RE::Inv(_))),
        _ => false,
    })
}
fn fe(label: &str, i: u64) -> Fe {
    Fe(W::from_be(&keccak256(format!("{} {}", label, i).as_bytes())).divrem(W::hex("0800000000000011000000000000000000000000000000000000000000000001")).1 .0)
}
/// the data the contract is called with
struct Data {
    z: Fe,
    coef: Vec<Fe>,
    oods_coef: Vec<Fe>,
    trace_oods: Vec<Fe>,
    constraint_oods: Vec<Fe>,
    queries: Vec<usize>,
    trace: Vec<Fe>,
    constraint: Vec<Fe>,
}
fn data(s: &Spec, kind: u64, queries: usize) -> Data {
    let d = s.split();
    let a = s.args().len();
    let v = |l: &str, n: usize| -> Vec<Fe> {
        (0..n as u64)
            .map(|i| match kind {
                1 => Fe::ZERO,
                2 => Fe::sint(-1),
                3 if i % 2 == 0 => Fe::ZERO,
                _ => fe(&format!("{} {}", l, kind), i),
            })
            .collect()
    };
    let r = |l: &str, n: usize| -> Vec<Fe> { (0..n as u64).map(|i| fe(l, i + 100 * kind)).collect() };
    let mut q: Vec<usize> = (0..queries).map(|i| (fe("q", i as u64 + 10 * kind).0[0] as usize) % s.big_n()).collect();
    q.sort_unstable();
    Data {
        z: fe("z", kind),
        coef: r("c", 2 * s.exprs.len()),
        oods_coef: r("o", a + d),
        trace_oods: v("t", a),
        constraint_oods: v("k", d),
        queries: q,
        trace: v("tv", queries * s.cols),
        constraint: v("cv", queries * d),
    }
}
fn expected(s: &Spec, x: &Data) -> Option<(Vec<Fe>, Fe)> {
    let args = s.args();
    let d = s.split();
    let at = |i: usize, j: isize| x.trace_oods[args.iter().position(|a| *a == (i, j)).unwrap()];
    for e in &s.exprs {
        let bad = any(e, &mut |y| match y {
            RE::Inv(a) => eval(a, x.z, &at, &s.claims) == Fe::ZERO,
            _ => false,
        });
        if bad {
            return None;
        }
    }
    let g = Fe::root(s.n);
    let w = Fe::root(s.big_n());
    let mut points = vec![];
    for (i, q) in x.queries.iter().enumerate() {
        let p = Fe::int(3) * w.pow(bitrev(s.big_n(), *q) as u64);
        let mut r = Fe::ZERO;
        for (k, (col, row)) in args.iter().enumerate() {
            let den = p - x.z * g.pow(*row as u64);
            r += x.oods_coef[k] * (x.trace[i * s.cols + col] - x.trace_oods[k]) * den.inv();
        }
        let den = (p - x.z.pow(d as u64)).inv();
        for j in 0..d {
            r += x.oods_coef[args.len() + j] * (x.constraint[i * d + j] - x.constraint_oods[j]) * den;
        }
        points.push(r);
    }
    Some((points, combined_at(s, &x.coef, x.z, &args, &x.trace_oods)))
}
fn words(v: &[Fe]) -> Tree {
    Tree::Seq(v.iter().map(|f| Tree::Word(W(f.0))).collect())
}
fn run(s: &Spec, x: &Data) -> Result<&'static str, String> {
    let (points, value) = match expected(s, x) {
        Some(e) => e,
        None => return Ok("division by zero"),
    };
    let mut p = vec![];
    for e in &s.exprs {
        periodic(e, &mut p);
    }
    let data = Tree::Seq(vec![
        words(&x.trace),
        words(&x.constraint),
        words(&x.trace_oods),
        words(&x.constraint_oods),
        Tree::u(s.n.trailing_zeros().into()),
        Tree::Bytes(s.seed.clone()),
    ]);
    let args = [
        data,
        Tree::Seq(x.queries.iter().map(|q| Tree::u(*q as u64)).collect()),
        Tree::Word(W(x.z.0)),
        words(&x.coef),
        words(&x.oods_coef),
    ];
    match sys::with(s, p.len(), |d| d.vm.call(d.system, "constraint_calculations", &args)) {
        Err(Ok(e)) => Err(e),
        Err(Err(e)) => {
            if std::env::var("VEVM_WHY").is_ok() {
                println!("{}", e);
            }
            Ok("not decided")
        }
        Ok(Err(Stop::Unsupported(_))) | Ok(Err(Stop::Halt(_))) => Ok("not decided"),
        Ok(Err(Stop::Revert(m))) => Err(format!("the contract reverts: {}", m)),
        Ok(Ok((r, _))) => {
            if r.get(1) != Some(&Tree::Word(W(value.0))) {
                return Err(format!("the constraints evaluate to {:?}, expected {:?}", r.get(1), W(value.0)));
            }
            if r.first() != Some(&words(&points)) {
                return Err(format!("the polynomial points are {:?}, expected {:?}", r.first(), words(&points)));
            }
            Ok("agree")
        }
    }
}

fn c32(ck: &mut Ck) {
    ck.case(1, 1, || "interpreter arithmetic".into(), || {
        crate::word::self_check();
        Ok(())
    });
    let claims = vec![vec![Fe::int(5), Fe::int(7)], vec![fe("claim", 1), Fe::int(2), Fe::sint(-3), Fe::int(8)]];
    let poly = |k: u64| dense(&(0..4).map(|i| fe("periodic", 10 * k + i)).collect::<Vec<_>>());
    let claim = |i: usize| RE::ClaimPolynomial(i, claims[i].len() - 1, Box::new(X), Some(if i == 0 { "first" } else { "second" }));
    let leaves: Vec<RE> = vec![
        X,
        c(Fe::ZERO),
        c(Fe::one()),
        c(Fe::int(2)),
        c(Fe::sint(-1)),
        c(fe("constant", 0)),
        Trace(0, 0),
        Trace(1, 2),
        RE::Polynomial(poly(0), Box::new(RE::Exp(Box::new(X), 4))),
        claim(0),
    ];
    let b = Box::new;
    let unary = |e: &RE| -> Vec<RE> {
        let mut v = vec![RE::Neg(b(e.clone())), RE::Inv(b(e.clone()))];
        for k in [0, 1, 2, 3, 4, 5, 15, 16, 17, 31] {
            v.push(RE::Exp(b(e.clone()), k));
        }
        v
    };
    let binary = |x: &RE, y: &RE| -> Vec<RE> {
        vec![
            RE::Add(b(x.clone()), b(y.clone())),
            RE::Add(b(x.clone()), b(RE::Neg(b(y.clone())))),
            RE::Mul(b(x.clone()), b(y.clone())),
            RE::Mul(b(x.clone()), b(RE::Inv(b(y.clone())))),
        ]
    };
    let mut one: Vec<RE> = leaves.clone();
    for x in &leaves {
        one.extend(unary(x));
        for y in &leaves {
            one.extend(binary(x, y));
        }
    }
    let mut all = one.clone();
    for x in &one {
        all.extend(unary(x));
    }
    for x in &one[leaves.len()..] {
        for y in &leaves {
            all.extend(binary(x, y));
            all.extend(binary(y, x));
        }
    }
    if ck.thorough() {
        // (not more than some ten thousand polynomials can exist at the same time)
        let plain: Vec<&RE> = one.iter().filter(|e| !any(e, &mut |x| matches!(x, RE::Polynomial(..)))).collect();
        for (i, x) in plain.iter().copied().enumerate() {
            for y in plain[i..].iter().copied() {
                all.push(RE::Add(b(x.clone()), b(y.clone())));
                all.push(RE::Mul(b(x.clone()), b(y.clone())));
            }
        }
    }
    // a constraint of the highest degree gives every other one an adjustment
    let n = 16;
    let target = 5 * n - 1;
    let base = RE::Mul(b(RE::Exp(b(Trace(0, 0)), 4)), b(Trace(1, 1)));
    // those that always divide by zero are no constraints
    let defined = |e: &RE| {
        let at = |i: usize, j: isize| fe("cell", 10 * i as u64 + j as u64);
        !any(e, &mut |x| matches!(x, RE::Inv(a) if eval(a, Fe::int(77), &at, &claims) == Fe::ZERO))
    };
    let all: Vec<RE> = all.into_iter().filter(|e| in_scope(e, n, target) && defined(e)).collect();
    let with_claims = |e: &[RE]| e.iter().any(|e| any(e, &mut |x| matches!(x, RE::ClaimPolynomial(..))));
    let mut items: Vec<(String, Spec)> = vec![];
    let mut add = |name: String, n: usize, cols: usize, exprs: Vec<RE>| {
        let cl = if with_claims(&exprs) { claims.clone() } else { vec![] };
        // claims that no expression uses have no place in the contract
        let used: Vec<usize> =
            (0..cl.len()).filter(|i| exprs.iter().any(|e| any(e, &mut |x| matches!(x, RE::ClaimPolynomial(k, ..) if k == i)))).collect();
        let cl: Vec<Vec<Fe>> = cl.into_iter().take(used.len()).collect();
        let s = spec(n, cols, exprs, cl);
        let target = s.degree() * n - 1;
        assert!(s.exprs.iter().all(|e| in_scope(e, n, target)), "{}", name);
        items.push((name, s));
    };
    for (i, ch) in all.chunks(8).enumerate() {
        let mut e = ch.to_vec();
        e.insert(i % (ch.len() + 1), base.clone());
        add(format!("expressions {}", i), n, 2, e);
    }
    // every expression of depth one on its own, as far as it determines the degree itself
    for (i, e) in one.iter().enumerate() {
        let (tn, td) = degree(e, 0, 1);
        if tn > td && in_scope(e, n, (tn - td) * n - 1) {
            add(format!("single {}", i), n, 2, vec![e.clone()]);
        }
    }
    // sets of trace cells
    for set in 1_u32..64 {
        let cells: Vec<RE> = (0..6).filter(|i| set >> i & 1 == 1).map(|i| Trace(i as usize / 3, i % 3)).collect();
        let e = cells.iter().enumerate().fold(c(Fe::int(9)), |a, (i, t)| RE::Add(b(a), b(RE::Mul(b(c(Fe::int(i as u64 + 2))), b(t.clone())))));
        add(format!("cells {}", set), 8, 2, vec![e.clone()]);
        let e = cells.iter().fold(c(Fe::one()), |a, t| RE::Mul(b(a), b(t.clone())));
        add(format!("product of cells {}", set), 4, 2, vec![e]);
    }
    for rows in [vec![0, 7], vec![5], vec![1, 3, 4, 6, 7], vec![0, 1, 2, 3, 4, 5, 6, 7]] {
        for cols in [1, 3, 7] {
            let mut e = vec![];
            for r in &rows {
                for k in (0..cols).step_by(2) {
                    e.push(Trace(k, *r) - c(Fe::int(3)));
                }
            }
            add(format!("rows {:?} columns {}", rows, cols), 8, cols, e);
        }
    }
    // numbers of inverses, repeated and different; with and without adjustments
    for k in 0..ck.b(12_u64, 20) {
        for rep in [false, true] {
            let mut e: Vec<RE> = (0..k)
                .map(|i| RE::Mul(b(Trace(0, (i % 2) as isize)), b(RE::Inv(b(X - c(Fe::int(if rep { i / 2 } else { i }) + Fe::int(40)))))))
                .collect();
            e.push(Trace(0, 0) * Trace(0, 0));
            add(format!("inverses {} {}", k, rep), 8, 1, e.clone());
            e.reverse();
            add(format!("inverses {} {} reversed", k, rep), 8, 1, e.clone());
            e.retain(|x| any(x, &mut |y| matches!(y, RE::Inv(_))));
            if k > 0 {
                add(format!("inverses {} {} only", k, rep), 8, 1, e);
            }
        }
    }
    // degrees
    for d in 1..=ck.b(9, 17_usize) {
        for n in [2, 4, 16] {
            let mut e = vec![RE::Exp(b(Trace(0, 0)), d)];
            for k in 1..d {
                e.push(RE::Exp(b(Trace(1, 1)), k) * X);
                // a power of X that is also an adjustment
                e.push(RE::Exp(b(X), k));
                e.push(Trace(0, 0) * RE::Exp(b(X), d * n - 1 - (n - 1) - k));
            }
            add(format!("degree {} rows {}", d, n), n, 2, e.into_iter().filter(|e| in_scope(e, n, d * n - 1)).collect());
        }
    }
    // periodic columns: equal coefficients with different periods, different ones with the same
    for set in 1_u32..64 {
        let e: Vec<RE> = (0..6)
            .filter(|i| set >> i & 1 == 1)
            .map(|i| Trace(0, 0) * RE::Polynomial(poly(i / 3), b(RE::Exp(b(X), [1, 2, 4][i as usize % 3]))))
            .chain([Trace(0, 1) * Trace(0, 0) * Trace(0, 0)])
            .collect();
        add(format!("periodic {}", set), 8, 1, e);
    }
    // powers of powers
    for (i, j) in [(2, 2), (2, 3), (4, 2), (3, 1), (1, 3), (2, 4)] {
        let x = RE::Exp(b(RE::Exp(b(X), i)), j);
        let e = vec![Trace(0, 0) * RE::Polynomial(poly(0), b(x.clone())), Trace(0, 0).pow(4), x * Trace(0, 1)];
        add(format!("periodic in X^{}^{}", i, j), 16, 1, e);
    }
    for len in [1, 2, 4, 8, 16] {
        let p = dense(&(0..len).map(|i| if i + 1 == len { Fe::one() } else { fe("len", i) }).collect::<Vec<_>>());
        let q = dense(&(0..len).map(|_| Fe::sint(-1)).collect::<Vec<_>>());
        let z = dense(&(0..len).map(|i| if i + 1 == len { Fe::int(3) } else { Fe::ZERO }).collect::<Vec<_>>());
        for (i, p) in [p, q, z].into_iter().enumerate() {
            add(
                format!("periodic length {} {}", len, i),
                16,
                1,
                vec![Trace(0, 0) * RE::Polynomial(p.clone(), b(X)), Trace(0, 0) * Trace(0, 1) * Trace(0, 0), RE::Polynomial(p, b(X.pow(2)))],
            );
        }
    }
    // claims
    for (i, e) in [
        vec![Trace(0, 0) * claim(0), Trace(0, 0) * Trace(0, 0)],
        vec![Trace(0, 0) * claim(1) * claim(0), Trace(0, 0) * Trace(0, 0)],
        vec![(Trace(0, 0) - claim(0)) / (X - c(Fe::int(33))), claim(1) * Trace(0, 1), claim(0) * leaves[8].clone() * Trace(0, 0) * Trace(0, 1), Trace(0, 0).pow(3)],
    ]
    .into_iter()
    .enumerate()
    {
        add(format!("claims {}", i), 16, 1, e);
    }
    for name in ["fib", "square", "cube3", "periodic", "claim", "quint", "boundary", "wide"] {
        for log in [2, 3, 6, 10] {
            let (mut s, _) = system(name, 1 << log, 9);
            s.layout = vec![1];
            items.push((format!("system {} {}", name, log), s));
        }
    }
    // the numbers in the contract that the user completes
    let mut numbers = vec![];
    for name in ["fib", "square", "cube3", "periodic", "claim", "quint", "boundary", "wide"] {
        for log in 1..=10 {
            let (mut s, _) = system(name, 1 << log, 9);
            s.layout = vec![1];
            for (blowup, pow, queries) in [2, 4, 8, 16, 32, 64]
                .into_iter()
                .map(|x| (x, 7, 11))
                .chain((0..=30).map(|x| (16, x, 12)))
                .chain((1..=66).map(|x| (32, 3, x)))
            {
                if blowup >= s.split() && (log == 3 || (pow + queries) % 7 == 0) {
                    let mut s = s.clone();
                    s.blowup = blowup;
                    s.pow = pow;
                    s.queries = queries;
                    numbers.push(s);
                }
            }
        }
    }
    ck.par(&numbers, |ck, s| {
        let mut o = "numbers";
        ck.case(hs(&format!("numbers {}", s.key())), 1, || format!("numbers of {}", s.key()), || {
            let text = sys::generated(&s.constraints())?.wrapper;
            let mut p = vec![];
            for e in &s.exprs {
                periodic(e, &mut p);
            }
            let off = 1 + s.claims.len() + p.len();
            let total = off + 2 * s.exprs.len() + s.args().len();
            for (before, want) in [
                ("uint8 log_trace_length = ", s.n.trailing_zeros() as usize),
                ("number_of_constraints: ", s.exprs.len()),
                ("log_blowup: ", s.blowup.trailing_zeros() as usize),
                ("pow_bits: ", s.pow),
                ("number_of_queries: ", s.queries),
                ("call_context = new uint256[](", total),
                ("uint256 current_index = ", off),
                ("add(call_context, 0x20), ", 32 * total),
            ] {
                let at = match text.find(before) {
                    Some(i) => &text[i + before.len()..],
                    None => {
                        o = "not decided";
                        continue;
                    }
                };
                let end = at.find(|c: char| !c.is_ascii_digit()).unwrap_or(at.len());
                if at[..end] != want.to_string() {
                    return Err(format!("{}{} in the generated contract, expected {}", before, &at[..end], want));
                }
            }
            Ok(())
        });
        ck.outcome(o);
    });
    let kinds = ck.b(4, 12);
    ck.par(&items, |ck, (name, s)| {
        for kind in 0..kinds {
            let q = [3, 1, 2, 5, 4][kind as usize % 5];
            let key = format!("{} data {} queries {}", name, kind, q);
            let mut o = "";
            ck.case(hs(&key), 1, || format!("{}: {:?}", key, s.exprs), || {
                o = run(s, &data(s, kind, q))?;
                Ok(())
            });
            ck.outcome(o);
        }
    });
}
