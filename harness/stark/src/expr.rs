//! C10: what algebraic expressions mean - evaluation, degrees, arguments, substitution, equality -
//! and that the prover's evaluation graph computes the same.
use crate::refstark::{self as r, dense, Cheat, Spec};
use crate::rf::{horner, Fe};
use crate::systems::{all_rows, c};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vcommon::{guard, hs, hw, Ck, Def};
use zkp_stark::{prove, verify, RationalExpression as RE};
use RE::{Trace, X};

pub const C10: Def = Def {
    prop: "C10",
    level: "model_checking",
    rule: "every expression of up to two operator levels over 8 leaves, 9 unary and 4 binary operations: value and checked value on 3 assignments (zeros included), degrees for 4 trace degrees against exact fraction arithmetic, trace arguments, mapping and claim substitution; large expressions (powers to 2^20, polynomials of 4096 coefficients, chains of 300 operations, cells far away); every pair of one-level expressions for functional equality, order and hash; every polynomial expression of one level (thorough two) and 9 shapes of periodic subexpressions and 11 shapes of fractions of them for every period, and every offset up to three times around the trace, on both sides of the lookup limits as a constraint proven by the real evaluation graph, byte for byte against the reference prover",
    run: c10,
};

fn leaves() -> Vec<(String, RE)> {
    vec![
        ("X".into(), X),
        ("0".into(), 0.into()),
        ("1".into(), 1.into()),
        ("2".into(), c(Fe::int(2))),
        ("-3".into(), RE::from(-3)),
        ("t0".into(), Trace(0, 0)),
        ("t0+".into(), Trace(0, 1)),
        ("t1-".into(), Trace(1, -1)),
    ]
}
fn polys() -> Vec<Vec<Fe>> {
    vec![
        vec![Fe::int(7)],
        vec![Fe::one(), Fe::int(2)],
        vec![Fe::ZERO, Fe::ZERO, Fe::int(5), Fe::one()],
        vec![Fe::int(4), Fe::one(), Fe::int(6), Fe::ZERO],
    ]
}
fn unary((s, e): &(String, RE)) -> Vec<(String, RE)> {
    let mut v = vec![
        (format!("-({})", s), e.neg()),
        (format!("1/({})", s), e.inv()),
    ];
    for k in 0..=3 {
        v.push((format!("({})^{}", s, k), e.pow(k)));
    }
    for (i, p) in polys().iter().enumerate().skip(1) {
        v.push((format!("p{}({})", i, s), RE::Polynomial(dense(p), Box::new(e.clone()))));
    }
    v
}
fn binary(a: &(String, RE), b: &(String, RE), all: bool) -> Vec<(String, RE)> {
    let mut v = vec![
        (format!("({}+{})", a.0, b.0), a.1.clone() + b.1.clone()),
        (format!("({}*{})", a.0, b.0), a.1.clone() * b.1.clone()),
    ];
    if all {
        v.push((format!("({}-{})", a.0, b.0), a.1.clone() - b.1.clone()));
        v.push((format!("({}/{})", a.0, b.0), a.1.clone() / b.1.clone()));
    }
    v
}
fn one_level() -> Vec<(String, RE)> {
    let l = leaves();
    let mut v = l.clone();
    for a in &l {
        v.extend(unary(a));
        v.push((format!("p0({})", a.0), RE::Polynomial(dense(&polys()[0]), Box::new(a.1.clone()))));
        for b in &l {
            v.extend(binary(a, b, true));
        }
    }
    v
}
/// value, unless something is divided by zero
fn value(e: &RE, x: Fe, tr: &dyn Fn(usize, isize) -> Fe) -> Option<Fe> {
    let f = |a: &RE| value(a, x, tr);
    Some(match e {
        RE::X => x,
        RE::Constant(k) => Fe::of(k),
        RE::Trace(i, j) => tr(*i, *j),
        RE::Polynomial(p, a) => {
            let k: Vec<Fe> = p.coefficients().iter().map(Fe::of).collect();
            horner(&k, f(a)?)
        }
        RE::ClaimPolynomial(..) => panic!("claim"),
        RE::Add(a, b) => f(a)? + f(b)?,
        RE::Mul(a, b) => f(a)? * f(b)?,
        RE::Neg(a) => -f(a)?,
        RE::Inv(a) => {
            let v = f(a)?;
            if v == Fe::ZERO {
                return None;
            }
            v.inv()
        }
        RE::Exp(a, k) => f(a)?.pow(*k as u64),
    })
}
fn mix(i: usize, j: isize, salt: u64) -> Fe {
    Fe::int(hw(&[i as u64, j as u64, salt])).pow(5) + Fe::int(hw(&[j as u64, i as u64, salt]))
}
// fractions of polynomials
type Poly = Vec<Fe>;
fn pmul(a: &Poly, b: &Poly) -> Poly {
    let mut o = vec![Fe::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] = o[i + j] + *x * *y;
        }
    }
    o
}
fn padd(a: &Poly, b: &Poly) -> Poly {
    (0..a.len().max(b.len())).map(|i| a.get(i).copied().unwrap_or(Fe::ZERO) + b.get(i).copied().unwrap_or(Fe::ZERO)).collect()
}
fn pdeg(a: &Poly) -> Option<usize> {
    (0..a.len()).rev().find(|&i| a[i] != Fe::ZERO)
}
/// numerator and denominator as polynomials in X when the trace columns are polynomials of degree d
fn fraction(e: &RE, d: usize) -> (Poly, Poly) {
    let one = || vec![Fe::one()];
    match e {
        RE::X => (vec![Fe::ZERO, Fe::one()], one()),
        RE::Constant(k) => (vec![Fe::of(k)], one()),
        RE::Trace(i, j) => ((0..=d).map(|k| mix(*i, *j, 100 + k as u64)).collect(), one()),
        RE::Polynomial(p, a) => {
            let (n, m) = fraction(a, d);
            let k: Vec<Fe> = p.coefficients().iter().map(Fe::of).collect();
            let deg = pdeg(&k).unwrap_or(0);
            // sum of k_i n^i m^(deg - i)
            let mut num = vec![Fe::ZERO];
            let mut den = one();
            for i in (0..=deg).rev() {
                // horner: num = num * n + k_i * m^(deg - i)
                num = padd(&pmul(&num, &n), &pmul(&vec![k[i]], &den));
                if i > 0 {
                    den = pmul(&den, &m);
                }
            }
            (num, den)
        }
        RE::ClaimPolynomial(..) => panic!("claim"),
        RE::Add(a, b) => {
            let ((an, ad), (bn, bd)) = (fraction(a, d), fraction(b, d));
            (padd(&pmul(&an, &bd), &pmul(&bn, &ad)), pmul(&ad, &bd))
        }
        RE::Mul(a, b) => {
            let ((an, ad), (bn, bd)) = (fraction(a, d), fraction(b, d));
            (pmul(&an, &bn), pmul(&ad, &bd))
        }
        RE::Neg(a) => {
            let (n, m) = fraction(a, d);
            (n.into_iter().map(|v| -v).collect(), m)
        }
        RE::Inv(a) => {
            let (n, m) = fraction(a, d);
            (m, n)
        }
        RE::Exp(a, k) => {
            let (n, m) = fraction(a, d);
            let p = |a: &Poly| (0..*k).fold(one(), |acc, _| pmul(&acc, a));
            (p(&n), p(&m))
        }
    }
}
fn has(e: &RE, f: &dyn Fn(&RE) -> bool) -> bool {
    f(e) || match e {
        RE::Polynomial(_, a) | RE::ClaimPolynomial(_, _, a, _) | RE::Neg(a) | RE::Inv(a) | RE::Exp(a, _) => has(a, f),
        RE::Add(a, b) | RE::Mul(a, b) => has(a, f) || has(b, f),
        _ => false,
    }
}
fn semantics(ck: &mut Ck, s: &str, e: &RE, heavy: bool) {
    let st = hs(s);
    ck.case(st, 12, || s.to_string(), || {
        for salt in 0..3_u64 {
            // the last assignment has many zeros and ones
            let x = if salt < 2 { mix(9, 9, salt) } else { Fe::one() };
            let tr = |i: usize, j: isize| if salt < 2 { mix(i, j, salt) } else { Fe::int((i as u64 + j.rem_euclid(2) as u64) % 2) };
            if let Some(want) = value(e, x, &tr) {
                let t2 = |i: usize, j: isize| tr(i, j).fe();
                let got = Fe::of(&e.evaluate(&x.fe(), &t2));
                if got != want {
                    return Err(format!("evaluates to {:?} instead of {:?} on assignment {}", got, want, salt));
                }
                let (got, ok) = e.check(&x.fe(), &t2);
                if !ok || Fe::of(&got) != want {
                    return Err(format!("checks as {:?} instead of {:?} on assignment {}", (got, ok), want, salt));
                }
                // renaming the trace cells
                let moved = e.map(&|n| match n {
                    RE::Trace(i, j) => RE::Trace(i + 3, j - 2),
                    o => o,
                });
                let got = Fe::of(&moved.evaluate(&x.fe(), &|i, j| tr(i - 3, j + 2).fe()));
                if got != want {
                    return Err("mapped expression evaluates differently".into());
                }
            }
        }
        if e.map(&|n| n) != *e {
            return Err("identity map changes the expression".into());
        }
        let mut args = BTreeSet::new();
        r::arguments(e, &mut args);
        if e.trace_arguments() != args {
            return Err(format!("trace arguments {:?} instead of {:?}", e.trace_arguments(), args));
        }
        for d in [0, 1, 3, 7] {
            let want = r::degree(e, 1, d);
            if e.degree(d) != want {
                return Err(format!("degree({}) is {:?} instead of {:?}", d, e.degree(d), want));
            }
            if heavy && d < 7 {
                let (n, m) = fraction(e, d);
                if let (Some(n), Some(m)) = (pdeg(&n), pdeg(&m)) {
                    if n > want.0 || m > want.1 {
                        return Err(format!("degree({}) is {:?} but the expression has degrees {:?}", d, want, (n, m)));
                    }
                }
            }
        }
        if e.trace_degree() != r::degree(e, 0, 1) {
            return Err(format!("trace degree {:?} instead of {:?}", e.trace_degree(), r::degree(e, 0, 1)));
        }
        // polynomials given late
        let polys: Vec<Vec<Fe>> = {
            let found = std::cell::RefCell::new(polys());
            let _ = has(e, &|n| {
                if let RE::Polynomial(p, _) = n {
                    let k: Vec<Fe> = p.coefficients().iter().map(Fe::of).collect();
                    let mut v = found.borrow_mut();
                    if !v.iter().any(|q| dense(q) == *p) {
                        v.push(k);
                    }
                }
                false
            });
            found.into_inner()
        };
        let claimed = e.map(&|n| match n {
            RE::Polynomial(p, a) => {
                let i = polys.iter().position(|q| dense(q) == p).unwrap();
                let deg = pdeg(&polys[i]).unwrap();
                RE::ClaimPolynomial(i, deg, a, Some("late"))
            }
            o => o,
        });
        let dp: Vec<_> = polys.iter().map(|p| dense(p)).collect();
        if claimed.substitute_claim(&dp) != *e {
            return Err("substituting claim polynomials does not restore the expression".into());
        }
        if claimed.degree(5) != e.degree(5) || claimed.trace_arguments() != args {
            return Err("claim polynomials have other degrees or arguments".into());
        }
        Ok(())
    });
}
fn hash(e: &RE) -> u64 {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
/// structural identity, polynomials by their coefficients
fn same(a: &RE, b: &RE) -> bool {
    match (a, b) {
        (RE::X, RE::X) => true,
        (RE::Constant(a), RE::Constant(b)) => Fe::of(a) == Fe::of(b),
        (RE::Trace(a, b), RE::Trace(p, q)) => (a, b) == (p, q),
        (RE::Polynomial(p, a), RE::Polynomial(q, b)) => {
            let f = |p: &zkp_stark::DensePolynomial| {
                let mut v: Vec<Fe> = p.coefficients().iter().map(Fe::of).collect();
                while v.last() == Some(&Fe::ZERO) {
                    v.pop();
                }
                v
            };
            f(p) == f(q) && same(a, b)
        }
        (RE::Add(a, b), RE::Add(p, q)) | (RE::Mul(a, b), RE::Mul(p, q)) => same(a, p) && same(b, q),
        (RE::Neg(a), RE::Neg(b)) | (RE::Inv(a), RE::Inv(b)) => same(a, b),
        (RE::Exp(a, k), RE::Exp(b, l)) => k == l && same(a, b),
        _ => false,
    }
}
/// the expression as a value of an extra column of a proof
fn proven(name: &str, n: usize, e: &RE, blowup: usize, layout: &[usize]) -> Option<(Spec, Vec<Vec<Fe>>)> {
    proven_as(name, n, e, Trace(2, 0) - e.clone(), blowup, layout)
}
/// as `proven`, with another way to write the numerator that is zero when the column has the value
fn proven_as(name: &str, n: usize, e: &RE, numerator: RE, blowup: usize, layout: &[usize]) -> Option<(Spec, Vec<Vec<Fe>>)> {
    proven_wide(name, n, 2, e, numerator, blowup, layout)
}
/// `free` columns and one more that has the value of the expression
fn proven_wide(
    name: &str,
    n: usize,
    free: usize,
    e: &RE,
    numerator: RE,
    blowup: usize,
    layout: &[usize],
) -> Option<(Spec, Vec<Vec<Fe>>)> {
    let g = Fe::root(n);
    let t: Vec<Vec<Fe>> = (0..free).map(|i| (0..n).map(|j| mix(i, j as isize, 7)).collect()).collect();
    let mut extra = vec![];
    for row in 0..n {
        let tr = |i: usize, j: isize| t[i][(row as isize + j).rem_euclid(n as isize) as usize];
        extra.push(value(e, g.pow(row as u64), &tr)?);
    }
    let con = numerator * all_rows(n);
    let mut cols = t;
    cols.push(extra);
    let mut s = Spec {
        name: name.into(),
        n,
        cols: free + 1,
        seed: vec![1, 2, 3],
        exprs: vec![con],
        claims: vec![],
        blowup,
        pow: 0,
        queries: 2,
        layout: layout.to_vec(),
    };
    // constraints of higher degree than the trace degree announces are not supported
    let (num, den) = r::degree(&s.exprs[0], 1, n - 1);
    if num > s.degree() * n - 1 + den {
        return None;
    }
    s.blowup = s.blowup.max(s.split());
    Some((s, cols))
}
fn prove_case(ck: &mut Ck, s: &Spec, cols: &[Vec<Fe>]) {
    ck.outcome("proven");
    ck.case(hs(&s.key()), 6, || format!("proof with {}", s.name), || {
        let want = r::prove(s, cols, &Cheat::None);
        let con = s.constraints();
        let got = prove(&con, &r::table(cols)).map_err(|e| format!("prove: {:?}", e))?;
        if got.as_bytes() != &want.bytes[..] {
            let at = got.as_bytes().iter().zip(&want.bytes).position(|(a, b)| a != b);
            return Err(format!("proof differs from the reference at byte {:?}", at));
        }
        verify(&con, &got).map_err(|e| format!("verify: {:?}", e))
    });
}
fn c10(ck: &mut Ck) {
    let one = one_level();
    ck.par(&one, |ck, (s, e)| semantics(ck, s, e, true));
    let thorough = ck.thorough();
    ck.par(&one, |ck, a| {
        for (s, e) in unary(a) {
            semantics(ck, &s, &e, true);
        }
        for b in &one {
            for (s, e) in binary(a, b, false) {
                let heavy = thorough || hs(&s) % 16 == 0;
                semantics(ck, &s, &e, heavy);
            }
        }
    });
    // large expressions: powers, polynomials, chains, many operands, cells far away
    let mut big: Vec<(String, RE)> = vec![];
    for k in crate::protocol::spread(1 << 20) {
        big.push((format!("X^{}", k), X.pow(k)));
        big.push((format!("(t0 X + 1)^{}", k), (Trace(0, 0) * X + 1).pow(k)));
        big.push((format!("(1/(t0 + X))^{}", k), (Trace(0, 0) + X).inv().pow(k)));
    }
    for len in (3..=ck.b(12, 14)).map(|k| 1_usize << k) {
        for last in [len - 1, len / 2, len / 2 + 1, 3] {
            // (zeros after the last coefficient, and in between)
            let c: Vec<Fe> = (0..len).map(|i| if i > last || (len > 16 && i % 5 == 1 && i < last) { Fe::ZERO } else { mix(i, 3, len as u64) }).collect();
            for (n, a) in [("X", X), ("t1", Trace(1, 1)), ("X^3 t0", X.pow(3) * Trace(0, 0))] {
                big.push((format!("polynomial {} {} of {}", len, last, n), RE::Polynomial(dense(&c), Box::new(a))));
            }
        }
    }
    for len in [5_usize, 17, 33, 65, 130, 300] {
        let (mut sum, mut prod, mut neg, mut inv, mut pow, mut right): (RE, RE, RE, RE, RE, RE) = (Trace(0, 0), X + 1, X, Trace(0, 1) + 3, X + 2, X);
        for i in 0..len {
            sum = sum + Trace(i % 7, i as isize) * c(Fe::int(i as u64 + 2));
            prod = prod * (Trace(i, -(i as isize)) + X);
            right = (Trace(i, 0) - X) * (RE::from(i as i32) + right);
            neg = neg.neg();
            if i < 40 {
                inv = (inv + X).inv();
            }
            if i < 12 {
                pow = pow.pow(2 + i % 2);
            }
        }
        for (n, e) in [("sum", sum), ("product", prod), ("nested", right), ("negations", neg), ("inversions", inv), ("powers", pow)] {
            big.push((format!("chain of {} {}", len, n), e));
        }
    }
    for i in crate::protocol::spread(1 << 16) {
        big.push((format!("cell in column {}", i), Trace(i, i as isize) * X + Trace(i / 2, -(i as isize))));
    }
    ck.par(&big, |ck, (s, e)| semantics(ck, s, e, false));
    // sums
    for k in (0..5_usize).chain(crate::protocol::spread(300)) {
        ck.case(hw(&[5, k as u64]), 1, || format!("sum of {} terms", k), || {
            let terms: Vec<RE> = (0..k).map(|i| Trace(i, 0) * (i as i32 + 2)).collect();
            let s: RE = terms.into_iter().sum();
            let want = (0..k).fold(Fe::ZERO, |a, i| a + mix(i, 0, 3) * Fe::int(i as u64 + 2));
            let got = Fe::of(&s.evaluate(&Fe::one().fe(), &|i, j| mix(i, j, 3).fe()));
            if got == want {
                Ok(())
            } else {
                Err(format!("{:?} instead of {:?}", got, want))
            }
        });
    }
    // functional equality, order, hash
    let probes: Vec<(u64, Vec<Option<Fe>>)> = one
        .iter()
        .map(|(_, e)| (0, (0..2).map(|salt| value(e, mix(9, 9, 40 + salt), &|i, j| mix(i, j, 50 + salt))).collect()))
        .collect();
    let poly_trace = |e: &RE| has(e, &|n| matches!(n, RE::Polynomial(_, a) if has(a, &|m| matches!(m, RE::Trace(..)))));
    let hashable: Vec<bool> = one.iter().zip(&probes).map(|((_, e), p)| !poly_trace(e) && p.1[0].is_some()).collect();
    let idx: Vec<usize> = (0..one.len()).collect();
    ck.par(&idx, |ck, &i| {
        for j in 0..one.len() {
            let (a, b) = (&one[i], &one[j]);
            let (pa, pb) = (&probes[i].1, &probes[j].1);
            if pa[0].is_none() || pb[0].is_none() {
                continue;
            }
            ck.case(hw(&[6, i as u64, j as u64]), 3, || format!("{} and {}", a.0, b.0), || {
                let equal = pa == pb;
                if a.1.equals(&b.1) != equal {
                    return Err(format!("functional equality reported as {}", !equal));
                }
                let id = same(&a.1, &b.1);
                if (a.1 == b.1) != id {
                    return Err(format!("identity reported as {}", !id));
                }
                if hashable[i] && hashable[j] {
                    let (x, y) = (a.1.cmp(&b.1), b.1.cmp(&a.1));
                    if x != y.reverse() || a.1.partial_cmp(&b.1) != Some(x) {
                        return Err("the order is not antisymmetric".into());
                    }
                    if id && (x != std::cmp::Ordering::Equal || hash(&a.1) != hash(&b.1)) {
                        return Err("identical expressions differ in order or hash".into());
                    }
                    if !equal && x == std::cmp::Ordering::Equal {
                        return Err("different expressions are ordered as equal".into());
                    }
                }
                Ok(())
            });
        }
    });
    ck.case(hw(&[8]), 1, || "substitution of a claim polynomial of too high degree".into(), || {
        let e = RE::ClaimPolynomial(0, 1, Box::new(X), None);
        match guard(|| e.substitute_claim(&[dense(&[Fe::one(), Fe::ZERO, Fe::one(), Fe::ZERO])])) {
            Err(_) => Ok(()),
            Ok(_) => Err("accepted".into()),
        }
    });
    // the evaluation graph
    let poly = |e: &RE| !has(e, &|n| matches!(n, RE::Inv(_)));
    // divisions that cancel
    let divisors = [("X+5", X + 5), ("X^2-3", X.pow(2) - 3), ("t0", Trace(0, 0)), ("t1+X", Trace(1, 1) + X), ("X^4+7", X.pow(4) + 7), ("X^8-9", X.pow(8) - 9)];
    let direct = |ck: &mut Ck, s: &str, e: &RE| {
        for n in [4, 8] {
            if let Some((s, t)) = proven(s, n, e, 2, &[1]) {
                prove_case(ck, &s, &t);
            }
        }
    };
    ck.par(&one, |ck, a| {
        if !poly(&a.1) {
            return;
        }
        direct(ck, &a.0, &a.1);
        let mut more = unary(a);
        for b in &one {
            more.extend(binary(a, b, false).into_iter().filter(|(s, e)| poly(e) && (thorough || hs(s) % 24 == 0)));
        }
        for (s, e) in more {
            if poly(&e) {
                direct(ck, &s, &e);
            }
        }
    });
    let mut specs = vec![];
    for (s, e) in one.iter().filter(|(_, e)| poly(e)) {
        for (d, f) in &divisors {
            let q = (e.clone() * f.clone()) / f.clone();
            if let Some(v) = proven(&format!("{}*({1})/({1})", s, d), 8, &q, 4, &[2]) {
                specs.push(v);
            }
            let q = e.clone() + (f.clone() * f.clone()).inv() * f.pow(2);
            if let Some(v) = proven(&format!("{}+({1})^2/({1})^2", s, d), 8, &q, 4, &[2]) {
                specs.push(v);
            }
        }
    }
    ck.par(&specs, |ck, (s, t)| prove_case(ck, s, t));
    // periodic subexpressions of every period
    let mut specs = vec![];
    let p: Vec<Fe> = (0..4).map(|i| Fe::int(3 * i + 2)).collect();
    for log in 2..=ck.b(10, 12) {
        let n = 1_usize << log;
        for k in (0..=log + 3).map(|i| 1_usize << i) {
            let y = || X.pow(k);
            let shapes: Vec<(&str, RE)> = vec![
                ("p(y)", RE::Polynomial(dense(&p), Box::new(y()))),
                ("y*y+y", y() * y() + y()),
                ("(y+1)^3", (y() + 1).pow(3)),
                ("(y*5-3)/(y*5-3)", (y() * 5 - 3) / (y() * 5 - 3)),
                ("p(y+2)*y2", RE::Polynomial(dense(&p), Box::new(y() + 2)) * X.pow(2 * k)),
                ("-y^3", y().pow(3).neg()),
                ("(y*5)^2", (y() * 5).pow(2)),
                ("(y*5)^4+(-y)^3", (y() * 5).pow(4) + y().neg().pow(3)),
                ("(y+y)^2*5y", (y() + y() * 2).pow(2) * (y() * 5)),
            ];
            for (s, e) in shapes {
                for power in [1, 2, 3] {
                    // long traces: one power each
                    if log > 6 && (power + k.trailing_zeros() as usize + s.len()) % 3 != 0 {
                        continue;
                    }
                    // the periodic part multiplies powers of the trace
                    let full = Trace(0, 0).pow(power) * e.clone() + Trace(1, 1);
                    if let Some(v) = proven(&format!("{} y=X^{} t^{} n={}", s, k, power, n), n, &full, 2, &[2, 1][..(log - 1).min(2)]) {
                        specs.push(v);
                    }
                }
            }
        }
    }
    // rows far before and after, around the trace more than once
    for n in [2_isize, 4, 16] {
        for o in (-3 * n - 1..=3 * n + 1).chain([-1000, 1000]) {
            let e = Trace(0, o) * Trace(1, 1) + Trace(1, -o);
            if let Some(v) = proven(&format!("offset {} of {} rows", o, n), n as usize, &e, 2, &[1]) {
                specs.push(v);
            }
        }
    }
    // cells that are told apart by large differences only
    for n in [512_usize, 1024] {
        for step in (0..10).map(|i| 1_isize << i) {
            let e = Trace(0, 0) + Trace(0, step) * 3 + Trace(0, 2 * step) * 5 + Trace(1, -step) * Trace(1, 1) + Trace(1, 255) * 7;
            if let Some(v) = proven(&format!("cells {} apart of {} rows", step, n), n, &e, 2, &[2]) {
                specs.push(v);
            }
        }
    }
    for free in [2_usize, 7, 16, 33, 70] {
        for step in (0..7).map(|i| 1_usize << i).filter(|s| *s < free) {
            let mut e: RE = 1.into();
            for i in 0..free {
                e = e + Trace(i, 0) * (2 * i + 1) as i32;
                if i >= step {
                    e = e + Trace(i, 1) * Trace(i - step, 1);
                }
            }
            let num = Trace(free, 0) - e.clone();
            if let Some(v) = proven_wide(&format!("{} columns, {} apart", free, step), 8, free, &e, num, 2, &[1]) {
                specs.push(v);
            }
        }
    }
    // factors that are fractions of periodic terms, written such that they do not cancel
    for log in 2..=ck.b(7, 10) {
        let n = 1_usize << log;
        for k in (0..=log + 3).map(|i| 1_usize << i) {
            let y = || X.pow(k);
            let t2 = || Trace(0, 0).pow(2);
            let e = t2() + Trace(1, 1);
            let diff = |w: RE| Trace(2, 0) * w.clone() - e.clone() * w;
            let shapes: Vec<(&str, RE)> = vec![
                ("(d*y)/y", diff(y()) * y().inv()),
                ("(d*y*7)/(7*y)", diff(y() * 7) * (y() * 7).inv()),
                ("(d*-y)/-y", diff(y().neg()) * y().neg().inv()),
                ("(d*(y+5))/(y+5)", diff(y() + 5) * (y() + 5).inv()),
                ("(d*y^2)/y^2", diff(y().pow(2)) * y().pow(2).inv()),
                ("(d*y^3)*(1/y)^3", diff(y().pow(3)) * y().inv().pow(3)),
                ("d*y*(1/y+1)", diff(y()) * (y().inv() + 1)),
                ("d*y^3*p(1/y)", diff(y().pow(3)) * RE::Polynomial(dense(&p), Box::new(y().inv()))),
                ("d*(2y+1)/(1/y+2)", diff(y() * 2 + 1) * (y().inv() + 2).inv()),
                ("d*y/(1/y)", diff(1.into()) * (y() * 3) * (y().inv() * 3).inv()),
                ("d*(y-1/y)*y", diff(y()) * (y() - y().inv())),
            ];
            for (s, num) in shapes {
                if let Some(v) = proven_as(&format!("{} y=X^{} n={}", s, k, n), n, &e, num, 4, &[1]) {
                    specs.push(v);
                }
            }
        }
    }
    // large graphs: many nodes, high powers, long polynomials
    for k in [6_usize, 9, 16, 17, 31, 33, 64] {
        let e = (Trace(0, 0) + X).pow(k) + Trace(1, 1);
        specs.extend(proven(&format!("power {}", k), 4, &e, 2, &[1]));
        let e = Trace(0, 0) * X.pow(k) + (X.pow(k) + 1).pow(3) * Trace(1, 1);
        specs.extend(proven(&format!("X to {}", k), 16, &e, 2, &[1]));
    }
    for len in [8_usize, 16, 32, 64, 128, 256] {
        let c: Vec<Fe> = (0..len).map(|i| mix(i, 3, len as u64)).collect();
        for y in [1, 2, 8, 64] {
            let e = Trace(0, 0) * RE::Polynomial(dense(&c), Box::new(X.pow(y))) + Trace(1, 1);
            specs.extend(proven(&format!("polynomial of {} in X^{}", len, y), 256, &e, 2, &[2]));
        }
        if len <= 32 {
            let e = RE::Polynomial(dense(&c), Box::new(Trace(0, 0) + X)) + Trace(1, 1);
            specs.extend(proven(&format!("polynomial of {} in the trace", len), 4, &e, 2, &[1]));
        }
    }
    for len in [17_usize, 65, 130, 300] {
        let (mut sum, mut mixed): (RE, RE) = (Trace(0, 0), Trace(1, 1));
        for i in 0..len {
            sum = sum + (Trace(i % 2, (i % 16) as isize) + X.pow(i % 4)) * c(Fe::int(i as u64 + 2));
            mixed = mixed * c(Fe::int(i as u64 + 3)) + Trace(0, (i % 9) as isize);
        }
        specs.extend(proven(&format!("sum of {}", len), 16, &sum, 2, &[1]));
        specs.extend(proven(&format!("nested {}", len), 16, &mixed, 2, &[1]));
    }
    specs.reverse();
    ck.par(&specs, |ck, (s, t)| prove_case(ck, s, t));
}
