//! Constraint systems and satisfying traces the protocol checks are run on.
use crate::refstark::{dense, Spec};
use crate::rf::{horner, Fe};
use zkp_stark::RationalExpression as RE;
use RE::{Trace, X};

pub fn c(v: Fe) -> RE {
    RE::Constant(v.fe())
}
/// 1 / (X - g^row)
pub fn on_row(n: usize, row: usize) -> RE {
    (X - c(Fe::root(n).pow(row as u64))).inv()
}
pub fn all_rows(n: usize) -> RE {
    (X.pow(n) - 1).inv()
}
/// all rows but the last
pub fn not_last(n: usize) -> RE {
    (X - c(Fe::root(n).pow(n as u64 - 1))) * (X.pow(n) - 1).inv()
}
pub const SYSTEMS: [&str; 10] = ["far", "fib", "square", "cube3", "periodic", "claim", "quint", "boundary", "wide", "backward"];

fn spec(name: &str, n: usize, cols: usize, exprs: Vec<RE>) -> Spec {
    Spec {
        name: name.into(),
        n,
        cols,
        seed: name.as_bytes().to_vec(),
        exprs,
        claims: vec![],
        blowup: 16,
        pow: 0,
        queries: 3,
        layout: vec![],
    }
}
/// the system of this name for traces of n rows, with a satisfying trace (by column)
pub fn system(name: &str, n: usize, secret: u64) -> (Spec, Vec<Vec<Fe>>) {
    let s = Fe::int(secret);
    match name {
        // degree 1, two columns; defined for one row too
        "fib" => {
            let (mut a, mut b) = (vec![Fe::one()], vec![s]);
            for i in 1..n {
                a.push(b[i - 1]);
                b.push(a[i - 1] + b[i - 1]);
            }
            let mut e = vec![
                (Trace(0, 0) - 1) * on_row(n, 0),
                (Trace(1, 0) - c(b[n - 1])) * on_row(n, n - 1),
            ];
            if n > 1 {
                e.push((Trace(0, 1) - Trace(1, 0)) * not_last(n));
                e.push((Trace(1, 1) - Trace(0, 0) - Trace(1, 0)) * not_last(n));
            }
            (spec(name, n, 2, e), vec![a, b])
        }
        // degree 2, one column
        "square" => {
            let mut a = vec![s];
            for i in 1..n {
                a.push(a[i - 1] * a[i - 1] + Fe::int(3));
            }
            let e = vec![
                (Trace(0, 1) - Trace(0, 0) * Trace(0, 0) - 3) * not_last(n),
                (Trace(0, 0) - c(a[n - 1])) / (X - c(Fe::root(n).pow(n as u64 - 1))),
            ];
            (spec(name, n, 1, e), vec![a])
        }
        // degree 3, three columns, an unconstrained cell
        "cube3" => {
            let (mut a, mut b, mut d) = (vec![s], vec![Fe::int(2)], vec![Fe::int(9)]);
            for i in 1..n {
                a.push(a[i - 1] * b[i - 1] * d[i - 1]);
                b.push(d[i - 1]);
                d.push(a[i - 1] + Fe::int(i as u64) * Fe::ZERO + b[i - 1].pow(3));
            }
            let e = vec![
                (Trace(0, 1) - Trace(0, 0) * Trace(1, 0) * Trace(2, 0)) * not_last(n),
                (Trace(1, 1) - Trace(2, 0)) * not_last(n),
                (Trace(2, 1) - Trace(0, 0) - Trace(1, 0).pow(3)) * not_last(n),
                (Trace(0, 0) - c(a[n - 1])) * on_row(n, n - 1),
            ];
            (spec(name, n, 3, e), vec![a, b, d])
        }
        // periodic coefficients: a polynomial in X^(n/period)
        "periodic" => {
            let per = n.min(4);
            let k = n / per;
            // p(y) with y = g^(k row) cycling over `per` values
            let p: Vec<Fe> = (0..per as u64).map(|i| Fe::int(10 + i * i)).collect();
            let g = Fe::root(n);
            let mut a = vec![s];
            for i in 1..n {
                let y = g.pow((i as u64 - 1) * k as u64);
                a.push(a[i - 1] * horner(&p, y) + y);
            }
            let poly = RE::Polynomial(dense(&p), Box::new(X.pow(k)));
            let e = vec![
                (Trace(0, 1) - Trace(0, 0) * poly - X.pow(k)) * not_last(n),
                (Trace(0, 0) - c(a[n - 1])) * on_row(n, n - 1),
            ];
            // the product with the polynomial raises the degree above that of the trace
            let mut sp = spec(name, n, 1, e);
            sp.exprs.push((Trace(0, 0) * Trace(0, 0) - c(s * s)) * on_row(n, 0));
            (sp, vec![a])
        }
        // claim polynomial substituted late: first rows are public
        "claim" => {
            let h = (n / 2).max(1);
            let mut a = vec![s];
            for i in 1..n {
                a.push(a[i - 1] + Fe::int(i as u64));
            }
            // claim polynomial interpolating a^2 over all rows, of degree < n
            let sq: Vec<Fe> = a.iter().map(|v| *v * *v).collect();
            let p = crate::rf::interpolate(&sq, Fe::one());
            let e = vec![
                (Trace(0, 0) * Trace(0, 0)
                    - RE::ClaimPolynomial(0, n - 1, Box::new(X), Some("squares")))
                    * all_rows(n),
                (Trace(0, 0) - c(a[h - 1])) * on_row(n, h - 1),
            ];
            let mut sp = spec(name, n, 1, e);
            sp.claims = vec![p];
            (sp, vec![a])
        }
        // degree 5 (split in 8), offset two
        "quint" => {
            let (mut a, mut b) = (vec![s, s + Fe::one()], vec![Fe::int(4), Fe::int(6)]);
            for i in 2..n {
                a.push(a[i - 2].pow(5) + b[i - 1]);
                b.push(b[i - 2] + a[i - 1]);
            }
            a.truncate(n);
            b.truncate(n);
            let g = Fe::root(n);
            let not2 = || (X - c(g.pow(n as u64 - 1))) * (X - c(g.pow(n as u64 - 2))) * all_rows(n);
            let e = vec![
                (Trace(0, 2) - Trace(0, 0).pow(5) - Trace(1, 1)) * not2(),
                (Trace(1, 2) - Trace(1, 0) - Trace(0, 1)) * not2(),
                (Trace(1, 0) - c(b[n - 1])) * on_row(n, n - 1),
            ];
            (spec(name, n, 2, e), vec![a, b])
        }
        // only boundary constraints
        "boundary" => {
            let a: Vec<Fe> = (0..n as u64).map(|i| Fe::int(i * i) + s).collect();
            let e = vec![
                (Trace(0, 0) - c(a[0])) * on_row(n, 0),
                (Trace(0, 0) - c(a[n - 1])) * on_row(n, n - 1),
            ];
            (spec(name, n, 1, e), vec![a])
        }
        // five columns, one of them not mentioned by any constraint
        "wide" => {
            let mut cols = vec![vec![]; 5];
            for i in 0..n as u64 {
                let base = s + Fe::int(i * 17);
                cols[0].push(base);
                cols[1].push(base * base);
                cols[2].push(base * base * base);
                cols[3].push(Fe::int(i + 1));
                cols[4].push(base + base * base * base);
            }
            let e = vec![
                (Trace(1, 0) - Trace(0, 0).pow(2)) * all_rows(n),
                (Trace(2, 0) - Trace(0, 0) * Trace(1, 0)) * all_rows(n),
                (Trace(4, 0) - Trace(0, 0) - Trace(2, 0)) * all_rows(n),
            ];
            (spec(name, n, 5, e), cols)
        }
        // negative offsets and wrapping around
        "backward" => {
            let (mut a, mut b) = (vec![s], vec![Fe::one()]);
            for i in 1..n {
                a.push(a[i - 1] * b[i - 1] + Fe::one());
                b.push(b[i - 1] - Fe::int(2));
            }
            let not_first = || (X - 1) * all_rows(n);
            let e = vec![
                (Trace(0, 0) - Trace(0, -1) * Trace(1, -1) - 1) * not_first(),
                (Trace(1, 0) - Trace(1, -1) + 2) * not_first(),
                // the last row seen from the first one
                (Trace(0, -1) - c(a[n - 1])) * on_row(n, 0),
            ];
            (spec(name, n, 2, e), vec![a, b])
        }
        // offsets of more than a whole trace, in both directions
        "far" => {
            let mut a = vec![s];
            for i in 1..n {
                a.push(a[i - 1] * a[i - 1] - Fe::int(5));
            }
            let m = n as isize;
            let e = vec![
                (Trace(0, m + 1) - Trace(0, -m).pow(2) + 5) * not_last(n),
                (Trace(0, -m - 1) - c(a[n - 1])) * on_row(n, 0),
                (Trace(0, 3 * m - 1) - c(a[n - 1])) * on_row(n, 0),
                (Trace(0, -2 * m - 1) - c(a[0])) * on_row(n, 1 % n),
            ];
            (spec(name, n, 1, e), vec![a])
        }
        _ => panic!("no system {}", name),
    }
}
/// smallest trace length the system makes sense for
pub fn min_n(name: &str) -> usize {
    match name {
        "fib" | "boundary" | "wide" => 1,
        "quint" => 4,
        _ => 2,
    }
}
/// all sequences of reductions of 1..=4 with the given sum
pub fn layouts(sum: usize) -> Vec<Vec<usize>> {
    if sum == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for f in 1..=sum.min(4) {
        for mut r in layouts(sum - f) {
            r.insert(0, f);
            out.push(r);
        }
    }
    out
}
