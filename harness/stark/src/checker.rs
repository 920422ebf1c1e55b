//! C08: check_constraints, check and check_specified report exactly the violated constraints.
use crate::refstark::{self as r, dense};
use crate::rf::Fe;
use crate::systems::{c, system, min_n, SYSTEMS};
use vcommon::{hw, Ck, Def};
use zkp_stark::{check_constraints, Constraints, Proof, Provable, RationalExpression as RE, TraceTable, Verifiable};
use RE::{Trace, X};

pub const C08: Def = Def {
    prop: "C08",
    level: "model_checking",
    rule: "every subset of active rows x 8 ways to write the divisor x 14 numerators x all traces over {0,1,2} (1 column up to 4 rows, 2 columns up to 2 rows; 8 rows with every single deviation) and every ordered pair of these constraints; verdict and first failing (row, constraint) against row-by-row evaluation, every (row, constraint) through check_specified; long traces to 4096 (thorough 16384) rows with constraints on and deviations at rows next to powers of two, up to 260 constraints and 130 columns; then the 10 protocol systems with every cell corrupted, against divisibility of the constraint polynomials",
    run: c08,
};

/// a constraint as a numerator required to vanish on some rows
#[derive(Clone)]
struct Con {
    num: RE,
    rows: Vec<bool>,
    re: RE,
    tag: String,
}
/// the constraint `num = 0 on the rows of the bit set`, written in the given way
fn con(n: usize, num: &RE, name: &str, rows: u32, form: usize) -> Option<Con> {
    let set: Vec<bool> = (0..n).map(|i| rows >> i & 1 == 1).collect();
    con_on(n, num, name, &set, form, format!("{:b}", rows))
}
fn con_on(n: usize, num: &RE, name: &str, rows: &[bool], form: usize, label: String) -> Option<Con> {
    let g = Fe::root(n);
    let at = |i: usize| X - c(g.pow(i as u64));
    let inside: Vec<usize> = (0..n).filter(|i| rows[*i]).collect();
    let outside: Vec<usize> = (0..n).filter(|i| !rows[*i]).collect();
    let prod = |v: &[usize]| v.iter().map(|&i| at(i)).reduce(|a, b| a * b);
    let all = || (X.pow(n) - 1).inv();
    let re = match form {
        // ((N * Z1) * Z2) / (X^n - 1)
        0 => outside.iter().fold(num.clone(), |e, &i| e * at(i)) * all(),
        // N * ((Z1 * Z2) / (X^n - 1))
        1 => match prod(&outside) {
            Some(z) => num.clone() * (z * all()),
            None => num.clone() * all(),
        },
        // N / (D1 * D2)
        2 => match prod(&inside) {
            Some(d) => num.clone() / d,
            None => num.clone(),
        },
        // ((N / D1) / D2)
        3 => inside.iter().fold(num.clone(), |e, &i| e / at(i)),
        // divisor first
        4 => match prod(&inside) {
            Some(d) => d.inv() * num.clone(),
            None => return None,
        },
        // negated and raised to a power
        5 => (num.clone() * prod(&inside)?.inv()).neg().pow(2),
        // an inverse of an inverse in the numerator
        6 => num.clone().inv().inv() * prod(&inside)?.inv(),
        // one progression of rows: N / (X^(n/m) - g^(k n/m))
        7 => {
            let k = *inside.first()?;
            let m = inside.len();
            if n % m != 0 || inside != (0..m).map(|j| k + j * (n / m)).collect::<Vec<_>>() {
                return None;
            }
            num.clone() / (X.pow(m) - c(g.pow((k * m) as u64)))
        }
        _ => unreachable!(),
    };
    Some(Con { num: num.clone(), rows: rows.to_vec(), re, tag: format!("{}@{}/{}", name, label, form) })
}
fn numerators(n: usize, cols: usize) -> Vec<(&'static str, RE)> {
    let mut v = vec![
        ("t", Trace(0, 0)),
        ("t-1", Trace(0, 0) - 1),
        ("t-next", Trace(0, 0) - Trace(0, 1)),
        ("t*next-prev", Trace(0, 0) * Trace(0, 1) - Trace(0, -1)),
        ("t^2-t", Trace(0, 0).pow(2) - Trace(0, 0)),
        ("t-X", Trace(0, 0) - X),
        ("t-p(X^k)", Trace(0, 0) - RE::Polynomial(dense(&[Fe::one(), Fe::one()]), Box::new(X.pow((n / 2).max(1))))),
        ("p(t)", RE::Polynomial(dense(&[Fe::ZERO, Fe::int(2), -Fe::int(3), Fe::one()]), Box::new(Trace(0, 0)))),
        ("t/2-next", Trace(0, 0) / 2 - Trace(0, 1)),
        ("-t^3", Trace(0, 0).pow(3).neg()),
        ("far", Trace(0, -(n as isize) - 1) - Trace(0, 2 * n as isize)),
        ("t/(t+1)", Trace(0, 0) / (Trace(0, 0) + 1)),
        ("const 0", 0.into()),
        ("const 1", 1.into()),
    ];
    if cols > 1 {
        v = vec![
            ("b-a", Trace(1, 0) - Trace(0, 0)),
            ("b'-a", Trace(1, 1) - Trace(0, 0)),
            ("a*b", Trace(1, 0) * Trace(0, 0)),
            ("b-a^2", Trace(1, -1) - Trace(0, 0).pow(2)),
            ("b", Trace(1, 0)),
        ];
    }
    v
}
struct Claim<'a> {
    con: &'a Constraints,
    table: &'a TraceTable,
}
impl Verifiable for Claim<'_> {
    fn constraints(&self) -> Constraints {
        self.con.clone()
    }
}
impl Provable<()> for Claim<'_> {
    fn trace(&self, _: ()) -> TraceTable {
        self.table.clone()
    }
}
fn holds(k: &Con, n: usize, cols: &[Vec<Fe>], row: usize) -> bool {
    if !k.rows[row] {
        return true;
    }
    let x = Fe::root(n).pow(row as u64);
    let tr = |i: usize, j: isize| cols[i][(row as isize + j).rem_euclid(n as isize) as usize];
    r::eval(&k.num, x, &tr, &[]) == Fe::ZERO
}
fn judge(n: usize, ks: &[&Con], cs: &Constraints, cols: &[Vec<Fe>], every: bool) -> Result<(), String> {
    let table = r::table(cols);
    let mut want = Ok(());
    'o: for row in 0..n {
        for (w, k) in ks.iter().enumerate() {
            if !holds(k, n, cols, row) {
                want = Err((row, w));
                break 'o;
            }
        }
    }
    let got = check_constraints(cs, &table);
    if got != want {
        return Err(format!("check_constraints returned {:?} instead of {:?}", got, want));
    }
    if every {
        let claim = Claim { con: cs, table: &table };
        let got = claim.check(());
        if got != want {
            return Err(format!("check returned {:?} instead of {:?}", got, want));
        }
        for row in 0..n {
            for (w, k) in ks.iter().enumerate() {
                let want = holds(k, n, cols, row);
                let got = claim.check_specified((), row, w).is_ok();
                if got != want {
                    return Err(format!("check_specified of constraint {} at row {} said {} instead of {}", w, row, got, want));
                }
            }
        }
    }
    Ok(())
}
fn traces(cells: usize) -> Vec<Vec<Fe>> {
    let mut out = vec![vec![]];
    for _ in 0..cells {
        out = out.into_iter().flat_map(|v: Vec<Fe>| (0..3).map(move |d| {
            let mut v = v.clone();
            v.push(Fe::int(d));
            v
        })).collect();
    }
    out
}
fn c08(ck: &mut Ck) {
    // single constraints, all traces
    let mut items = vec![];
    for (n, cols) in [(1, 1), (2, 1), (4, 1), (1, 2), (2, 2), (8, 1), (4, 2)] {
        for (name, num) in numerators(n, cols) {
            for rows in 0..1_u32 << n {
                if n == 8 && ck.quick() && (rows * 7 + 3) % 5 != 0 && ![0, 1, 0x80, 0xff, 0x7f, 0xfe].contains(&rows) {
                    continue;
                }
                for form in 0..8 {
                    if let Some(k) = con(n, &num, name, rows, form) {
                        items.push((n, cols, k));
                    }
                }
            }
        }
    }
    let small: Vec<(usize, usize, Vec<Vec<Fe>>)> = [(1, 1), (2, 1), (4, 1), (1, 2), (2, 2), (8, 1), (4, 2)]
        .into_iter()
        .map(|(n, cols)| {
            let mut t = vec![];
            if n * cols <= 4 {
                t = traces(n * cols);
            } else {
                // every single deviation from constant traces
                for base in 0..3 {
                    for at in 0..n * cols {
                        for v in 0..3 {
                            let mut row = vec![Fe::int(base); n * cols];
                            row[at] = Fe::int(v);
                            t.push(row);
                        }
                    }
                }
            }
            (n, cols, t)
        })
        .collect();
    let split = |t: &[Fe], n: usize, cols: usize| -> Vec<Vec<Fe>> { (0..cols).map(|j| t[j * n..(j + 1) * n].to_vec()).collect() };
    // (an inverse of an inverse is only looked at when it appears in the numerator)
    ck.par(&items, |ck, (n, cols, k)| {
        let cs = Constraints::from_expressions((*n, *cols), vec![], vec![k.re.clone()]).unwrap();
        for (i, t) in small.iter().find(|s| s.0 == *n && s.1 == *cols).unwrap().2.iter().enumerate() {
            let every = i % 9 == 0;
            let st = hw(&[*n as u64, *cols as u64, vcommon::hs(&k.tag), i as u64]);
            ck.case(st, if every { *n as u64 + 1 } else { 1 }, || format!("n={} cols={} {} trace {}", n, cols, k.tag, i), || {
                judge(*n, &[k], &cs, &split(t, *n, *cols), every)
            });
        }
    });
    // ordered pairs (and triples with a repeated first) on all traces
    let mut pairs = vec![];
    for (n, cols) in [(2, 1), (4, 1), (2, 2)] {
        let mut pool = vec![];
        for (name, num) in numerators(n, cols) {
            for rows in 0..1_u32 << n {
                for form in [0, 2] {
                    if n == 4 && ![0b0001, 0b1000, 0b0110, 0b1111].contains(&rows) {
                        continue;
                    }
                    pool.extend(con(n, &num, name, rows, form));
                }
            }
        }
        let step = ck.b(3, 1);
        for (i, a) in pool.iter().enumerate() {
            for (j, b) in pool.iter().enumerate() {
                if (i + 2 * j) % step == 0 {
                    pairs.push((n, cols, a.clone(), b.clone()));
                }
            }
        }
    }
    ck.par(&pairs, |ck, (n, cols, a, b)| {
        let cs = Constraints::from_expressions((*n, *cols), vec![], vec![a.re.clone(), b.re.clone(), a.re.clone()]).unwrap();
        for (i, t) in small.iter().find(|s| s.0 == *n && s.1 == *cols).unwrap().2.iter().enumerate() {
            if i % 5 != 0 {
                continue;
            }
            let st = hw(&[*n as u64, *cols as u64, vcommon::hs(&a.tag), vcommon::hs(&b.tag), i as u64]);
            ck.case(st, 3, || format!("n={} cols={} {} & {} trace {}", n, cols, a.tag, b.tag, i), || {
                judge(*n, &[a, b, a], &cs, &split(t, *n, *cols), false)
            });
        }
    });
    // long traces: one constraint on few, nearly all and regular rows; deviations next to powers of two
    let mut items = vec![];
    for log in ck.b(vec![4_usize, 5, 6, 7, 8, 10, 12], vec![4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]) {
        let n = 1_usize << log;
        let nums: Vec<(&str, RE, i64)> = vec![
            ("t", Trace(0, 0), 0),
            ("next", Trace(0, 1), 1),
            ("prev", Trace(0, -1), -1),
            ("far", Trace(0, (n / 2 + 3) as isize), (n / 2 + 3) as i64),
            ("next-t", Trace(0, 1) - Trace(0, 0), 0),
            ("second", Trace(1, 2), 2),
        ];
        let spots = crate::protocol::spread(n);
        for (name, num, _) in &nums {
            for r in &spots {
                let mut one = vec![false; n];
                one[*r] = true;
                items.extend(con_on(n, num, name, &one, 2, format!("row {} of {}", r, n)).map(|k| (n, k)));
                let not: Vec<bool> = one.iter().map(|b| !b).collect();
                items.extend(con_on(n, num, name, &not, 1, format!("all but row {} of {}", r, n)).map(|k| (n, k)));
            }
            let mut step = 1;
            while step < n {
                for o in [0, step / 2, step - 1] {
                    let rows: Vec<bool> = (0..n).map(|i| i % step == o).collect();
                    items.extend(con_on(n, num, name, &rows, 7, format!("every {}th from {} of {}", step, o, n)).map(|k| (n, k)));
                }
                step *= 2;
            }
        }
    }
    ck.par(&items, |ck, (n, k)| {
        let cs = Constraints::from_expressions((*n, 2), vec![], vec![k.re.clone()]).unwrap();
        let mut spots: Vec<Option<usize>> = crate::protocol::spread(*n).into_iter().map(Some).collect();
        if *n > 256 {
            spots = spots.into_iter().enumerate().filter(|(i, _)| i % 4 == vcommon::hs(&k.tag) as usize % 4).map(|x| x.1).collect();
        }
        spots.push(None);
        for spot in spots {
            for both in [false, true] {
                let mut t = vec![vec![Fe::ZERO; *n]; 2];
                if let Some(i) = spot {
                    t[0][i] = Fe::one();
                    t[1][i] = Fe::one();
                    if both {
                        t[0][(i + n / 2 + 1) % n] = Fe::int(2);
                    }
                }
                ck.case(hw(&[5, *n as u64, vcommon::hs(&k.tag), spot.map_or(u64::MAX, |s| s as u64), both as u64]), 1, || format!("{} deviation at {:?} {}", k.tag, spot, both), || {
                    judge(*n, &[k], &cs, &t, false)
                });
            }
        }
    });
    // many constraints and columns: the first violated one of each set of one or two
    let mut items = vec![];
    for (n, cols, count) in [(4_usize, 1_usize, 9_usize), (8, 3, 17), (16, 2, 33), (8, 9, 70), (4, 33, 130), (2, 130, 260), (64, 1, 64), (256, 1, 256)] {
        for a in crate::protocol::spread(count) {
            for b in [a, 0, count / 2, count - 1] {
                items.push((n, cols, count, a, b));
            }
        }
    }
    ck.par(&items, |ck, &(n, cols, count, a, b)| {
        let cell = |i: usize| (i % cols, (i / cols * 3) % n);
        let ks: Vec<Con> = (0..count).map(|i| {
            let (col, row) = cell(i);
            let mut rows = vec![false; n];
            rows[row] = true;
            con_on(n, &(Trace(col, 0) - c(Fe::int(i as u64 % 3))), "cell", &rows, 2, format!("{}", i)).unwrap()
        }).collect();
        let ks: Vec<&Con> = ks.iter().collect();
        let cs = Constraints::from_expressions((n, cols), vec![], ks.iter().map(|k| k.re.clone()).collect()).unwrap();
        let mut t = vec![vec![Fe::ZERO; n]; cols];
        for i in (0..count).rev() {
            let (col, row) = cell(i);
            t[col][row] = Fe::int(i as u64 % 3);
        }
        for (k, i) in [a, b].iter().enumerate() {
            let (col, row) = cell(*i);
            t[col][row] = Fe::int(7 + k as u64);
        }
        ck.case(hw(&[6, n as u64, cols as u64, count as u64, a as u64, b as u64]), 1, || format!("{} constraints, {} columns, {} rows: cells of {} and {} changed", count, cols, n, a, b), || {
            judge(n, &ks, &cs, &t, n * count <= 1100)
        });
    });
    // the large protocol configurations with cells changed
    let items: Vec<_> = crate::protocol::large(false).into_iter().filter(|(s, _)| s.n <= 4096 && s.pow == 0 && s.queries < 30).collect();
    ck.par(&items, |ck, (s, t)| {
        let mut cs = s.constraints();
        cs.substitute();
        let mut cells = vec![None];
        for col in crate::protocol::spread(s.cols) {
            for row in if s.n > 128 { crate::protocol::few(s.n) } else { crate::protocol::spread(s.n) } {
                cells.push(Some((col, row)));
            }
        }
        for cell in cells {
            let mut bad = t.clone();
            if let Some((col, row)) = cell {
                bad[col][row] = bad[col][row] + Fe::one();
            }
            ck.case(hw(&[7, vcommon::hs(&s.key()), cell.map_or(0, |c| c.0 * s.n + c.1 + 1) as u64]), 1, || format!("{} cell {:?}", s.key(), cell), || {
                let want = r::satisfied(s, &bad);
                let got = check_constraints(&cs, &r::table(&bad));
                if got.is_ok() == want {
                    Ok(())
                } else {
                    Err(format!("check_constraints returned {:?}, but satisfied is {}", got, want))
                }
            });
        }
    });
    // the protocol systems with every cell corrupted: the check agrees with divisibility
    let mut items = vec![];
    for name in SYSTEMS {
        for log in 0..=ck.b(4, 6) {
            if 1 << log >= min_n(name) {
                items.push((name, 1_usize << log));
            }
        }
    }
    ck.par(&items, |ck, (name, n)| {
        let (s, t) = system(name, *n, 5);
        let mut cs = s.constraints();
        cs.substitute();
        for col in 0..s.cols {
            for row in 0..=*n {
                for delta in [1_u64, 2] {
                    let mut bad = t.clone();
                    if row < *n {
                        bad[col][row] = bad[col][row] + Fe::int(delta);
                    }
                    ck.case(hw(&[vcommon::hs(name), *n as u64, col as u64, row as u64, delta]), 1, || format!("{} n={} cell ({}, {}) + {}", name, n, row, col, delta), || {
                        let want = r::satisfied(&s, &bad);
                        let got = check_constraints(&cs, &r::table(&bad));
                        if got.is_ok() == want {
                            Ok(())
                        } else {
                            Err(format!("check_constraints returned {:?}, but satisfied is {}", got, want))
                        }
                    });
                }
            }
        }
        // Provable / Verifiable pass the claim through
        ck.case(hw(&[vcommon::hs(name), *n as u64]), 2, || format!("{} n={} through the traits", name, n), || {
            let cs = s.constraints();
            let table = r::table(&t);
            let claim = Claim { con: &cs, table: &table };
            let proof = claim.prove(()).map_err(|e| format!("{:?}", e))?;
            let mut sp = s.clone();
            sp.layout = cs.fri_layout.clone();
            if proof.as_bytes() != &r::prove(&sp, &t, &r::Cheat::None).bytes[..] {
                return Err("proof differs from the reference".into());
            }
            claim.verify(&proof).map_err(|e| format!("{:?}", e))?;
            let mut b = proof.as_bytes().to_vec();
            b[70] ^= 1;
            match claim.verify(&Proof::from_bytes(b)) {
                Err(_) => Ok(()),
                Ok(()) => Err("altered proof accepted".into()),
            }
        });
    });
}
