//! C11: polynomials and trace tables; C12: parameters; C13: serialized proofs.
use crate::refstark::{self as r, dense, Cheat, Spec};
use crate::rf::{self, horner, Fe};
use crate::protocol::{large, spread};
use crate::systems::{layouts, min_n, system, SYSTEMS};
use std::collections::BTreeMap;
use vcommon::{guard, hs, hw, Ck, Def};
use zkp_mmap_vec::MmapVec;
use zkp_primefield::FieldElement;
use zkp_stark::{proof_serialize, prove, Constraints, DensePolynomial, Proof, RationalExpression as RE, TraceTable};

pub const C11: Def = Def {
    prop: "C11",
    level: "model_checking",
    rule: "all polynomials of length 1, 2 and 4 over 5 coefficient values (degree, value at 5 points, equality of all pairs, division by all points, all scalings) and dense ones of every length to 4096 with every blowup to 64 extended and compared with a reference transform; all operation sequences up to length 3 (thorough 4) on trace tables of 1..=4 rows and 1..=3 columns, and interpolation of tables to 4096 rows",
    run: c11,
};
pub const C12: Def = Def {
    prop: "C12",
    level: "model_checking",
    rule: "security bits for all blowups 1..=1025, queries 0..=64 (some to 65536) and proof-of-work bits; defaults for all trace lengths 2^0..2^63 and rejection of all other lengths to 70000; the size bound against the proofs of the reference prover for 10 systems x every folding schedule x blowups x query counts (overlapping and disjoint), for 30..256 queries and for 45 configurations with one large parameter; degree, arguments, combination and substitution for the 10 systems and the large configurations",
    run: c12,
};
pub const C13: Def = Def {
    prop: "C13",
    level: "model_checking",
    rule: "serialization of honest proofs of 10 systems x folding schedules x query counts, parsed as JSON and compared field by field with the reference reading of the proof; then every byte of small proofs flipped, every truncation and several extensions; the 45 configurations with one large parameter, cut and damaged at message ends: same contents or an error, never a panic",
    run: c13,
};

fn fe(v: &Fe) -> FieldElement {
    v.fe()
}
fn list(v: &[FieldElement]) -> Vec<Fe> {
    v.iter().map(Fe::of).collect()
}
fn rnd(i: u64, j: u64) -> Fe {
    Fe::int(hw(&[i, j])).pow(7) + Fe::int(hw(&[j, i, 1]))
}
fn mm(v: &[Fe]) -> MmapVec<FieldElement> {
    let mut m = MmapVec::with_capacity(v.len());
    for x in v {
        m.push(x.fe());
    }
    m
}

fn c11(ck: &mut Ck) {
    let big = rnd(1, 2);
    let coefs = [Fe::ZERO, Fe::one(), -Fe::one(), Fe::int(2), big];
    let points = [Fe::ZERO, Fe::one(), -Fe::one(), Fe::int(3), rnd(3, 4)];
    let mut all: Vec<Vec<Fe>> = vec![];
    for len in [1, 2, 4] {
        let mut v: Vec<Vec<Fe>> = vec![vec![]];
        for _ in 0..len {
            v = v.into_iter().flat_map(|p| coefs.iter().map(move |c| [p.clone(), vec![*c]].concat())).collect();
        }
        all.extend(v);
    }
    let ids: Vec<usize> = (0..all.len()).collect();
    let step = ck.b(7, 1);
    ck.par(&ids, |ck, &i| {
        let p = &all[i];
        let d = dense(p);
        ck.case(hw(&[1, i as u64]), 3 + 5, || format!("polynomial {}", i), || {
            if d.len() != p.len() || d.is_empty() || list(d.coefficients()) != *p {
                return Err("coefficients".into());
            }
            let deg = (0..p.len()).rev().find(|&k| p[k] != Fe::ZERO).unwrap_or(0);
            if d.degree() != deg {
                return Err(format!("degree {} instead of {}", d.degree(), deg));
            }
            for x in &points {
                if Fe::of(&d.evaluate(&fe(x))) != horner(p, *x) {
                    return Err(format!("value at {:?}", x));
                }
            }
            if DensePolynomial::from_mmap_vec(mm(p)) != d || d.clone() != d {
                return Err("construction".into());
            }
            // (P(X) - P(z)) / (X - z) * c added to a polynomial
            for z in &points {
                for k in [Fe::ZERO, Fe::one(), big] {
                    let base: Vec<Fe> = (0..p.len() as u64).map(|j| rnd(9, j)).collect();
                    let mut t = dense(&base);
                    d.divide_out_point_into(&fe(z), &fe(&k), &mut t);
                    let mut q = vec![Fe::ZERO; p.len()];
                    let mut acc = Fe::ZERO;
                    for j in (1..p.len()).rev() {
                        acc = acc * *z + p[j];
                        q[j - 1] = acc;
                    }
                    let want: Vec<Fe> = (0..p.len()).map(|j| base[j] + k * q[j]).collect();
                    if list(t.coefficients()) != want {
                        return Err(format!("dividing out {:?}", z));
                    }
                }
            }
            Ok(())
        });
        for (j, q) in all.iter().enumerate().skip(i % step).step_by(step) {
            ck.case(hw(&[2, i as u64, j as u64]), 1, || format!("polynomials {} and {}", i, j), || {
                let strip = |v: &[Fe]| {
                    let mut v = v.to_vec();
                    while v.last() == Some(&Fe::ZERO) {
                        v.pop();
                    }
                    v
                };
                if (d == dense(q)) == (strip(p) == strip(q)) {
                    Ok(())
                } else {
                    Err("equality".into())
                }
            });
        }
    });
    // lengths that are not a power of two are refused
    for len in 0..=70_usize {
        ck.case(hw(&[3, len as u64]), 3, || format!("polynomial of length {}", len), || {
            let v = vec![Fe::one(); len];
            let w: Vec<FieldElement> = v.iter().map(fe).collect();
            let ok = [
                guard(|| DensePolynomial::new(&w)).is_ok(),
                guard(|| DensePolynomial::zeros(len)).is_ok(),
                // an empty memory map cannot be made at all
                len > 0 && guard(|| DensePolynomial::from_mmap_vec(mm(&v))).is_ok(),
            ];
            if ok != [len.is_power_of_two(); 3] {
                return Err(format!("{:?}", ok));
            }
            if len.is_power_of_two() {
                let z = DensePolynomial::zeros(len);
                if z.len() != len || z.coefficients().iter().any(|c| Fe::of(c) != Fe::ZERO) || z.degree() != 0 {
                    return Err("zeros".into());
                }
            }
            Ok(())
        });
    }
    // low degree extension, in bit reversed order over the coset of the generator
    let mut items = vec![];
    for log in 0..=ck.b(11, 13) {
        for b in 0..=6 {
            if log + b <= ck.b(15, 17) {
                items.push((log, b));
            }
        }
    }
    items.reverse();
    ck.par(&items, |ck, &(log, b)| {
        let n = 1_usize << log;
        ck.case(hw(&[4, log, b]), 1, || format!("extension of 2^{} by 2^{}", log, b), || {
            let p: Vec<Fe> = (0..n as u64).map(|j| rnd(log, j)).collect();
            let got = dense(&p).low_degree_extension(1 << b);
            let want = rf::permuted(&rf::evaluate(&p, Fe::int(3), n << b));
            if got.len() != n << b {
                return Err(format!("length {}", got.len()));
            }
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                if Fe::of(g) != *w {
                    return Err(format!("value {}", i));
                }
            }
            Ok(())
        });
    });
    // trace tables: every sequence of operations
    let mut items = vec![];
    for rows in [1_usize, 2, 4] {
        for cols in 1..=3_usize {
            items.push((rows, cols));
        }
    }
    let depth = ck.b(3, 4);
    ck.par(&items, |ck, &(rows, cols)| {
        let cells = rows * cols;
        // operations: write a cell, write a whole row, replace by a clone
        let ops = cells + rows + 1;
        let depth = if cells > 6 { depth - 1 } else { depth };
        for code in 0..ops.pow(depth as u32) {
            ck.case(hw(&[5, rows as u64, cols as u64, code as u64]), depth as u64, || format!("table {}x{} history {}", rows, cols, code), || {
                let mut t = TraceTable::new(rows, cols);
                let mut m = vec![vec![Fe::ZERO; cols]; rows];
                let mut k = code;
                for step in 0..depth as u64 {
                    let op = k % ops;
                    k /= ops;
                    if op < cells {
                        let v = rnd(step, op as u64);
                        t[(op / cols, op % cols)] = fe(&v);
                        m[op / cols][op % cols] = v;
                    } else if op < cells + rows {
                        let r = op - cells;
                        for (j, c) in t[r].iter_mut().enumerate() {
                            let v = rnd(step + 50, j as u64);
                            *c = fe(&v);
                            m[r][j] = v;
                        }
                    } else {
                        let mut old = t.clone();
                        std::mem::swap(&mut old, &mut t);
                        if old != t {
                            return Err("a clone differs".into());
                        }
                        old[(rows - 1, cols - 1)] += fe(&Fe::one());
                        if old == t {
                            return Err("tables with different cells are equal".into());
                        }
                    }
                }
                table_ok(&t, &m)
            });
        }
        ck.case(hw(&[6, rows as u64, cols as u64]), 4, || format!("table {}x{} outside", rows, cols), || {
            let mut t = TraceTable::new(rows, cols);
            for (i, j) in [(rows, 0), (0, cols), (rows - 1, cols), (rows, cols), (usize::MAX, 0), (0, usize::MAX)] {
                if guard(|| t[(i, j)].clone()).is_ok() || guard(|| t[(i, j)] = fe(&Fe::one())).is_ok() {
                    return Err(format!("cell {:?} accessible", (i, j)));
                }
            }
            if guard(|| t[rows].len()).is_ok() || guard(|| t[rows][0] = fe(&Fe::one())).is_ok() {
                return Err("row accessible".into());
            }
            table_ok(&t, &vec![vec![Fe::ZERO; cols]; rows])
        });
    });
    let mut items = vec![];
    for log in 0..=12 {
        for cols in 1..=3 {
            items.push((1_usize << log, cols as usize));
        }
    }
    items.reverse();
    ck.par(&items, |ck, &(rows, cols)| {
        ck.case(hw(&[7, rows as u64, cols as u64]), cols as u64, || format!("interpolation of {}x{}", rows, cols), || {
            let c: Vec<Vec<Fe>> = (0..cols as u64).map(|j| (0..rows as u64).map(|i| rnd(i, j)).collect()).collect();
            let t = r::table(&c);
            let p = t.interpolate();
            if p.len() != cols {
                return Err("number of polynomials".into());
            }
            for j in 0..cols {
                if list(p[j].coefficients()) != rf::interpolate(&c[j], Fe::one()) {
                    return Err(format!("column {}", j));
                }
            }
            if Fe::of(&t.generator()) != Fe::root(rows) {
                return Err("generator".into());
            }
            Ok(())
        });
    });
}
fn table_ok(t: &TraceTable, m: &[Vec<Fe>]) -> Result<(), String> {
    let (rows, cols) = (m.len(), m[0].len());
    if (t.num_rows(), t.num_columns()) != (rows, cols) {
        return Err("size".into());
    }
    for i in 0..rows {
        for j in 0..cols {
            if Fe::of(&t[(i, j)]) != m[i][j] {
                return Err(format!("cell {} {}", i, j));
            }
        }
        if list(&t[i]) != m[i] || t.iter_row(i).map(Fe::of).collect::<Vec<_>>() != m[i] {
            return Err(format!("row {}", i));
        }
    }
    for j in 0..cols {
        let want: Vec<Fe> = (0..rows).map(|i| m[i][j]).collect();
        if t.iter_column(j).map(Fe::of).collect::<Vec<_>>() != want || list(&t.column_to_mmapvec(j)) != want {
            return Err(format!("column {}", j));
        }
    }
    Ok(())
}

fn ref_layout(log: usize) -> Vec<usize> {
    let mut k = if log > 8 { log - 8 } else { log };
    let mut v = vec![];
    while k > 0 {
        v.push(k.min(3));
        k -= k.min(3);
    }
    v
}
fn c12(ck: &mut Ck) {
    let blowups: Vec<usize> = (1..=1025).chain([2047, 2048, 2049, 1 << 16, 1 << 31, 1 << 63]).collect();
    ck.par(&blowups, |ck, &b| {
        for q in (0..=64_usize).chain([99, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000, 4096, 65536]) {
            ck.case(hw(&[1, b as u64, q as u64]), 4, || format!("security of blowup {} and {} queries", b, q), || {
                for pow in [0, 1, 20, 63] {
                    let mut c = Constraints::from_expressions((4, 1), vec![], vec![]).map_err(|e| e.to_string())?;
                    c.blowup = b;
                    c.num_queries = q;
                    c.pow_bits = pow;
                    // largest k with 2^k <= blowup
                    let log = (0..64).rev().find(|k| (1_u64 << k) <= b as u64).unwrap();
                    let got = c.security_bits();
                    // every two queries gain at least log bits
                    if got != log * (q / 2) + pow {
                        return Err(format!("{} bits instead of {} for {} bits of work", got, log * (q / 2) + pow, pow));
                    }
                }
                Ok(())
            });
        }
    });
    let e = || vec![(RE::Trace(0, 0) - 1) / (RE::X - 1)];
    for log in 0..64_usize {
        ck.case(hw(&[2, log as u64]), 4, || format!("defaults for 2^{} rows", log), || {
            let n = 1_usize << log;
            let seed = vec![log as u8; log % 5];
            let c = Constraints::from_expressions((n, log + 1), seed.clone(), e()).map_err(|e| e.to_string())?;
            let basic = |c: &Constraints| {
                c.channel_seed() == &seed[..]
                    && c.trace_nrows() == n
                    && c.trace_ncolumns() == log + 1
                    && c.len() == 1
                    && !c.is_empty()
                    && c.expressions() == &e()[..]
                    && c.claim_polynomials.is_empty()
            };
            if !basic(&c) || (c.blowup, c.pow_bits, c.num_queries) != (16, 0, 45) || c.fri_layout != ref_layout(log) {
                return Err(format!("{:?}", c));
            }
            if c.fri_layout.iter().sum::<usize>() > log {
                return Err("folds more often than the trace allows".into());
            }
            for mask in 0..16 {
                let some = |bit: u32, v: usize| if mask >> bit & 1 == 1 { Some(v) } else { None };
                let lay = if mask & 8 == 8 { Some(vec![1; log.min(3)]) } else { None };
                let c = Constraints::from_expressions_detailed((n, log + 1), seed.clone(), e(), some(0, 32), some(1, 7), some(2, 21), lay.clone()).map_err(|e| e.to_string())?;
                let want = (some(0, 32).unwrap_or(16), some(1, 7).unwrap_or(20), some(2, 21).unwrap_or(13));
                if !basic(&c) || (c.blowup, c.pow_bits, c.num_queries) != want || c.fri_layout != lay.unwrap_or(ref_layout(log)) {
                    return Err(format!("options {}: {:?}", mask, c));
                }
            }
            Ok(())
        });
    }
    for n in 0..=70_000_usize {
        if n.is_power_of_two() {
            continue;
        }
        ck.case(hw(&[3, n as u64]), 2, || format!("{} rows", n), || {
            let a = Constraints::from_expressions((n, 1), vec![], e()).is_err();
            let b = Constraints::from_expressions_detailed((n, 1), vec![], e(), Some(2), None, Some(1), Some(vec![])).is_err();
            if a && b {
                Ok(())
            } else {
                Err("accepted".into())
            }
        });
    }
    // bound on the proof size
    let mut items: Vec<(Spec, Vec<Vec<Fe>>)> = vec![];
    let add = |items: &mut Vec<_>, s: &Spec, t: &Vec<Vec<Fe>>, b: usize, q: usize, l: &[usize]| {
        let mut s = s.clone();
        s.blowup = b.max(s.split()).max(2);
        s.queries = q;
        s.layout = l.to_vec();
        items.push((s, t.clone()));
    };
    for name in SYSTEMS {
        for log in 0..=ck.b(5, 6) {
            let n = 1 << log;
            if n < min_n(name) {
                continue;
            }
            let (s, t) = system(name, n, 5);
            for sum in 0..=log {
                for l in layouts(sum) {
                    for (b, q) in [(2, 1), (4, 2), (16, 3), (4, 20)] {
                        add(&mut items, &s, &t, b, q, &l);
                    }
                }
            }
        }
        // large domains with few queries: hardly any overlap
        for log in 7..=ck.b(9, 11) {
            let (s, t) = system(name, 1 << log, 6);
            for (b, q) in [(32, 1), (16, 2), (32, 3), (8, 5)] {
                for l in [vec![], vec![1; log], vec![4, 3], vec![2, 1, 2], ref_layout(log)] {
                    add(&mut items, &s, &t, b, q, &l);
                }
            }
        }
    }
    items.extend(large(ck.thorough()));
    // many queries on a small and on a large domain
    for q in [30, 64, 65, 100, 128, 200, 256] {
        for (n, b) in [(8, 4), (64, 16), (512, 16)] {
            let (s, t) = system("cube3", n, 6);
            for l in [vec![], vec![1], vec![2, 1], vec![1, 1, 1]] {
                add(&mut items, &s, &t, b, q, &l);
            }
        }
    }
    items.reverse();
    ck.par(&items, |ck, (s, t)| {
        ck.case(hs(&s.key()), 1, || format!("size of {}", s.key()), || {
            let size = r::prove(s, t, &Cheat::None).bytes.len();
            let bound = s.constraints().max_proof_size();
            if size <= bound {
                Ok(())
            } else {
                Err(format!("a proof has {} bytes, the bound is {}", size, bound))
            }
        });
    });
    // degree, arguments, combination, substitution
    let mut specs: Vec<Spec> = large(false).into_iter().map(|(s, _)| s).collect();
    for name in SYSTEMS {
        for log in 0..=4 {
            let n = 1 << log;
            if n >= min_n(name) {
                specs.push(system(name, n, 5).0);
            }
        }
    }
    {
        for s in &specs {
            let (n, name) = (s.n, s.name.as_str());
            ck.case(hw(&[4, hs(&s.key()), n as u64]), 4, || format!("constraints of {} for {} rows", name, n), || {
                let mut c = s.constraints();
                if c.degree() != s.degree() || c.trace_arguments() != s.args() || c.len() != s.exprs.len() {
                    return Err("degree or arguments".into());
                }
                if !s.claims.is_empty() {
                    let d: Vec<_> = s.claims.iter().map(|p| dense(p)).collect();
                    c.add_claim_polynomials(d);
                }
                c.substitute();
                if c.degree() != s.degree() || c.trace_arguments() != s.args() {
                    return Err("degree or arguments after substitution".into());
                }
                let k: Vec<Fe> = (0..2 * s.exprs.len() as u64).map(|i| rnd(i, 77)).collect();
                let kf: Vec<FieldElement> = k.iter().map(fe).collect();
                let combined = c.combine(&kf);
                let x = rnd(5, 6);
                let tr = |i: usize, j: isize| rnd(i as u64 + 1, j as u64);
                let mut want = Fe::ZERO;
                for (i, e) in s.exprs.iter().enumerate() {
                    let (num, den) = r::degree(e, 1, n - 1);
                    let adj = s.degree() * n - 1 + den - num;
                    want = want + (k[2 * i] + k[2 * i + 1] * x.pow(adj as u64)) * r::eval(e, x, &tr, &s.claims);
                }
                let got = Fe::of(&combined.evaluate(&fe(&x), &|i, j| fe(&tr(i, j))));
                if got != want {
                    return Err("combined constraint".into());
                }
                if guard(|| c.combine(&kf[1..])).is_ok() {
                    return Err("combined with too few coefficients".into());
                }
                Ok(())
            });
        }
    }
}

#[derive(Debug, PartialEq)]
enum Json {
    S(String),
    L(Vec<Json>),
    O(BTreeMap<String, Json>),
}
/// strict JSON (strings without escapes, lists, objects)
fn json(s: &[u8], i: &mut usize) -> Result<Json, String> {
    fn ws(s: &[u8], i: &mut usize) {
        while *i < s.len() && b" \n\r\t".contains(&s[*i]) {
            *i += 1;
        }
    }
    fn expect(s: &[u8], i: &mut usize, c: u8) -> Result<(), String> {
        ws(s, i);
        if s.get(*i) == Some(&c) {
            *i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {} of {:?}", c as char, i, String::from_utf8_lossy(&s[i.saturating_sub(20)..(*i + 20).min(s.len())])))
        }
    }
    ws(s, i);
    match s.get(*i) {
        Some(b'"') => {
            *i += 1;
            let st = *i;
            while *i < s.len() && s[*i] != b'"' {
                if s[*i] < 0x20 || s[*i] == b'\\' {
                    return Err("string".into());
                }
                *i += 1;
            }
            expect(s, i, b'"')?;
            Ok(Json::S(String::from_utf8(s[st..*i - 1].to_vec()).map_err(|e| e.to_string())?))
        }
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            ws(s, i);
            if s.get(*i) == Some(&b']') {
                *i += 1;
                return Ok(Json::L(v));
            }
            loop {
                v.push(json(s, i)?);
                ws(s, i);
                if s.get(*i) == Some(&b',') {
                    *i += 1;
                } else {
                    expect(s, i, b']')?;
                    return Ok(Json::L(v));
                }
            }
        }
        Some(b'{') => {
            *i += 1;
            let mut o = BTreeMap::new();
            loop {
                let k = match json(s, i)? {
                    Json::S(k) => k,
                    _ => return Err("key".into()),
                };
                expect(s, i, b':')?;
                if o.insert(k, json(s, i)?).is_some() {
                    return Err("duplicate key".into());
                }
                ws(s, i);
                if s.get(*i) == Some(&b',') {
                    *i += 1;
                } else {
                    expect(s, i, b'}')?;
                    return Ok(Json::O(o));
                }
            }
        }
        _ => Err(format!("unexpected input at {}", i)),
    }
}
fn hex(b: &[u8]) -> Json {
    let mut s = String::from("0x");
    for x in b {
        s += &format!("{:02x}", x);
    }
    Json::S(s)
}
fn expected(p: &r::Parsed) -> Json {
    let fs = |v: &[Fe]| Json::L(v.iter().map(|f| hex(&f.bytes())).collect());
    let hs = |v: &[[u8; 32]]| Json::L(v.iter().map(|h| hex(h)).collect());
    let mut o = BTreeMap::new();
    let mut put = |k: &str, v: Json| {
        o.insert(k.to_string(), v);
    };
    put("trace_commitment", hex(&p.trace_root));
    put("constraint_commitment", hex(&p.constraint_root));
    put("trace_oods_values", fs(&p.oods_trace));
    put("constraint_oods_values", fs(&p.oods_constraint));
    put("fri_commitments", hs(&p.fri_roots));
    put("last_layer_coefficients", fs(&p.last));
    put("pow_nonce", hex(&p.nonce.to_be_bytes()));
    put("trace_values", fs(&p.trace_values.concat()));
    put("trace_decommitment", hs(&p.trace_hashes));
    put("constraint_values", fs(&p.constraint_values.concat()));
    put("constraint_decommitment", hs(&p.constraint_hashes));
    put("fri_values", Json::L(p.fri_values.iter().map(|v| fs(v)).collect()));
    put("fri_decommitments", Json::L(p.fri_hashes.iter().map(|v| hs(v)).collect()));
    Json::O(o)
}
fn serialized(s: &Spec, proof: &[u8]) -> Result<(), String> {
    let mut out = String::from("prefix");
    let con = s.constraints();
    let got = guard(|| proof_serialize(&con, &Proof::from_bytes(proof.to_vec()), &mut out)).map_err(|e| format!("panicked: {}", e))?;
    if !out.starts_with("prefix") {
        return Err("the string is not appended to".into());
    }
    let parsed = match r::parse(s, proof) {
        Ok(p) => p,
        Err("too long") => return Ok(()),
        Err(e) => {
            return match got {
                Err(_) => Ok(()),
                Ok(()) => Err(format!("a malformed proof ({}) was serialized", e)),
            }
        }
    };
    got.map_err(|e| format!("not serialized: {:?}", e))?;
    let text = format!("{{{}}}", &out["prefix".len()..]);
    let mut i = 0;
    let j = json(text.as_bytes(), &mut i)?;
    if i != text.len() {
        return Err("more than one object".into());
    }
    let lower = |j: Json| j;
    let (got, want) = (lower(j), expected(&parsed));
    if got == want {
        return Ok(());
    }
    if let (Json::O(g), Json::O(w)) = (&got, &want) {
        for k in w.keys().chain(g.keys()) {
            if g.get(k) != w.get(k) {
                return Err(format!("field {} differs: {:?} instead of {:?}", k, g.get(k), w.get(k)));
            }
        }
    }
    Err("differs".into())
}
fn c13(ck: &mut Ck) {
    let mut items = vec![];
    for name in SYSTEMS {
        for log in 0..=ck.b(4, 5) {
            let n = 1 << log;
            if n < min_n(name) {
                continue;
            }
            let (s, t) = system(name, n, 5);
            for sum in 0..=log {
                for l in layouts(sum) {
                    for (b, q, pow) in [(2, 1, 0), (4, 3, 5), (16, 20, 2)] {
                        let mut s = s.clone();
                        s.blowup = (b as usize).max(s.split());
                        s.queries = q;
                        s.pow = pow;
                        s.layout = l.clone();
                        items.push((s, t.clone()));
                    }
                }
            }
        }
    }
    // larger folding steps
    for log in [5_usize, 6, 7] {
        let (s, t) = system("fib", 1 << log, 5);
        for l in [vec![log], vec![log - 1, 1], vec![1, log - 1], vec![4, log - 4], vec![log - 4, 4]] {
            for (b, q) in [(2, 1), (8, 13)] {
                let mut s = s.clone();
                s.blowup = (b as usize).max(s.split());
                s.queries = q;
                s.pow = 0;
                s.layout = l.clone();
                items.push((s, t.clone()));
            }
        }
    }
    items.extend(large(ck.thorough()));
    ck.par(&items, |ck, (s, t)| {
        ck.case(hs(&s.key()), 13, || s.key(), || {
            // the prover folds by at most 16
            if s.layout.iter().any(|l| *l > 4) {
                return serialized(s, &r::prove(s, t, &Cheat::None).bytes);
            }
            let proof = prove(&s.constraints(), &r::table(t)).map_err(|e| format!("{:?}", e))?;
            serialized(s, proof.as_bytes())
        });
    });
    // damaged proofs
    let picks: Vec<&(Spec, Vec<Vec<Fe>>)> = items.iter().filter(|(s, _)| s.n <= 8 && s.queries <= 3 && hs(&s.key()) % 11 == 0).take(ck.b(20, 60)).collect();
    ck.par(&picks, |ck, (s, t)| {
        let proof = r::prove(s, t, &Cheat::None).bytes;
        for i in 0..proof.len() {
            for mask in [1_u8, 0x80] {
                let mut b = proof.clone();
                b[i] ^= mask;
                ck.case(hw(&[hs(&s.key()), i as u64, mask as u64]), 1, || format!("{} byte {} ^ {}", s.key(), i, mask), || serialized(s, &b));
            }
            ck.case(hw(&[hs(&s.key()), i as u64, 300]), 1, || format!("{} cut to {}", s.key(), i), || serialized(s, &proof[..i]));
        }
        for extra in [1_usize, 31, 32, 33] {
            let mut b = proof.clone();
            b.resize(proof.len() + extra, 7);
            ck.case(hw(&[hs(&s.key()), extra as u64, 400]), 1, || format!("{} extended by {}", s.key(), extra), || serialized(s, &b));
        }
    });
    // large proofs damaged at some places
    let picks: Vec<(Spec, Vec<Vec<Fe>>)> = large(false).into_iter().filter(|(s, _)| s.pow < 15 && s.n < 4096).collect();
    ck.par(&picks, |ck, (s, t)| {
        let tx = r::prove(s, t, &Cheat::None);
        let proof = tx.bytes;
        let mut ends: Vec<usize> = tx.sections.iter().map(|s| s.1).collect();
        ends.push(proof.len());
        ends.dedup();
        for i in spread(ends.len()) {
            let at = ends[i];
            for cut in [at.saturating_sub(1), at, at + 31] {
                if cut < proof.len() {
                    ck.case(hw(&[hs(&s.key()), cut as u64, 500]), 1, || format!("{} cut to {}", s.key(), cut), || serialized(s, &proof[..cut]));
                }
            }
            if at + 32 <= proof.len() {
                for v in [0, 0xff] {
                    let mut b = proof.clone();
                    b[at..at + 32].copy_from_slice(&[v; 32]);
                    ck.case(hw(&[hs(&s.key()), at as u64, 600 + v as u64]), 1, || format!("{} word at {} set to {}", s.key(), at, v), || serialized(s, &b));
                }
            }
        }
    });
}
