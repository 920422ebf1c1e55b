//! C09: component combinators, against a reference layout of the cells of their leaves.
use crate::refstark::{self as r, Spec};
use crate::rf::{bitrev, Fe};
use vcommon::{hs, Ck, Def};
use zkp_primefield::FieldElement;
use zkp_stark::component::{Component, Empty, Fold, Horizontal, Mapped, PolynomialWriter, Test, Vertical};
use zkp_stark::{check_constraints, Constraints, Proof, RationalExpression as RE, TraceTable};

pub const C09: Def = Def {
    prop: "C09",
    level: "model_checking",
    rule: "every combination tree of horizontal, vertical and folding combinators up to depth 2 (thorough 3) over recurrence and empty leaves of 1..=8 rows and 0..=5 columns, leaves to 1024 rows or 130 columns, 1024 repetitions, folding by 8 and chains of up to 9 combinators; the trace table cell by cell against a reference layout, then every cell corrupted and the verdict of check_constraints (and of prove on a part) against the leaves' own semantics, claims and proofs against the reference prover, wrong claims rejected; every write through Mapped and every cell of map_up",
    run: c09,
};

#[derive(Clone, Debug, PartialEq)]
enum Node {
    Test(usize, usize, u64),
    Empty(usize, usize),
    H(Box<Node>, Box<Node>),
    V(Box<Node>, usize),
    F(Box<Node>, usize),
}
#[derive(Clone, Debug, PartialEq)]
enum W {
    One(FieldElement, FieldElement),
    Unit,
    Two(Box<W>, Box<W>),
    Many(Vec<W>),
}
#[derive(Clone, Debug, PartialEq)]
enum C {
    One(FieldElement),
    Unit,
    Two(Box<C>, Box<C>),
    Many(Vec<C>),
}
/// ends the recursion of writer types
struct Dyn<'a>(&'a mut dyn PolynomialWriter);
impl PolynomialWriter for Dyn<'_> {
    fn num_polynomials(&self) -> usize {
        self.0.num_polynomials()
    }
    fn polynomial_size(&self) -> usize {
        self.0.polynomial_size()
    }
    fn write(&mut self, p: usize, l: usize, v: FieldElement) {
        self.0.write(p, l, v)
    }
}
fn fe(v: u64) -> FieldElement {
    Fe::int(v).fe()
}
fn h(a: &Node, b: &Node) -> Horizontal<Node, Node> {
    Horizontal::new(a.clone(), b.clone())
}
impl Component for Node {
    type Claim = C;
    type Witness = W;
    fn claim(&self, w: &W) -> C {
        match (self, w) {
            (Node::Test(a, b, s), W::One(x, y)) => C::One(Test::new(*a, *b, &fe(*s)).claim(&(x.clone(), y.clone()))),
            (Node::Empty(a, b), W::Unit) => {
                Empty::new(*b, *a).claim(&());
                C::Unit
            }
            (Node::H(a, b), W::Two(x, y)) => {
                let (p, q) = h(a, b).claim(&((**x).clone(), (**y).clone()));
                C::Two(Box::new(p), Box::new(q))
            }
            (Node::V(a, k), W::Many(v)) => C::Many(Vertical::new((**a).clone(), *k).claim(v)),
            (Node::F(a, k), w) => Fold::new((**a).clone(), *k).claim(w),
            _ => panic!("witness shape"),
        }
    }
    fn num_polynomials(&self) -> usize {
        match self {
            Node::Test(a, b, s) => Test::new(*a, *b, &fe(*s)).num_polynomials(),
            Node::Empty(a, b) => Empty::new(*b, *a).num_polynomials(),
            Node::H(a, b) => h(a, b).num_polynomials(),
            Node::V(a, k) => Vertical::new((**a).clone(), *k).num_polynomials(),
            Node::F(a, k) => Fold::new((**a).clone(), *k).num_polynomials(),
        }
    }
    fn polynomial_size(&self) -> usize {
        match self {
            Node::Test(a, b, s) => Test::new(*a, *b, &fe(*s)).polynomial_size(),
            Node::Empty(a, b) => Empty::new(*b, *a).polynomial_size(),
            Node::H(a, b) => h(a, b).polynomial_size(),
            Node::V(a, k) => Vertical::new((**a).clone(), *k).polynomial_size(),
            Node::F(a, k) => Fold::new((**a).clone(), *k).polynomial_size(),
        }
    }
    fn constraints(&self, c: &C) -> Vec<RE> {
        match (self, c) {
            (Node::Test(a, b, s), C::One(x)) => Test::new(*a, *b, &fe(*s)).constraints(x),
            (Node::Empty(a, b), C::Unit) => Empty::new(*b, *a).constraints(&()),
            (Node::H(a, b), C::Two(x, y)) => h(a, b).constraints(&((**x).clone(), (**y).clone())),
            (Node::V(a, k), C::Many(v)) => Vertical::new((**a).clone(), *k).constraints(v),
            (Node::F(a, k), c) => Fold::new((**a).clone(), *k).constraints(c),
            _ => panic!("claim shape"),
        }
    }
    fn trace<P: PolynomialWriter>(&self, t: &mut P, w: &W) {
        let mut t = Dyn(t);
        match (self, w) {
            (Node::Test(a, b, s), W::One(x, y)) => Test::new(*a, *b, &fe(*s)).trace(&mut t, &(x.clone(), y.clone())),
            (Node::Empty(a, b), W::Unit) => Empty::new(*b, *a).trace(&mut t, &()),
            (Node::H(a, b), W::Two(x, y)) => h(a, b).trace(&mut t, &((**x).clone(), (**y).clone())),
            (Node::V(a, k), W::Many(v)) => Vertical::new((**a).clone(), *k).trace(&mut t, v),
            (Node::F(a, k), w) => Fold::new((**a).clone(), *k).trace(&mut t, w),
            _ => panic!("witness shape"),
        }
    }
}

// ------------------------------------------------------------------------------------- reference
impl Node {
    /// rows, columns
    fn size(&self) -> (usize, usize) {
        match self {
            Node::Test(a, b, _) | Node::Empty(a, b) => (*a, *b),
            Node::H(a, b) => (a.size().0, a.size().1 + b.size().1),
            Node::V(a, k) => (a.size().0 * k, a.size().1),
            Node::F(a, k) => {
                let (r, c) = a.size();
                (r << k, (c + (1 << k) - 1) >> k)
            }
        }
    }
    /// the leaves with the place (row, column) of each of their cells, cells row by row
    fn leaves(&self, w: &W) -> Vec<(Node, W, Vec<(usize, usize)>)> {
        match (self, w) {
            (Node::Test(a, b, _), _) | (Node::Empty(a, b), _) => {
                vec![(self.clone(), w.clone(), (0..a * b).map(|i| (i / b, i % b)).collect())]
            }
            (Node::H(a, b), W::Two(x, y)) => {
                let mut v = a.leaves(x);
                let off = a.size().1;
                for (n, w, c) in b.leaves(y) {
                    v.push((n, w, c.into_iter().map(|(r, c)| (r, c + off)).collect()));
                }
                v
            }
            (Node::V(a, _), W::Many(ws)) => {
                let rows = a.size().0;
                ws.iter()
                    .enumerate()
                    .flat_map(|(i, w)| a.leaves(w).into_iter().map(move |(n, w, c)| (n, w, c.into_iter().map(|(r, c)| (r + i * rows, c)).collect())))
                    .collect()
            }
            (Node::F(a, k), w) => a
                .leaves(w)
                .into_iter()
                .map(|(n, w, c)| (n, w, c.into_iter().map(|(r, c)| ((r << k) + bitrev(1 << k, c % (1 << k)), c >> k)).collect()))
                .collect(),
            _ => panic!("shape"),
        }
    }
    /// a witness; leaves below a vertical repetition share the claim
    fn witness(&self, next: &mut u64, claim: Option<u64>) -> W {
        *next += 1;
        let v = *next;
        match self {
            Node::Test(..) => W::One(fe(claim.unwrap_or(v * 3)), fe(v * v + 1)),
            Node::Empty(..) => W::Unit,
            Node::H(a, b) => W::Two(Box::new(a.witness(next, claim)), Box::new(b.witness(next, claim))),
            Node::V(a, k) => {
                let c = claim.unwrap_or(v * 5);
                W::Many((0..*k).map(|_| a.witness(next, Some(c))).collect())
            }
            Node::F(a, _) => a.witness(next, claim),
        }
    }
}
fn sequence(seed: u64, w: &W, len: usize) -> Vec<Fe> {
    let (c, x) = match w {
        W::One(c, x) => (Fe::of(c), Fe::of(x)),
        _ => panic!("shape"),
    };
    let mut v = vec![Fe::int(seed), x];
    while v.len() < len {
        let k = v.len();
        v.push(v[k - 2] * v[k - 1] + c);
    }
    v.truncate(len);
    v
}
/// are the values of one leaf what its constraints demand?
fn leaf_ok(n: &Node, w: &W, v: &[Fe]) -> bool {
    match n {
        Node::Empty(..) => true,
        Node::Test(_, _, seed) => {
            let c = match w {
                W::One(c, _) => Fe::of(c),
                _ => panic!("shape"),
            };
            v.first().map_or(true, |x| *x == Fe::int(*seed)) && (2..v.len()).all(|i| v[i] == v[i - 2] * v[i - 1] + c)
        }
        _ => panic!("not a leaf"),
    }
}
fn claim_of(n: &Node, w: &W) -> C {
    match (n, w) {
        (Node::Test(..), W::One(c, _)) => C::One(c.clone()),
        (Node::Empty(..), _) => C::Unit,
        (Node::H(a, b), W::Two(x, y)) => C::Two(Box::new(claim_of(a, x)), Box::new(claim_of(b, y))),
        (Node::V(a, _), W::Many(v)) => C::Many(v.iter().map(|w| claim_of(a, w)).collect()),
        (Node::F(a, _), w) => claim_of(a, w),
        _ => panic!("shape"),
    }
}
/// every claim that differs in one leaf (in all instances of a vertical repetition)
fn wrong_claims(n: &Node, c: &C) -> Vec<(C, bool)> {
    match (n, c) {
        // the claim only matters when some cell is constrained by it
        (Node::Test(a, b, _), C::One(x)) => vec![(C::One(x + fe(1)), a * b >= 3)],
        (_, C::Unit) => vec![],
        (Node::H(m, n), C::Two(a, b)) => wrong_claims(m, a)
            .into_iter()
            .map(|(x, d)| (C::Two(Box::new(x), b.clone()), d))
            .chain(wrong_claims(n, b).into_iter().map(|(x, d)| (C::Two(a.clone(), Box::new(x)), d)))
            .collect(),
        (Node::V(a, _), C::Many(v)) => wrong_claims(a, &v[0]).into_iter().map(|(x, d)| (C::Many(vec![x; v.len()]), d)).collect(),
        (Node::F(a, _), c) => wrong_claims(a, c),
        _ => panic!("shape"),
    }
}
fn label(n: &Node) -> String {
    match n {
        Node::Test(a, b, s) => format!("T{}x{}s{}", a, b, s),
        Node::Empty(a, b) => format!("E{}x{}", a, b),
        Node::H(a, b) => format!("({}|{})", label(a), label(b)),
        Node::V(a, k) => format!("({}^{})", label(a), k),
        Node::F(a, k) => format!("({}/{})", label(a), k),
    }
}

/// combination trees of exactly this depth or less; rows bounded
fn trees(depth: usize, max_cells: usize, thorough: bool) -> Vec<Node> {
    let mut leaves = vec![];
    for rows in [1_usize, 2, 4, 8] {
        for cols in 0..=if thorough { 5 } else { 4 } {
            leaves.push(Node::Test(rows, cols, 3));
        }
        leaves.push(Node::Empty(rows, 2));
    }
    let mut level = leaves.clone();
    for d in 0..depth {
        let mut next = leaves.clone();
        for t in &level {
            for k in [1, 2, 4] {
                next.push(Node::V(Box::new(t.clone()), k));
            }
            for k in 0..=3 {
                next.push(Node::F(Box::new(t.clone()), k));
            }
        }
        for a in &level {
            for b in &level {
                // the second operand of the last level is taken from a thinned out set
                if a.size().0 != b.size().0 {
                    continue;
                }
                if d > 0 && (hs(&label(a)).wrapping_add(hs(&label(b)))) % if thorough { 23 } else { 17 } != 0 {
                    continue;
                }
                let mut b = b.clone();
                if let Node::Test(_, _, s) = &mut b {
                    *s += 4;
                }
                next.push(Node::H(Box::new(a.clone()), Box::new(b)));
            }
        }
        next.retain(|t| t.size().0 * t.size().1 <= max_cells && t.size().0 <= 64);
        level = next;
    }
    level
}

fn c09(ck: &mut Ck) {
    let mut all = trees(ck.b(2, 3), ck.b(48, 64), ck.thorough());
    // taller repetitions, wider leaves and deeper folds
    let t = |r, c| Box::new(Node::Test(r, c, 3));
    for k in [8, 16, 32, 64, 128] {
        for r in [1, 2, 4] {
            for c in [1, 2, 3] {
                all.push(Node::V(t(r, c), k));
                all.push(Node::F(Box::new(Node::V(t(r, c), k)), 1));
                all.push(Node::V(Box::new(Node::F(t(r, c), 1)), k));
                if k <= 16 {
                    all.push(Node::H(Box::new(Node::V(t(r, c), k)), Box::new(Node::V(t(r, 2), k))));
                    all.push(Node::V(Box::new(Node::H(t(r, c), t(r, 2))), k));
                }
            }
        }
    }
    for r in [1, 2, 4] {
        for c in [5, 7, 8, 9, 15, 16, 17, 31, 32, 33] {
            for k in 0..=6 {
                all.push(Node::F(t(r, c), k));
            }
            all.push(Node::H(t(r, c), t(r, c / 2)));
        }
    }
    // large ones
    for (r, c) in [(16, 1), (32, 2), (64, 3), (256, 2), (1024, 1), (4, 65), (2, 130), (64, 17)] {
        all.push(Node::Test(r, c, 3));
        all.push(Node::H(t(r, c), t(r, c / 2 + 1)));
        if r * c <= 300 {
            all.push(Node::V(t(r, c), 4));
            all.push(Node::V(t(r, c), 16));
            all.push(Node::F(Box::new(Node::V(t(r, c), 4)), 2));
        }
        for k in [1, 5, 7, 8] {
            if r << k <= 2048 {
                all.push(Node::F(t(r, c), k));
            }
        }
    }
    all.extend([Node::V(t(1, 1), 256), Node::V(t(2, 1), 256), Node::V(t(1, 3), 512), Node::V(t(1, 1), 1024)]);
    // chains of one combinator and of alternating ones
    for len in [3_usize, 5, 9] {
        let mut hs = Node::Test(4, 1, 3);
        let mut hs2 = Node::Test(4, 1, 3);
        for i in 0..len {
            hs = Node::H(Box::new(hs), Box::new(Node::Test(4, 1 + i % 2, 4 + i as u64)));
            hs2 = Node::H(Box::new(Node::Test(4, 1 + i % 2, 4 + i as u64)), Box::new(hs2));
        }
        all.extend([hs.clone(), hs2.clone(), Node::F(Box::new(hs.clone()), 2), Node::V(Box::new(hs2), 2)]);
        if len <= 9 {
            let (mut v, mut f, mut a) = (Node::Test(1, 2, 3), Node::Test(1, 70, 3), Node::Test(1, 9, 3));
            for i in 0..len {
                v = Node::V(Box::new(v), 2);
                f = Node::F(Box::new(f), 1);
                a = if i % 2 == 0 { Node::F(Box::new(a), 1) } else { Node::V(Box::new(a), 2) };
            }
            all.extend([v, f, a]);
        }
    }
    // parts that do not fit must not be combined
    let (one, two) = (Node::Test(1, 1, 3), Node::Test(2, 1, 3));
    for k in [0_usize, 3, 5, 6, 7, 9, 12] {
        ck.case(vcommon::hw(&[88, k as u64]), 1, || format!("{} repetitions", k), || {
            match vcommon::guard(|| {
                let v = Vertical::new(one.clone(), k);
                let w = vec![W::One(fe(1), fe(2)); k];
                let t = v.trace_table(&w);
                (t.num_rows(), v.constraints(&v.claim(&w)).len())
            }) {
                Ok(r) => Err(format!("accepted: {:?}", r)),
                Err(_) => Ok(()),
            }
        });
    }
    for (a, b, k) in [(&one, &two, 0_u64), (&two, &one, 1)] {
        ck.case(vcommon::hw(&[89, k]), 1, || "parts of different lengths side by side".into(), || {
            match vcommon::guard(|| {
                let v = h(a, b);
                let w = (W::One(fe(1), fe(2)), W::One(fe(1), fe(2)));
                let t = v.trace_table(&w);
                (t.num_rows(), v.constraints(&v.claim(&w)).len())
            }) {
                Ok(r) => Err(format!("accepted: {:?}", r)),
                Err(_) => Ok(()),
            }
        });
    }
    ck.par(&all, |ck, t| {
        let w = t.witness(&mut 0, None);
        let (rows, cols) = t.size();
        let key = label(t);
        let leaves = t.leaves(&w);
        let mut cells = vec![vec![Fe::ZERO; rows]; cols];
        for (n, w, places) in &leaves {
            if let Node::Test(_, _, seed) = n {
                for (v, (r, c)) in sequence(*seed, w, places.len()).into_iter().zip(places) {
                    cells[*c][*r] = v;
                }
            }
        }
        let mut con = None;
        ck.case(hs(&key), 5, || key.clone(), || {
            if (t.polynomial_size(), t.num_polynomials()) != (rows, cols) {
                return Err(format!("size {}x{} instead of {}x{}", t.polynomial_size(), t.num_polynomials(), rows, cols));
            }
            let claim = t.claim(&w);
            if claim != claim_of(t, &w) {
                return Err(format!("claim {:?}", claim));
            }
            let table = t.trace_table(&w);
            for c in 0..cols {
                for r in 0..rows {
                    if Fe::of(&table[(r, c)]) != cells[c][r] {
                        return Err(format!("cell at row {} column {} is {:?}", r, c, table[(r, c)]));
                    }
                }
            }
            if t.trace_generator() != RE::Constant(Fe::root(rows).fe()) {
                return Err("trace generator".into());
            }
            let e = t.constraints(&claim);
            if let Err(e) = t.check(&w) {
                return Err(format!("check failed at {:?}", e));
            }
            con = Some(Constraints::from_expressions((rows, cols), vec![], e).unwrap());
            Ok(())
        });
        let con = match con {
            Some(c) => c,
            None => return,
        };
        // every cell corrupted
        let mut table: TraceTable = t.trace_table(&w);
        let some = |n: usize| -> Vec<usize> {
            if rows * cols > 600 {
                crate::protocol::few(n)
            } else if rows * cols > 200 {
                crate::protocol::spread(n)
            } else {
                (0..n).collect()
            }
        };
        for c in some(cols) {
            for r in some(rows) {
                ck.case(hs(&format!("{} {} {}", key, r, c)), 1, || format!("{} with the cell at row {} column {} changed", key, r, c), || {
                    let old = cells[c][r];
                    let mut ok = true;
                    for (n, w, places) in &leaves {
                        if places.contains(&(r, c)) {
                            let v: Vec<Fe> = places.iter().map(|&(a, b)| cells[b][a] + if (a, b) == (r, c) { Fe::one() } else { Fe::ZERO }).collect();
                            ok &= leaf_ok(n, w, &v);
                        }
                    }
                    table[(r, c)] = (old + Fe::one()).fe();
                    let got = check_constraints(&con, &table);
                    table[(r, c)] = old.fe();
                    if got.is_ok() == ok {
                        Ok(())
                    } else {
                        Err(format!("check returned {:?} but satisfied is {}", got, ok))
                    }
                });
            }
        }
        // proofs
        if con.is_empty() || rows < 2 || hs(&key) % ck.b(7, 3) != 0 {
            return;
        }
        ck.case(hs(&format!("{} proof", key)), 3, || format!("{} proof", key), || {
            let claim = t.claim(&w);
            let proof = t.prove(&w).map_err(|e| format!("prove: {:?}", e))?;
            t.verify(&claim, &proof).map_err(|e| format!("verify: {:?}", e))?;
            let sp = Spec { name: key.clone(), n: rows, cols, seed: vec![], exprs: con.expressions().to_vec(), claims: vec![], blowup: 16, pow: 0, queries: 45, layout: con.fri_layout.clone() };
            if r::prove(&sp, &cells, &r::Cheat::None).bytes != proof.as_bytes() {
                return Err("proof differs from the reference".into());
            }
            for (bad, matters) in wrong_claims(t, &claim) {
                if t.verify(&bad, &proof).is_ok() == matters {
                    return Err(format!("verdict for the claim {:?}", bad));
                }
            }
            let mut b = proof.as_bytes().to_vec();
            let k = b.len() - 1;
            b[k] ^= 1;
            if t.verify(&claim, &Proof::from_bytes(b)).is_ok() {
                return Err("altered proof accepted".into());
            }
            Ok(())
        });
    });
    // map_up and Mapped
    for folds in 0..=5 {
        let f = Fold::new(Node::Test(4, 9, 1), folds);
        for row in 0..8 {
            for col in 0..40 {
                ck.case(vcommon::hw(&[folds as u64, row, col]), 1, || format!("map_up folds={} ({}, {})", folds, row, col), || {
                    let want = (((row as usize) << folds) + bitrev(1 << folds, col as usize % (1 << folds)), col as usize >> folds);
                    let got = f.map_up(row as usize, col as usize);
                    if got == want {
                        Ok(())
                    } else {
                        Err(format!("{:?} instead of {:?}", got, want))
                    }
                });
            }
        }
    }
    for rows in [1_usize, 2, 4] {
        for cols in 1..=4_usize {
            for (i, j) in (0..rows).flat_map(|i| (0..cols).map(move |j| (i, j))) {
                ck.case(vcommon::hw(&[77, rows as u64, cols as u64, i as u64, j as u64]), 1, || format!("write {} {} through a map of {}x{}", i, j, rows, cols), || {
                    let mut t = TraceTable::new(rows * 2, cols + 3);
                    let mut m = Mapped::new(&mut t, cols, rows, |p, l| (p + 1, 2 * l + 1));
                    if (m.num_polynomials(), m.polynomial_size()) != (cols, rows) {
                        return Err("size".into());
                    }
                    m.write(j, i, fe(9));
                    for r in 0..rows * 2 {
                        for c in 0..cols + 3 {
                            let want = if (r, c) == (2 * i + 1, j + 1) { 9 } else { 0 };
                            if t[(r, c)] != fe(want) {
                                return Err(format!("cell {} {}", r, c));
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}
