//! Reference STARK prover and verifier, written from the protocol description in the documentation
//! of `prove` and `verify`.  They share nothing with /repo except the constraint expression type,
//! which is read as data.  The prover can be told to cheat in one step and to continue honestly
//! from there, so that every check of the verifier is the only one that can notice.
use crate::rf::{batch_inv, bitrev, evaluate, horner, interpolate, permuted, powers, Fe};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::keccak::{keccak256, masked};
#[cfg(feature = "prover")]
use zkp_stark::TraceTable;
use zkp_stark::{Constraints, DensePolynomial, RationalExpression as RE};

#[derive(Clone)]
#[cfg_attr(feature = "prover", derive(Debug))]
pub struct Spec {
    pub name: String,
    pub n: usize,
    pub cols: usize,
    pub seed: Vec<u8>,
    pub exprs: Vec<RE>,
    pub claims: Vec<Vec<Fe>>,
    pub blowup: usize,
    pub pow: usize,
    pub queries: usize,
    pub layout: Vec<usize>,
}

pub fn dense(c: &[Fe]) -> DensePolynomial {
    DensePolynomial::new(&c.iter().map(Fe::fe).collect::<Vec<_>>())
}

impl Spec {
    pub fn constraints(&self) -> Constraints {
        let mut c = Constraints::from_expressions((self.n, self.cols), self.seed.clone(), self.exprs.clone()).unwrap();
        c.blowup = self.blowup;
        c.pow_bits = self.pow;
        c.num_queries = self.queries;
        c.fri_layout = self.layout.clone();
        if !self.claims.is_empty() {
            c.add_claim_polynomials(self.claims.iter().map(|p| dense(p)).collect());
        }
        c
    }
    pub fn key(&self) -> String {
        format!(
            "{} n={} blowup={} queries={} pow={} fri={:?} seed={}",
            self.name, self.n, self.blowup, self.queries, self.pow, self.layout, hex::encode(&self.seed)
        )
    }
    pub fn big_n(&self) -> usize {
        self.n * self.blowup
    }
    pub fn degree(&self) -> usize {
        self.exprs
            .iter()
            .map(|e| {
                let (n, d) = degree(e, 0, 1);
                n - d
            })
            .max()
            .unwrap()
    }
    /// number of polynomials the combined constraint polynomial is split into
    pub fn split(&self) -> usize {
        self.degree().next_power_of_two()
    }
    pub fn args(&self) -> Vec<(usize, isize)> {
        let mut s = BTreeSet::new();
        for e in &self.exprs {
            arguments(e, &mut s);
        }
        s.into_iter().collect()
    }
}

#[cfg(feature = "prover")]
pub fn table(cols: &[Vec<Fe>]) -> TraceTable {
    let mut t = TraceTable::new(cols[0].len(), cols.len());
    for (j, c) in cols.iter().enumerate() {
        for (i, v) in c.iter().enumerate() {
            t[(i, j)] = v.fe();
        }
    }
    t
}

fn poly_degree(p: &DensePolynomial) -> usize {
    let c = p.coefficients();
    (0..c.len()).rev().find(|&i| Fe::of(&c[i]) != Fe::ZERO).unwrap_or(0)
}

/// upper bounds for the degree of numerator and denominator
pub fn degree(e: &RE, dx: usize, dt: usize) -> (usize, usize) {
    match e {
        RE::X => (dx, 0),
        RE::Constant(_) => (0, 0),
        RE::Trace(..) => (dt, 0),
        RE::Polynomial(p, a) => {
            let (n, d) = degree(a, dx, dt);
            let k = poly_degree(p);
            (k * n.max(d), k * d)
        }
        RE::ClaimPolynomial(_, k, a, _) => {
            let (n, d) = degree(a, dx, dt);
            (k * n.max(d), k * d)
        }
        RE::Add(a, b) => {
            let (an, ad) = degree(a, dx, dt);
            let (bn, bd) = degree(b, dx, dt);
            ((an + bd).max(bn + ad), ad + bd)
        }
        RE::Neg(a) => degree(a, dx, dt),
        RE::Mul(a, b) => {
            let (an, ad) = degree(a, dx, dt);
            let (bn, bd) = degree(b, dx, dt);
            (an + bn, ad + bd)
        }
        RE::Inv(a) => {
            let (n, d) = degree(a, dx, dt);
            (d, n)
        }
        RE::Exp(a, k) => {
            let (n, d) = degree(a, dx, dt);
            (k * n, k * d)
        }
    }
}
pub fn arguments(e: &RE, s: &mut BTreeSet<(usize, isize)>) {
    match e {
        RE::X | RE::Constant(_) => {}
        RE::Trace(i, j) => {
            s.insert((*i, *j));
        }
        RE::Polynomial(_, a) | RE::ClaimPolynomial(_, _, a, _) | RE::Neg(a) | RE::Inv(a) | RE::Exp(a, _) => {
            arguments(a, s)
        }
        RE::Add(a, b) | RE::Mul(a, b) => {
            arguments(a, s);
            arguments(b, s);
        }
    }
}
/// the expression at many points at once
pub fn eval_vec(e: &RE, xs: &[Fe], tr: &dyn Fn(usize, isize) -> Vec<Fe>, claims: &[Vec<Fe>]) -> Vec<Fe> {
    let r = |a: &RE| eval_vec(a, xs, tr, claims);
    match e {
        RE::X => xs.to_vec(),
        RE::Constant(c) => vec![Fe::of(c); xs.len()],
        RE::Trace(i, j) => tr(*i, *j),
        RE::Polynomial(p, a) => {
            let c: Vec<Fe> = p.coefficients().iter().map(Fe::of).collect();
            r(a).into_iter().map(|x| horner(&c, x)).collect()
        }
        RE::ClaimPolynomial(i, _, a, _) => r(a).into_iter().map(|x| horner(&claims[*i], x)).collect(),
        RE::Add(a, b) => r(a).into_iter().zip(r(b)).map(|(x, y)| x + y).collect(),
        RE::Mul(a, b) => r(a).into_iter().zip(r(b)).map(|(x, y)| x * y).collect(),
        RE::Neg(a) => r(a).into_iter().map(|x| -x).collect(),
        RE::Inv(a) => batch_inv(&r(a)),
        RE::Exp(a, k) => r(a).into_iter().map(|x| x.pow(*k as u64)).collect(),
    }
}
pub fn eval(e: &RE, x: Fe, tr: &dyn Fn(usize, isize) -> Fe, claims: &[Vec<Fe>]) -> Fe {
    eval_vec(e, &[x], &|i, j| vec![tr(i, j)], claims)[0]
}
/// g^offset, offset possibly negative
fn gpow(g: Fe, n: usize, o: isize) -> Fe {
    g.pow(o.rem_euclid(n as isize) as u64)
}

/// Does the trace satisfy every constraint, i.e. is every constraint a polynomial of the degree it
/// announces?  Decided by interpolating it on a coset that is larger than its degree can be.
pub fn satisfied(spec: &Spec, cols: &[Vec<Fe>]) -> bool {
    let n = spec.n;
    let coeffs: Vec<Vec<Fe>> = cols.iter().map(|c| interpolate(c, Fe::one())).collect();
    let g = Fe::root(n);
    for e in &spec.exprs {
        let (num, den) = degree(e, 1, n - 1);
        let m = (num + den + 2).next_power_of_two().max(2 * n);
        let shift = Fe::int(3);
        let xs = powers(shift, Fe::root(m), m);
        let v = eval_vec(e, &xs, &|i, j| evaluate(&coeffs[i], shift * gpow(g, n, j), m), &spec.claims);
        let c = interpolate(&v, shift);
        if c.iter().enumerate().any(|(i, c)| i + den > num && *c != Fe::ZERO) {
            return false;
        }
    }
    true
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Coin {
    digest: [u8; 32],
    counter: u64,
}
impl Coin {
    pub fn new(seed: &[u8]) -> Coin {
        Coin { digest: keccak256(seed), counter: 0 }
    }
    pub fn write(&mut self, data: &[u8]) {
        self.digest = keccak256(&[&self.digest[..], data].concat());
        self.counter = 0;
    }
    fn bytes(&mut self) -> [u8; 32] {
        let r = keccak256(&[&self.digest[..], &[0; 24], &self.counter.to_be_bytes()].concat());
        self.counter += 1;
        r
    }
    pub fn fe(&mut self) -> Fe {
        loop {
            let mut b = self.bytes();
            b[0] &= 0x0f;
            if let Some(f) = Fe::from_bytes(&b) {
                return f;
            }
        }
    }
    pub fn fes(&mut self, n: usize) -> Vec<Fe> {
        (0..n).map(|_| self.fe()).collect()
    }
    pub fn indices(&mut self, num: usize, size: usize) -> Vec<usize> {
        let mut v = vec![];
        while v.len() < num {
            for w in self.bytes().chunks(8) {
                v.push((u64::from_be_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]) as usize) & (size - 1));
            }
        }
        v.truncate(num);
        v.sort_unstable();
        v
    }
    pub fn pow_seed(&self, bits: usize) -> [u8; 32] {
        keccak256(&[&[0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xed], &self.digest[..], &[bits as u8]].concat())
    }
}
pub fn leading_zeros(d: &[u8; 32]) -> usize {
    let mut n = 0;
    for b in d {
        n += b.leading_zeros() as usize;
        if *b != 0 {
            break;
        }
    }
    n
}
pub fn pow_ok(seed: &[u8; 32], nonce: u64, bits: usize) -> bool {
    leading_zeros(&keccak256(&[&seed[..], &nonce.to_be_bytes()].concat())) >= bits
}

// ---------------------------------------------------------------------------------------------
pub type H = [u8; 32];
fn list_hash(el: &[H]) -> H {
    if el.len() == 1 {
        el[0]
    } else {
        masked(&el.concat())
    }
}
pub struct Merkle {
    layers: Vec<Vec<H>>,
    leaves: Vec<Vec<H>>,
}
impl Merkle {
    fn new(leaves: Vec<Vec<H>>) -> Merkle {
        let mut layers = vec![leaves.iter().map(|l| list_hash(l)).collect::<Vec<H>>()];
        while layers.last().unwrap().len() > 1 {
            let l = layers.last().unwrap();
            layers.push(l.chunks(2).map(|p| masked(&p.concat())).collect());
        }
        Merkle { layers, leaves }
    }
    fn root(&self) -> H {
        self.layers.last().unwrap()[0]
    }
    fn open(&self, idx: &[usize]) -> Vec<H> {
        let mut out = vec![];
        let mut cur: BTreeSet<usize> = idx.iter().copied().collect();
        for l in &self.layers[..self.layers.len() - 1] {
            for i in &cur {
                if !cur.contains(&(i ^ 1)) {
                    out.push(l[i ^ 1]);
                }
            }
            cur = cur.into_iter().map(|i| i / 2).collect();
        }
        out
    }
}
pub fn open_len(size: usize, idx: &[usize]) -> usize {
    let mut n = 0;
    let mut cur: BTreeSet<usize> = idx.iter().copied().collect();
    let mut s = size;
    while s > 1 {
        n += cur.iter().filter(|i| !cur.contains(&(*i ^ 1))).count();
        cur = cur.into_iter().map(|i| i / 2).collect();
        s /= 2;
    }
    n
}
fn merkle_ok(size: usize, root: &H, leaves: &[(usize, H)], hashes: &[H]) -> bool {
    let mut cur: BTreeMap<usize, H> = BTreeMap::new();
    for (i, h) in leaves {
        if let Some(o) = cur.insert(*i, *h) {
            if o != *h {
                return false;
            }
        }
    }
    let mut it = hashes.iter();
    let mut s = size;
    while s > 1 {
        let mut next = BTreeMap::new();
        for (i, h) in &cur {
            let sib = match cur.get(&(i ^ 1)) {
                Some(x) => *x,
                None => match it.next() {
                    Some(x) => *x,
                    None => return false,
                },
            };
            let p = if i & 1 == 0 { masked(&[*h, sib].concat()) } else { masked(&[sib, *h].concat()) };
            next.insert(i / 2, p);
        }
        cur = next;
        s /= 2;
    }
    it.next().is_none() && cur.values().all(|h| h == root)
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum Cheat {
    None,
    /// commit to something else than what is opened
    TraceRoot,
    ConstraintRoot,
    FriRoot(usize),
    /// commit to the low-degree extension of a trace polynomial of too high degree
    TraceHigh(usize),
    /// add c * X^j to the i-th constraint polynomial (j may exceed the degree bound)
    ConstraintAdd(usize, usize),
    /// lie about a value at the out-of-domain point
    OodsTrace(usize),
    OodsConstraint(usize),
    /// lie about a trace value and adjust the i-th constraint value such that the equation holds
    OodsFixed(usize, usize),
    /// commit to a FRI layer that is another low-degree polynomial, and go on from that
    FriSwap(usize),
    /// commit to a FRI layer with one changed value, and go on from that
    FriPoint(usize, usize),
    /// as FriPoint, but fold the unchanged layer
    FriPointOnly(usize, usize),
    /// fold with another coefficient
    FriCoefficient(usize),
    /// change a coefficient of the final polynomial
    Last(usize),
    /// add a polynomial that vanishes at all but one coset of the final domain; n-th choice
    LastAgree(u64),
    /// give a valid nonce that is not the smallest
    NonceLarger(usize),
    /// give the n-th invalid nonce
    NonceBad(usize),
    /// give a nonce whose digest has exactly this many leading zeros
    NonceExact(usize),
    /// give this nonce
    Nonce(u64),
    /// answer the i-th query for the neighbour
    QueryNeighbour(usize),
    /// non-canonical encodings of otherwise right values: the value plus the modulus
    NcOodsTrace(usize),
    NcOodsConstraint(usize),
    NcLast(usize),
    NcTrace(usize),
    NcConstraint(usize),
    NcFri(usize),
    /// leave out the last k values at the out-of-domain point and count them as zero
    DropOods(usize),
    /// append further values to the constraint values at the out-of-domain point, such that the
    /// equation holds; the last k of them
    ExtraOods(usize),
    /// adjust the first constraint value such that the equation holds, and give a final polynomial
    /// of as many coefficients as there are points (true), or twice the allowed number
    LongLast(bool),
}

pub struct Tx {
    pub bytes: Vec<u8>,
    pub sections: Vec<(String, usize, usize)>,
}
struct Writer {
    coin: Coin,
    bytes: Vec<u8>,
    sections: Vec<(String, usize, usize)>,
}
impl Writer {
    fn write(&mut self, label: &str, b: &[u8]) {
        let s = self.bytes.len();
        self.bytes.extend_from_slice(b);
        self.coin.write(b);
        self.sections.push((label.to_string(), s, self.bytes.len()));
    }
    fn raw(&mut self, label: &str, b: &[u8]) {
        let s = self.bytes.len();
        self.bytes.extend_from_slice(b);
        self.sections.push((label.to_string(), s, self.bytes.len()));
    }
}
fn enc(v: &Fe, nc: bool) -> H {
    if !nc {
        return v.bytes();
    }
    // value plus modulus, below 2^256
    let mut c = 0_u128;
    let mut l = [0; 4];
    for i in 0..4 {
        c += u128::from(v.0[i]) + u128::from(crate::rf::P[i]);
        l[i] = c as u64;
        c >>= 64;
    }
    Fe(l).bytes()
}
fn lde(coeffs: &[Fe], size: usize) -> Vec<Fe> {
    permuted(&evaluate(coeffs, Fe::int(3), size))
}
fn fold(f: &[Fe], mut c: Fe, times: usize) -> Vec<Fe> {
    // natural order: f[i] is the value at root(len)^i
    let mut f = f.to_vec();
    for _ in 0..times {
        let l = f.len();
        let winv = Fe::root(l).inv();
        let mut x = Fe::one();
        let mut g = Vec::with_capacity(l / 2);
        for i in 0..l / 2 {
            let (a, b) = (f[i], f[i + l / 2]);
            g.push(a + b + c * x * (a - b));
            x *= winv;
        }
        f = g;
        c *= c;
    }
    f
}

pub fn prove(spec: &Spec, cols: &[Vec<Fe>], cheat: &Cheat) -> Tx {
    let (n, big) = (spec.n, spec.big_n());
    let mut w = Writer { coin: Coin::new(&spec.seed), bytes: vec![], sections: vec![] };
    let g = Fe::root(n);
    let garbage: H = keccak256(b"garbage");

    // 1. trace
    let mut tp: Vec<Vec<Fe>> = cols.iter().map(|c| interpolate(c, Fe::one())).collect();
    if let Cheat::TraceHigh(c) = cheat {
        tp[*c].push(Fe::int(7));
    }
    let tl: Vec<Vec<Fe>> = tp.iter().map(|p| lde(p, big)).collect();
    let tree = Merkle::new(
        (0..big)
            .map(|i| tl.iter().enumerate().map(|(c, v)| enc(&v[i], *cheat == Cheat::NcTrace(c))).collect())
            .collect(),
    );
    w.write("trace root", &if *cheat == Cheat::TraceRoot { garbage } else { tree.root() });

    // 2. constraints
    let mut args = spec.args();
    let dropped: Vec<(usize, isize)> = match cheat {
        Cheat::DropOods(k) => args.split_off(args.len().saturating_sub(*k)),
        _ => vec![],
    };
    let coef = w.coin.fes(2 * spec.exprs.len());
    let d = spec.split();
    let m = n * d;
    let shift = Fe::int(3);
    let xs = powers(shift, Fe::root(m), m);
    let target = spec.degree() * n - 1;
    let mut comb = vec![Fe::ZERO; m];
    for (k, e) in spec.exprs.iter().enumerate() {
        let (num, den) = degree(e, 1, n - 1);
        let adj = (target + den - num) as u64;
        let v = eval_vec(
            e,
            &xs,
            &|i, j| {
                if dropped.contains(&(i, j)) {
                    vec![Fe::ZERO; m]
                } else {
                    evaluate(&tp[i], shift * gpow(g, n, j), m)
                }
            },
            &spec.claims,
        );
        for i in 0..m {
            comb[i] += (coef[2 * k] + coef[2 * k + 1] * xs[i].pow(adj)) * v[i];
        }
    }
    let cc = interpolate(&comb, shift);
    let mut ap: Vec<Vec<Fe>> = (0..d).map(|i| (0..n).map(|j| cc[j * d + i]).collect()).collect();
    if let Cheat::ConstraintAdd(i, j) = cheat {
        while ap[*i].len() <= *j {
            ap[*i].push(Fe::ZERO);
        }
        ap[*i][*j] += Fe::int(11);
    }
    let al: Vec<Vec<Fe>> = ap.iter().map(|p| lde(p, big)).collect();
    let ctree = Merkle::new(
        (0..big)
            .map(|i| al.iter().enumerate().map(|(c, v)| enc(&v[i], *cheat == Cheat::NcConstraint(c))).collect())
            .collect(),
    );
    w.write("constraint root", &if *cheat == Cheat::ConstraintRoot { garbage } else { ctree.root() });

    // 3. out-of-domain values
    let z = w.coin.fe();
    let zd = z.pow(d as u64);
    let mut tv: Vec<Fe> = args.iter().map(|(c, o)| horner(&tp[*c], z * gpow(g, n, *o))).collect();
    let mut av: Vec<Fe> = ap.iter().map(|p| horner(p, zd)).collect();
    match cheat {
        Cheat::OodsTrace(i) => tv[*i] += Fe::int(5),
        Cheat::OodsConstraint(i) => av[*i] += Fe::int(5),
        Cheat::OodsFixed(i, j) => {
            if *i < tv.len() {
                tv[*i] += Fe::int(5);
            }
            let want = combined_at(spec, &coef, z, &args, &tv);
            let mut have = Fe::ZERO;
            for (k, v) in av.iter().enumerate() {
                have += z.pow(k as u64) * *v;
            }
            av[*j] += (want - have) * z.pow(*j as u64).inv();
        }
        Cheat::ExtraOods(_) | Cheat::LongLast(_) => {
            let want = combined_at(spec, &coef, z, &args, &tv);
            let mut have = Fe::ZERO;
            for (k, v) in av.iter().enumerate() {
                have += z.pow(k as u64) * *v;
            }
            if let Cheat::ExtraOods(k) = cheat {
                for _ in 1..*k {
                    av.push(Fe::ZERO);
                }
                av.push((want - have) * z.pow(av.len() as u64).inv());
            } else {
                av[0] += want - have;
            }
        }
        _ => {}
    }
    for (i, v) in tv.iter().enumerate() {
        w.write(&format!("oods trace {}", i), &enc(v, *cheat == Cheat::NcOodsTrace(i)));
    }
    for (i, v) in av.iter().enumerate() {
        w.write(&format!("oods constraint {}", i), &enc(v, *cheat == Cheat::NcOodsConstraint(i)));
    }

    // 4. FRI; the first layer is the quotient, value by value
    let oc = w.coin.fes(args.len() + av.len());
    let dom = powers(shift, Fe::root(big), big); // natural order
    let mut layer = vec![Fe::ZERO; big];
    let nat = |v: &Vec<Fe>| permuted(v);
    let tl_nat: Vec<Vec<Fe>> = tl.iter().map(nat).collect();
    let al_nat: Vec<Vec<Fe>> = al.iter().map(nat).collect();
    for (k, (c, o)) in args.iter().enumerate() {
        let pt = z * gpow(g, n, *o);
        let inv = batch_inv(&dom.iter().map(|x| *x - pt).collect::<Vec<_>>());
        for i in 0..big {
            layer[i] += oc[k] * (tl_nat[*c][i] - tv[k]) * inv[i];
        }
    }
    let inv = batch_inv(&dom.iter().map(|x| *x - zd).collect::<Vec<_>>());
    for k in 0..d {
        for i in 0..big {
            layer[i] += oc[args.len() + k] * (al_nat[k][i] - av[k]) * inv[i];
        }
    }
    let mut trees = vec![];
    for (k, r) in spec.layout.iter().enumerate() {
        let keep = layer.clone();
        match cheat {
            Cheat::FriSwap(l) if *l == k => {
                let deg = layer.len() / spec.blowup;
                layer = evaluate(&(0..deg as u64).map(|i| Fe::int(i + 3)).collect::<Vec<_>>(), Fe::one(), layer.len());
            }
            Cheat::FriPoint(l, i) | Cheat::FriPointOnly(l, i) if *l == k => {
                let i = i % layer.len();
                layer[i] += Fe::one();
            }
            _ => {}
        }
        let perm = permuted(&layer);
        let nc = *cheat == Cheat::NcFri(k);
        let t = Merkle::new(perm.chunks(1 << r).map(|c| c.iter().map(|v| enc(v, nc)).collect()).collect());
        w.write(&format!("fri root {}", k), &if *cheat == Cheat::FriRoot(k) { garbage } else { t.root() });
        let mut c = w.coin.fe();
        if *cheat == Cheat::FriCoefficient(k) {
            c += Fe::one();
        }
        if let Cheat::FriPointOnly(l, _) = cheat {
            if *l == k {
                layer = keep;
            }
        }
        layer = fold(&layer, c, *r);
        trees.push(t);
    }
    let ncoef = layer.len() / spec.blowup;
    let mut last = interpolate(&layer, Fe::one());
    match cheat {
        Cheat::LongLast(true) => {}
        Cheat::LongLast(false) => last.truncate(2 * ncoef),
        _ => last.truncate(ncoef),
    }
    match cheat {
        Cheat::Last(i) => last[*i] += Fe::one(),
        Cheat::LastAgree(s) => {
            // c * product over the first ncoef-1 points (in a rotated order) of (X - x)
            let root = Fe::root(layer.len());
            let mut q = vec![Fe::int(*s + 1)];
            for k in 0..ncoef - 1 {
                let x = root.pow(((k as u64) * (*s % 7 + 1) * 2 + *s) % layer.len() as u64);
                let mut r = vec![Fe::ZERO; q.len() + 1];
                for (i, v) in q.iter().enumerate() {
                    r[i + 1] += *v;
                    r[i] += -(*v * x);
                }
                q = r;
            }
            for (i, v) in q.iter().enumerate() {
                last[i] += *v;
            }
        }
        _ => {}
    }
    let mut lb = vec![];
    for (i, v) in last.iter().enumerate() {
        lb.extend_from_slice(&enc(v, *cheat == Cheat::NcLast(i)));
    }
    w.write("last layer", &lb);

    // 5. proof of work
    let ps = w.coin.pow_seed(spec.pow);
    let nonce = match cheat {
        Cheat::NonceLarger(k) => (0..).filter(|x| pow_ok(&ps, *x, spec.pow)).nth(*k + 1).unwrap(),
        Cheat::NonceBad(k) => (0..).filter(|x| !pow_ok(&ps, *x, spec.pow)).nth(*k).unwrap(),
        Cheat::NonceExact(k) => (0..).find(|x| pow_ok(&ps, *x, *k) && !pow_ok(&ps, *x, *k + 1)).unwrap(),
        Cheat::Nonce(x) => *x,
        _ => (0..).find(|x| pow_ok(&ps, *x, spec.pow)).unwrap(),
    };
    w.write("nonce", &nonce.to_be_bytes());

    // 6. openings
    let mut q = w.coin.indices(spec.queries, big);
    if let Cheat::QueryNeighbour(i) = cheat {
        q[*i] ^= 1;
        q.sort_unstable();
    }
    for (name, t) in [("trace", &tree), ("constraint", &ctree)] {
        for (k, i) in q.iter().enumerate() {
            for (j, v) in t.leaves[*i].iter().enumerate() {
                w.raw(&format!("{} value {}.{}", name, k, j), v);
            }
        }
        for (k, h) in t.open(&q).iter().enumerate() {
            w.raw(&format!("{} hash {}", name, k), h);
        }
    }
    let mut prev = q;
    for (k, t) in trees.iter().enumerate() {
        let cs = 1 << spec.layout[k];
        let mut next: Vec<usize> = prev.iter().map(|i| i / cs).collect();
        next.dedup();
        for i in &next {
            for j in 0..cs {
                if !prev.contains(&(i * cs + j)) {
                    w.raw(&format!("fri {} value {}", k, i * cs + j), &t.leaves[*i][j]);
                }
            }
        }
        for (j, h) in t.open(&next).iter().enumerate() {
            w.raw(&format!("fri {} hash {}", k, j), h);
        }
        prev = next;
    }
    Tx { bytes: w.bytes, sections: w.sections }
}

pub fn combined_at(spec: &Spec, coef: &[Fe], z: Fe, args: &[(usize, isize)], tv: &[Fe]) -> Fe {
    let map: BTreeMap<(usize, isize), Fe> = args.iter().copied().zip(tv.iter().copied()).collect();
    let target = spec.degree() * spec.n - 1;
    let mut r = Fe::ZERO;
    for (k, e) in spec.exprs.iter().enumerate() {
        let (num, den) = degree(e, 1, spec.n - 1);
        let adj = (target + den - num) as u64;
        r += (coef[2 * k] + coef[2 * k + 1] * z.pow(adj)) * eval(e, z, &|i, j| map[&(i, j)], &spec.claims);
    }
    r
}

// ---------------------------------------------------------------------------------------------
struct Reader<'a> {
    coin: Coin,
    b: &'a [u8],
    pos: usize,
}
type V<T> = Result<T, &'static str>;
impl Reader<'_> {
    fn take(&mut self, n: usize) -> V<&[u8]> {
        if self.b.len() - self.pos < n {
            return Err("too short");
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    fn hash(&mut self) -> V<H> {
        let mut h = [0; 32];
        h.copy_from_slice(self.take(32)?);
        Ok(h)
    }
    fn fe(&mut self) -> V<Fe> {
        Fe::from_bytes(self.take(32)?).ok_or("not canonical")
    }
    fn fes(&mut self, n: usize) -> V<Vec<Fe>> {
        (0..n).map(|_| self.fe()).collect()
    }
    fn hashes(&mut self, n: usize) -> V<Vec<H>> {
        (0..n).map(|_| self.hash()).collect()
    }
}

/// Everything that is in a proof, as read by the reference verifier
#[derive(Debug, Default, Clone)]
pub struct Parsed {
    pub trace_root: H,
    pub constraint_root: H,
    pub oods_trace: Vec<Fe>,
    pub oods_constraint: Vec<Fe>,
    pub fri_roots: Vec<H>,
    pub last: Vec<Fe>,
    pub nonce: u64,
    pub queries: Vec<usize>,
    pub trace_values: Vec<Vec<Fe>>,
    pub trace_hashes: Vec<H>,
    pub constraint_values: Vec<Vec<Fe>>,
    pub constraint_hashes: Vec<H>,
    pub fri_values: Vec<Vec<Fe>>,
    pub fri_hashes: Vec<Vec<H>>,
    coef: Vec<Fe>,
    z: Fe0,
    oc: Vec<Fe>,
    fc: Vec<Fe>,
    pow_ok: bool,
}
#[derive(Debug, Clone, Copy)]
struct Fe0(Fe);
impl Default for Fe0 {
    fn default() -> Self {
        Fe0(Fe::ZERO)
    }
}

pub fn parse(spec: &Spec, proof: &[u8]) -> V<Parsed> {
    let mut p = Parsed::default();
    let mut r = Reader { coin: Coin::new(&spec.seed), b: proof, pos: 0 };
    let d = spec.split();
    let big = spec.big_n();
    p.trace_root = r.hash()?;
    r.coin.write(&p.trace_root.clone());
    p.coef = r.coin.fes(2 * spec.exprs.len());
    p.constraint_root = r.hash()?;
    r.coin.write(&p.constraint_root.clone());
    p.z = Fe0(r.coin.fe());
    for _ in 0..spec.args().len() {
        let f = r.fe()?;
        r.coin.write(&f.bytes());
        p.oods_trace.push(f);
    }
    for _ in 0..d {
        let f = r.fe()?;
        r.coin.write(&f.bytes());
        p.oods_constraint.push(f);
    }
    p.oc = r.coin.fes(p.oods_trace.len() + d);
    let mut size = big;
    for k in &spec.layout {
        let h = r.hash()?;
        r.coin.write(&h);
        p.fri_roots.push(h);
        let c = r.coin.fe();
        p.fc.push(c);
        size >>= k;
    }
    p.last = r.fes(size / spec.blowup)?;
    let lb: Vec<u8> = p.last.iter().flat_map(|f| f.bytes()).collect();
    r.coin.write(&lb);
    let ps = r.coin.pow_seed(spec.pow);
    let mut nb = [0; 8];
    nb.copy_from_slice(r.take(8)?);
    p.nonce = u64::from_be_bytes(nb);
    p.pow_ok = pow_ok(&ps, p.nonce, spec.pow);
    r.coin.write(&nb);
    p.queries = r.coin.indices(spec.queries, big);
    for _ in 0..spec.queries {
        let v = r.fes(spec.cols)?;
        p.trace_values.push(v);
    }
    p.trace_hashes = r.hashes(open_len(big, &p.queries))?;
    for _ in 0..spec.queries {
        let v = r.fes(d)?;
        p.constraint_values.push(v);
    }
    p.constraint_hashes = r.hashes(open_len(big, &p.queries))?;
    let mut prev = p.queries.clone();
    let mut size = big;
    for k in &spec.layout {
        let cs = 1 << k;
        size >>= k;
        let mut next: Vec<usize> = prev.iter().map(|i| i / cs).collect();
        next.dedup();
        let known: BTreeSet<usize> = prev.iter().copied().collect();
        p.fri_values.push(r.fes(next.len() * cs - known.len())?);
        p.fri_hashes.push(r.hashes(open_len(size, &next))?);
        prev = next;
    }
    if r.pos != proof.len() {
        return Err("too long");
    }
    Ok(p)
}

/// The reference verifier
pub fn verify(spec: &Spec, proof: &[u8]) -> V<()> {
    let p = parse(spec, proof)?;
    if !p.pow_ok {
        return Err("pow");
    }
    let d = spec.split();
    let big = spec.big_n();
    let args = spec.args();
    let z = p.z.0;
    let zd = z.pow(d as u64);
    let g = Fe::root(spec.n);
    // openings
    let leaves = |v: &Vec<Vec<Fe>>| -> Vec<(usize, H)> {
        p.queries.iter().zip(v).map(|(i, l)| (*i, list_hash(&l.iter().map(Fe::bytes).collect::<Vec<_>>()))).collect()
    };
    if !merkle_ok(big, &p.trace_root, &leaves(&p.trace_values), &p.trace_hashes) {
        return Err("trace opening");
    }
    if !merkle_ok(big, &p.constraint_root, &leaves(&p.constraint_values), &p.constraint_hashes) {
        return Err("constraint opening");
    }
    // out-of-domain equation
    let mut rhs = Fe::ZERO;
    for (i, v) in p.oods_constraint.iter().enumerate() {
        rhs += z.pow(i as u64) * *v;
    }
    if combined_at(spec, &p.coef, z, &args, &p.oods_trace) != rhs {
        return Err("oods");
    }
    // first layer
    let root = Fe::root(big);
    let mut vals: BTreeMap<usize, Fe> = BTreeMap::new();
    for (k, i) in p.queries.iter().enumerate() {
        let x = Fe::int(3) * root.pow(bitrev(big, *i) as u64);
        let mut dens: Vec<Fe> = args.iter().map(|(_, o)| x - z * gpow(g, spec.n, *o)).collect();
        dens.push(x - zd);
        let inv = batch_inv(&dens);
        let mut v = Fe::ZERO;
        for (a, (c, _)) in args.iter().enumerate() {
            v += p.oc[a] * (p.trace_values[k][*c] - p.oods_trace[a]) * inv[a];
        }
        for a in 0..d {
            v += p.oc[args.len() + a] * (p.constraint_values[k][a] - p.oods_constraint[a]) * inv[args.len()];
        }
        vals.insert(*i, v);
    }
    // layers
    let mut size = big;
    for (k, r) in spec.layout.iter().enumerate() {
        let cs = 1_usize << r;
        let idx: BTreeSet<usize> = vals.keys().map(|i| i / cs).collect();
        let mut it = p.fri_values[k].iter();
        let mut lv = vec![];
        let mut next = BTreeMap::new();
        let root = Fe::root(size);
        for i in idx {
            let mut coset = vec![];
            for j in 0..cs {
                coset.push(match vals.get(&(i * cs + j)) {
                    Some(v) => *v,
                    None => *it.next().unwrap(),
                });
            }
            lv.push((i, list_hash(&coset.iter().map(Fe::bytes).collect::<Vec<_>>())));
            // interpolation in one go: element j of the coset is the value at x_j; fold pairs
            let mut c = p.fc[k];
            let mut len = size;
            let mut cur: Vec<(Fe, Fe)> =
                (0..cs).map(|j| (root.pow(bitrev(len, i * cs + j) as u64), coset[j])).collect();
            while cur.len() > 1 {
                cur = cur
                    .chunks(2)
                    .map(|p| {
                        let (x, a) = p[0];
                        let (y, b) = p[1];
                        assert!(x + y == Fe::ZERO);
                        (x * x, a + b + c * x.inv() * (a - b))
                    })
                    .collect();
                c *= c;
                len /= 2;
            }
            next.insert(i, cur[0].1);
        }
        size /= cs;
        if !merkle_ok(size, &p.fri_roots[k], &lv, &p.fri_hashes[k]) {
            return Err("fri opening");
        }
        vals = next;
    }
    let root = Fe::root(size);
    for (i, v) in &vals {
        if horner(&p.last, root.pow(bitrev(size, *i) as u64)) != *v {
            return Err("last layer");
        }
    }
    Ok(())
}
