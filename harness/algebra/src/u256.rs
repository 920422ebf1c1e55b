//! C18-C21: U256 against schoolbook naturals.
use num_traits::{FromPrimitive, Inv, MulAdd, MulAddAssign, Pow, ToPrimitive};
use std::cmp::Ordering;
use vcommon::big::Big;
use vcommon::{hs, hw, Ck, Def};
use zkp_u256::*;

pub fn u(l: [u64; 4]) -> U256 {
    U256::from_limbs(l)
}
pub fn b(x: &U256) -> Big {
    Big::from_limbs(x.as_limbs())
}
pub fn k(x: &U256) -> String {
    let l = x.as_limbs();
    format!("{:016x}_{:016x}_{:016x}_{:016x}", l[3], l[2], l[1], l[0])
}
macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return Err(format!("{}: got {:?}, want {:?}", $what, g, w));
        }
    }};
}
pub(crate) use eq;

/// All 4-limb numbers over a limb alphabet.
pub fn grid(limbs: &[u64]) -> Vec<U256> {
    let mut v = vec![];
    for &a in limbs {
        for &b in limbs {
            for &c in limbs {
                for &d in limbs {
                    v.push(u([a, b, c, d]));
                }
            }
        }
    }
    v
}
const M: u64 = u64::MAX;
const T: u64 = 1 << 63;
pub const L4: [u64; 4] = [0, 1, T, M];
pub const L5: [u64; 5] = [0, 1, T, M, M - 1];
pub const L6: [u64; 6] = [0, 1, T, M, M - 1, 0xffff_ffff];
pub const L7: [u64; 7] = [0, 1, T, M, M - 1, 0xffff_ffff, T - 1];

/// grid + every 2^i, 2^i-1, 2^i+1 and their complements + "pseudo random" multi-digit patterns
pub fn alphabet(limbs: &[u64]) -> Vec<U256> {
    let mut v = grid(limbs);
    for i in 0..256 {
        let p = Big::pow2(i);
        for x in [p.clone(), p.add(&Big::one()), Big::pow2(256).sub(&p)] {
            v.push(u(x.low4()));
        }
        if i > 1 {
            v.push(u(p.sub(&Big::one()).low4()));
        }
    }
    v.push(u([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x8796_a5b4_c3d2_e1f0]));
    v.sort();
    v.dedup();
    v
}
/// smaller: all 2^i neighbours only
pub fn pow2_alphabet() -> Vec<U256> {
    let mut v = vec![];
    for i in 0..256 {
        let p = Big::pow2(i);
        v.push(u(p.low4()));
        v.push(u(p.sub(&Big::one()).low4()));
        v.push(u(p.add(&Big::one()).low4()));
    }
    v.sort();
    v.dedup();
    v
}

pub const C18: Def = Def {
    prop: "C18",
    level: "model_checking",
    rule: "every ordered pair (a,b) of U256 values whose limbs range over a corner alphabet (0,1,2^63,2^64-1,2^64-2,...), plus every pair of 2^i/2^i-1/2^i+1 neighbours, put through every ring operation and compared with schoolbook naturals mod 2^256; every u64 multiplier corner; every short exponent; sum/product of every short list over a small alphabet",
    run: run18,
};

fn pair18(ck: &mut Ck, x: &U256, y: &U256) {
    let st = hw(&[hw(x.as_limbs()), hw(y.as_limbs()), 18]);
    ck.case(st, 22, || format!("ring a={} b={}", k(x), k(y)), || {
        let (bx, by) = (b(x), b(y));
        let two256 = Big::pow2(256);
        // addition
        let s = bx.add(&by);
        let w = u(s.low4());
        let carry = !s.lt(&two256);
        eq!("add", x + y, w.clone());
        eq!("add owned", x.clone() + y.clone(), w.clone());
        let mut t = x.clone();
        t += y;
        eq!("add_assign", t, w.clone());
        eq!("add_inline", x.add_inline(y), w.clone());
        let (lo, c) = x.add_full(y);
        eq!("add_full lo", lo, w);
        eq!("add_full carry", u64::from(c.clone()), u64::from(carry));
        // subtraction
        let borrow = bx.lt(&by);
        let w = u(bx.add(&two256).sub(&by).low4());
        eq!("sub", x - y, w.clone());
        eq!("sub owned", x.clone() - y.clone(), w.clone());
        let mut t = x.clone();
        t -= y;
        eq!("sub_assign", t, w.clone());
        eq!("sub_inline", x.sub_inline(y), w.clone());
        let (lo, c) = x.sub_full(y);
        eq!("sub_full lo", lo, w.clone());
        // borrow is reported as a non-zero marker
        eq!("sub_full borrow", c != 0, borrow);
        let mut t = y.clone();
        t.sub_from_assign(x);
        eq!("sub_from_assign", t, w.clone());
        let mut t = y.clone();
        t.sub_from_assign_inline(x);
        eq!("sub_from_assign_inline", t, w);
        // negation
        let w = u(two256.sub(&bx).low4());
        eq!("neg", -x, w.clone());
        eq!("neg owned", -(x.clone()), w.clone());
        eq!("neg_inline", x.neg_inline(), w);
        // multiplication
        let p = bx.mul(&by);
        let (wl, wh) = (u(p.low4()), u(p.shr(256).low4()));
        eq!("mul", x * y, wl.clone());
        eq!("mul owned", x.clone() * y.clone(), wl.clone());
        let mut t = x.clone();
        t *= y;
        eq!("mul_assign", t, wl.clone());
        eq!("mul_inline", x.mul_inline(y), wl.clone());
        eq!("mul_full", x.mul_full(y), (wl.clone(), wh.clone()));
        eq!("mul_full_inline", x.mul_full_inline(y), (wl.clone(), wh));
        // u64 operand
        let q = y.limb(0);
        let p = bx.mul(&Big::from_u64(q));
        let wl = u(p.low4());
        eq!("mul u64", x * q, wl.clone());
        eq!("mul u64 owned", x.clone() * q, wl.clone());
        eq!("u64 mul", q * x, wl.clone());
        eq!("u64 mul owned", q * x.clone(), wl.clone());
        let mut t = x.clone();
        t *= q;
        eq!("mul_assign u64", t, wl.clone());
        eq!("mul_full u64", MulFullInline::<u64>::mul_full(x, q), (wl, p.shr(256).low4()[0]));
        // multiply-add
        let w = u(bx.mul(&by).add(&by).low4());
        eq!("mul_add", MulAdd::mul_add(x, y, y), w.clone());
        let mut t = x.clone();
        t.mul_add_assign(y, y);
        eq!("mul_add_assign", t, w);
        // order
        eq!("cmp", x.cmp(y), bx.cmp(&by));
        eq!("partial_cmp", x.partial_cmp(y), Some(bx.cmp(&by)));
        eq!("eq", x == y, bx.cmp(&by) == Ordering::Equal);
        Ok(())
    });
}

fn run18(ck: &mut Ck) {
    let a = alphabet(if ck.quick() { &L5 } else { &L7 });
    let g = grid(if ck.quick() { &L5 } else { &L6 });
    let pw = pow2_alphabet();
    // unary
    ck.par(&a, |ck, x| {
        ck.case(hw(&[hw(x.as_limbs()), 1]), 6, || format!("square a={}", k(x)), || {
            let bx = b(x);
            let p = bx.mul(&bx);
            let (lo, hi) = (u(p.low4()), u(p.shr(256).low4()));
            eq!("square", x.square(), lo.clone());
            eq!("square_inline", x.square_inline(), lo.clone());
            let mut t = x.clone();
            t.square_assign();
            eq!("square_assign", t, lo.clone());
            eq!("square_full", x.square_full(), (lo.clone(), hi.clone()));
            eq!("square_full_inline", x.square_full_inline(), (lo, hi));
            eq!("is_zero", x.is_zero(), bx.is_zero());
            eq!("is_one", x.is_one(), bx == Big::one());
            Ok(())
        });
        for e in [0_u64, 1, 2, 3, 4, 5, 7, 8, 63, 64, 65, 255, 256, 1 << 32, T, M] {
            ck.case(hw(&[hw(x.as_limbs()), e, 2]), 1, || format!("pow a={} e={}", k(x), e), || {
                let want = b(x).powmod(&Big::from_u64(e), &Big::pow2(256));
                eq!("pow", x.pow(e), u(want.low4()));
                Ok(())
            });
        }
    });
    ck.par(&g, |ck, x| {
        for y in &g {
            pair18(ck, x, y);
        }
    });
    ck.par(&pw, |ck, x| {
        for (i, y) in pw.iter().enumerate() {
            // quick: every third exponent, all three neighbours
            if ck.quick() && (i / 3) % 3 != 0 {
                continue;
            }
            pair18(ck, x, y);
        }
    });
    // sums and products of every list of length <= 3 over a small alphabet (and the empty list)
    let al: Vec<U256> = vec![u([0; 4]), u([1, 0, 0, 0]), u([2, 0, 0, 0]), u([M; 4]), u([M, M, 0, T]), u([0, 0, 0, T])];
    let mut lists: Vec<Vec<U256>> = vec![vec![]];
    let mut cur: Vec<Vec<U256>> = vec![vec![]];
    for _ in 0..ck.b(3, 5) {
        let mut nx = vec![];
        for l in &cur {
            for x in &al {
                let mut l2 = l.clone();
                l2.push(x.clone());
                nx.push(l2);
            }
        }
        lists.extend(nx.iter().cloned());
        cur = nx;
    }
    for l in &lists {
        let key = || format!("fold {:?}", l.iter().map(k).collect::<Vec<_>>());
        ck.case(hs(&key()), 2, key, || {
            let mut s = Big::zero();
            let mut p = Big::one();
            for x in l {
                s = s.add(&b(x));
                p = p.mul(&b(x)).low_bits(256);
            }
            eq!("sum", l.iter().cloned().sum::<U256>(), u(s.low4()));
            eq!("product", l.iter().cloned().product::<U256>(), u(p.low4()));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------

pub const C19: Def = Def {
    prop: "C19",
    level: "model_checking",
    rule: "every (numerator, divisor) over the limb-corner grid plus divisors/dividends built so that quotient digits are extreme (q*d+r for q,d,r over corner sets), every modulus/operand triple over a smaller grid for mulmod, every Euclid trajectory (continued fraction) of bounded length over corner quotients for gcd / extended gcd / modular inverse, compared with bit-at-a-time long division and textbook Euclid",
    run: run19,
};

fn div_case(ck: &mut Ck, x: &U256, y: &U256) {
    let st = hw(&[hw(x.as_limbs()), hw(y.as_limbs()), 19]);
    ck.case(st, 4, || format!("div a={} b={}", k(x), k(y)), || {
        if y.is_zero() {
            eq!("div_rem by zero", x.div_rem(y), None);
            eq!("div_rem u64 zero", x.div_rem(0_u64), None);
            return Ok(());
        }
        let (q, r) = b(x).divrem(&b(y));
        let (q, r) = (u(q.low4()), u(r.low4()));
        eq!("div_rem", x.div_rem(y), Some((q.clone(), r.clone())));
        eq!("div", x / y, q.clone());
        eq!("rem", x % y, r.clone());
        let mut t = x.clone();
        t /= y;
        eq!("div_assign", t, q);
        let mut t = x.clone();
        t %= y;
        eq!("rem_assign", t, r);
        let d = y.limb(0);
        if d != 0 {
            let (q, r) = b(x).divrem(&Big::from_u64(d));
            eq!("div_rem u64", x.div_rem(d), Some((u(q.low4()), r.low4()[0])));
        }
        Ok(())
    });
}

fn mulmod_case(ck: &mut Ck, x: &U256, y: &U256, m: &U256) {
    if m.is_zero() {
        return;
    }
    let st = hw(&[hw(x.as_limbs()), hw(y.as_limbs()), hw(m.as_limbs()), 20]);
    ck.case(st, 1, || format!("mulmod a={} b={} m={}", k(x), k(y), k(m)), || {
        let w = b(x).mulmod(&b(y), &b(m));
        eq!("mulmod", x.mulmod(y, m), u(w.low4()));
        Ok(())
    });
}

fn gcd_case(ck: &mut Ck, x: &U256, y: &U256) {
    let st = hw(&[hw(x.as_limbs()), hw(y.as_limbs()), 21]);
    ck.case(st, 4, || format!("gcd a={} b={}", k(x), k(y)), || {
        let (bx, by) = (b(x), b(y));
        let g = bx.gcd(&by);
        eq!("gcd", U256::gcd(x, y), u(g.low4()));
        if !bx.is_zero() && !by.is_zero() {
            let (gg, ca, cb, sign) = U256::gcd_extended(x, y);
            eq!("gcd_extended gcd", gg, u(g.low4()));
            // even: g = ca*a - cb*b ; odd: g = cb*b - ca*a
            let (l, r) = if sign { (ca.clone(), cb.clone()) } else { (cb.clone(), ca.clone()) };
            let (l, r) = if sign { (b(&l).mul(&bx), b(&r).mul(&by)) } else { (b(&l).mul(&by), b(&r).mul(&bx)) };
            if l.lt(&r) || l.sub(&r) != g {
                return Err(format!("gcd_extended: {} {} {} does not satisfy Bezout", k(&ca), k(&cb), sign));
            }
        }
        // modular inverse, modulus > 1
        if Big::one().lt(&by) {
            let inv = x.inv_mod(y);
            match inv {
                None => {
                    if g == Big::one() {
                        return Err("inv_mod: None although coprime".into());
                    }
                }
                Some(i) => {
                    if g != Big::one() {
                        return Err(format!("inv_mod: Some({}) although not coprime", k(&i)));
                    }
                    eq!("inv_mod reduced", b(&i).lt(&by), true);
                    eq!("inv_mod", b(&i).mulmod(&bx, &by), Big::one());
                }
            }
        }
        Ok(())
    });
}

fn run19(ck: &mut Ck) {
    let g = grid(if ck.quick() { &L5 } else { &L7 });
    let g4 = grid(&L4);
    let pw = pow2_alphabet();
    ck.par(&g, |ck, y| {
        for x in &g {
            div_case(ck, x, y);
        }
    });
    // numerators constructed as q*d + r so that every quotient digit pattern occurs
    let qs = grid(if ck.quick() { &[0, 1, M] } else { &L4 });
    ck.par(&g, |ck, d| {
        if d.is_zero() {
            return;
        }
        let bd = b(d);
        for q in &qs {
            let p = b(q).mul(&bd);
            for r in [Big::zero(), Big::one(), bd.sub(&Big::one())] {
                let n = p.add(&r);
                if n.bits() <= 256 && r.lt(&bd) {
                    div_case(ck, &u(n.low4()), d);
                    // one below an exact multiple: the estimate-too-high path
                    if !n.is_zero() {
                        div_case(ck, &u(n.sub(&Big::one()).low4()), d);
                    }
                }
            }
        }
    });
    ck.par(&pw, |ck, x| {
        for (i, y) in pw.iter().enumerate() {
            if ck.quick() && (i / 3) % 4 != 0 {
                continue;
            }
            div_case(ck, x, y);
            gcd_case(ck, x, y);
        }
    });
    // mulmod
    let mm: Vec<U256> = if ck.quick() { grid(&[0, 1, M]) } else { g4.clone() };
    let mo: Vec<U256> = {
        let mut v = grid(&L4);
        v.extend([u([M - 58, M, M, M]), u([1, 0, 0, 0x0800_0000_0000_0011])]);
        v
    };
    ck.par(&mo, |ck, m| {
        for x in &mm {
            for y in &mm {
                if x <= y || ck.thorough() {
                    mulmod_case(ck, x, y, m);
                }
            }
        }
    });
    // gcd on the grid
    let gg = grid(if ck.quick() { &L4 } else { &L5 });
    ck.par(&gg, |ck, x| {
        for y in &gg {
            gcd_case(ck, x, y);
        }
    });
    // Every Euclid trajectory: quotient sequences over a corner alphabet, grown until the pair
    // no longer fits in 256 bits, times a common factor.
    let quot: Vec<Big> = vec![
        Big::one(),
        Big::from_u64(2),
        Big::from_u64(3),
        Big::from_u64(1 << 31),
        Big::from_u64(1 << 32),
        Big::from_u64(T),
        Big::from_u64(M),
        Big::pow2(64),
        Big::pow2(100),
    ];
    let depth = ck.b(4, 6);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut cur = seqs.clone();
    for _ in 0..depth {
        let mut nx = vec![];
        for s in &cur {
            for q in 0..quot.len() {
                let mut t = s.clone();
                t.push(q);
                nx.push(t);
            }
        }
        seqs.extend(nx.iter().cloned());
        cur = nx;
    }
    // each prefix is repeated periodically until 256 bits are full: long trajectories too
    ck.par(&seqs, |ck, s| {
        for common in [Big::one(), Big::from_u64(6), Big::pow2(65)] {
            for periodic in [false, true] {
                if s.is_empty() && periodic {
                    continue;
                }
                let mut a = common.clone();
                let mut c = Big::zero();
                let mut last = None;
                let mut i = 0;
                loop {
                    if !periodic && i >= s.len() {
                        break;
                    }
                    let q = &quot[s[i % s.len()]];
                    let n = q.mul(&a).add(&c);
                    if n.bits() > 256 {
                        break;
                    }
                    c = a;
                    a = n;
                    i += 1;
                    last = Some(());
                }
                if last.is_some() {
                    let (x, y) = (u(a.low4()), u(c.low4()));
                    gcd_case(ck, &x, &y);
                    gcd_case(ck, &y, &x);
                }
            }
        }
    });
    // long trajectories with one or two special quotients at every position (the places where a 64-bit prefix
    // no longer determines the next quotient)
    let base: Vec<Vec<u64>> = vec![
        vec![1],
        vec![2],
        vec![3],
        vec![1, 2],
        vec![1, 1, 2, 1, 3],
        vec![7, 1, 1],
        (0..40_u64).map(|i| [1, 1, 2, 1, 3, 1, 1, 4, 1, 2, 6, 1, 11][(i * i * 7 + i) as usize % 13]).collect(),
        (0..37_u64).map(|i| [2, 1, 1, 1, 5, 1, 2, 1, 1, 3, 21][(i * i * 5 + 3 * i) as usize % 11]).collect(),
    ];
    let mut special: Vec<Vec<u64>> = vec![];
    for q in [2, 3, 4, 5, 8, 15, 16, 17, 18, 19, 20, 21, 100, 1 << 10, (1 << 16) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, T, M] {
        special.extend([vec![q], vec![1, q], vec![q, 1], vec![1, q, 1], vec![q, q]]);
    }
    let jobs: Vec<(usize, usize)> = (0..base.len()).flat_map(|i| (0..special.len()).map(move |j| (i, j))).collect();
    ck.par(&jobs, |ck, (i, j)| {
        for at in 0..ck.b(190, 370) {
            let (mut a, mut c) = (Big::one(), Big::zero());
            let mut n = 0;
            let mut reached = false;
            loop {
                let q = if n >= at && n < at + special[*j].len() {
                    reached = n + 1 == at + special[*j].len();
                    special[*j][n - at]
                } else {
                    base[*i][n % base[*i].len()]
                };
                let next = Big::from_u64(q).mul(&a).add(&c);
                if next.bits() > 256 {
                    break;
                }
                c = a;
                a = next;
                n += 1;
            }
            if !reached && n < at {
                break;
            }
            gcd_case(ck, &u(a.low4()), &u(c.low4()));
            gcd_case(ck, &u(c.low4()), &u(a.low4()));
        }
    });
    // Fibonacci neighbours: the longest trajectories there are
    let mut f = vec![Big::one(), Big::one()];
    while f.last().unwrap().bits() <= 256 {
        let n = f[f.len() - 1].add(&f[f.len() - 2]);
        f.push(n);
    }
    f.pop();
    for i in 1..f.len() {
        for j in i.saturating_sub(3)..i {
            gcd_case(ck, &u(f[i].low4()), &u(f[j].low4()));
        }
    }
    // inverse modulo 2^256
    let a = alphabet(&L5);
    ck.par(&a, |ck, x| {
        ck.case(hw(&[hw(x.as_limbs()), 22]), 1, || format!("inv a={}", k(x)), || {
            match x.inv() {
                None => eq!("inv None only for even", b(x).bit(0), false),
                Some(i) => eq!("inv", b(&i).mul(&b(x)).low_bits(256), Big::one()),
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------------------------------------

pub const C20: Def = Def {
    prop: "C20",
    level: "model_checking",
    rule: "every value of the limb-corner alphabet x every shift amount 0..=300 (value and assign forms), every bit index 0..=300, popcounts/leading/trailing zeros, and/or/xor/not on every grid pair, every conversion from and to the primitive integers at all corner values of each type",
    run: run20,
};

fn run20(ck: &mut Ck) {
    let a = alphabet(if ck.quick() { &L5 } else { &L7 });
    let g = grid(if ck.quick() { &L5 } else { &L6 });
    ck.par(&a, |ck, x| {
        for s in (0..=300_usize).chain([511, 512, 1023, 1 << 20]) {
            ck.case(hw(&[hw(x.as_limbs()), s as u64, 3]), 5, || format!("shift a={} n={}", k(x), s), || {
                let bx = b(x);
                let l = if s >= 256 { Big::zero() } else { bx.shl(s).low_bits(256) };
                let r = if s >= 256 { Big::zero() } else { bx.shr(s) };
                eq!("shl", x.clone() << s, u(l.low4()));
                let mut t = x.clone();
                t <<= s;
                eq!("shl_assign", t, u(l.low4()));
                eq!("shr", x.clone() >> s, u(r.low4()));
                let mut t = x.clone();
                t >>= s;
                eq!("shr_assign", t, u(r.low4()));
                eq!("bit", x.bit(s), s < 256 && bx.bit(s));
                Ok(())
            });
        }
        ck.case(hw(&[hw(x.as_limbs()), 4]), 20, || format!("bits/convert a={}", k(x)), || {
            let bx = b(x);
            let ones = (0..256).filter(|i| bx.bit(*i)).count();
            eq!("count_ones", x.count_ones(), ones);
            eq!("count_zeros", x.count_zeros(), 256 - ones);
            eq!("leading_zeros", x.leading_zeros(), 256 - bx.bits());
            eq!("trailing_zeros", x.trailing_zeros(), (0..256).find(|i| bx.bit(*i)).unwrap_or(256));
            eq!("bits", x.bits(), bx.bits());
            eq!("msb", x.most_significant_bit(), bx.bits().checked_sub(1));
            eq!("num_bits", U256::num_bits(), 256);
            eq!("not", !x.clone(), u(Big::pow2(256).sub(&Big::one()).sub(&bx).low4()));
            let l = *x.as_limbs();
            for i in 0..4 {
                eq!("limb", x.limb(i), l[i]);
                let mut t = x.clone();
                t.set_limb(i, 0xdead);
                let mut l2 = l;
                l2[i] = 0xdead;
                eq!("set_limb", *t.as_limbs(), l2);
            }
            eq!("as_u8", x.as_u8(), l[0] as u8);
            eq!("as_u16", x.as_u16(), l[0] as u16);
            eq!("as_u32", x.as_u32(), l[0] as u32);
            eq!("as_u64", x.as_u64(), l[0]);
            eq!("as_usize", x.as_usize(), l[0] as usize);
            eq!("as_i8", x.as_i8(), l[0] as i8);
            eq!("as_i16", x.as_i16(), l[0] as i16);
            eq!("as_i32", x.as_i32(), l[0] as i32);
            eq!("as_i64", x.as_i64(), l[0] as i64);
            eq!("as_isize", x.as_isize(), l[0] as isize);
            let w128 = u128::from(l[0]) | u128::from(l[1]) << 64;
            eq!("as_u128", x.as_u128(), w128);
            eq!("as_i128", x.as_i128(), w128 as i128);
            let fits = l[2] == 0 && l[3] == 0;
            eq!("to_u128", x.to_u128(), if fits { Some(w128) } else { None });
            eq!("to_i128", x.to_i128(), if fits && w128 >> 127 == 0 { Some(w128 as i128) } else { None });
            eq!("to_u64", x.to_u64(), if bx.bits() <= 64 { Some(l[0]) } else { None });
            eq!("to_i64", x.to_i64(), if bx.bits() <= 63 { Some(l[0] as i64) } else { None });
            eq!("to_u8", x.to_u8(), if bx.bits() <= 8 { Some(l[0] as u8) } else { None });
            eq!("to_usize", x.to_usize(), if bx.bits() <= 64 { Some(l[0] as usize) } else { None });
            let lo = &*x & 0xffff_0000_ffff_0001_u64;
            eq!("and u64", lo, l[0] & 0xffff_0000_ffff_0001);
            let be = x.to_bytes_be();
            eq!("to_bytes_be", be, bx.be32());
            eq!("from_bytes_be", U256::from_bytes_be(&be), x.clone());
            Ok(())
        });
    });
    ck.par(&g, |ck, x| {
        for y in &g {
            ck.case(hw(&[hw(x.as_limbs()), hw(y.as_limbs()), 5]), 6, || format!("bitwise a={} b={}", k(x), k(y)), || {
                let (p, q) = (x.as_limbs(), y.as_limbs());
                let f = |h: fn(u64, u64) -> u64| u([h(p[0], q[0]), h(p[1], q[1]), h(p[2], q[2]), h(p[3], q[3])]);
                eq!("and", x & y, f(|a, b| a & b));
                eq!("or", x | y, f(|a, b| a | b));
                eq!("xor", x ^ y, f(|a, b| a ^ b));
                let mut t = x.clone();
                t &= y;
                eq!("and_assign", t, f(|a, b| a & b));
                let mut t = x.clone();
                t |= y;
                eq!("or_assign", t, f(|a, b| a | b));
                let mut t = x.clone();
                t ^= y;
                eq!("xor_assign", t, f(|a, b| a ^ b));
                Ok(())
            });
        }
    });
    // conversions from primitives: every 8-bit value, every corner of wider types
    let two256 = Big::pow2(256);
    let signed = |v: i128| -> U256 {
        if v >= 0 {
            u(Big::from_u128(v as u128).low4())
        } else {
            u(two256.sub(&Big::from_u128(v.unsigned_abs())).low4())
        }
    };
    macro_rules! conv {
        ($t:ty, $vals:expr) => {
            for v in $vals {
                let v: $t = v;
                let want = signed(v as i128);
                ck.case(hs(&format!("{}{}", stringify!($t), v)), 1, || format!("from {} {}", stringify!($t), v), || {
                    eq!("from", U256::from(v), want.clone());
                    Ok(())
                });
            }
        };
    }
    conv!(u8, 0..=u8::MAX);
    conv!(i8, i8::MIN..=i8::MAX);
    conv!(u16, 0..=u16::MAX);
    conv!(i16, i16::MIN..=i16::MAX);
    let mut c64: Vec<u64> = vec![];
    for i in 0..64 {
        for d in [-1_i64, 0, 1] {
            c64.push((1_u64 << i).wrapping_add(d as u64));
        }
    }
    c64.push(0);
    c64.push(M);
    conv!(u32, c64.iter().map(|x| *x as u32));
    conv!(i32, c64.iter().map(|x| *x as i32).chain([i32::MIN, i32::MAX]));
    conv!(u64, c64.iter().copied());
    conv!(i64, c64.iter().map(|x| *x as i64).chain([i64::MIN, i64::MAX]));
    conv!(usize, c64.iter().map(|x| *x as usize));
    conv!(isize, c64.iter().map(|x| *x as isize).chain([isize::MIN, isize::MAX]));
    for h in &c64 {
        for l in &c64 {
            let v = u128::from(*h) << 64 | u128::from(*l);
            ck.case(hs(&format!("u128{}", v)), 2, || format!("from u128/i128 {:x}", v), || {
                eq!("from u128", U256::from(v), u([*l, *h, 0, 0]));
                eq!("from i128", U256::from(v as i128), signed(v as i128));
                Ok(())
            });
        }
    }
    for v in [true, false] {
        ck.case(hs(&format!("bool{}", v)), 1, || format!("from bool {}", v), || {
            eq!("from bool", U256::from(v), u([v as u64, 0, 0, 0]));
            Ok(())
        });
    }
    for v in &c64 {
        ck.case(hs(&format!("fp{}", v)), 2, || format!("FromPrimitive {}", v), || {
            eq!("from_u64", U256::from_u64(*v), Some(u([*v, 0, 0, 0])));
            eq!("from_i64", U256::from_i64(*v as i64), Some(signed(i128::from(*v as i64))));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------

pub const C21: Def = Def {
    prop: "C21",
    level: "model_checking",
    rule: "decimal parser: every string of length <= 4 (quick) / 5 (thorough) over {digits, sign, space, letter, NUL, 2-byte char} plus every decimal in a window around every power of ten, around 2^256 and around every multiple of (2^256)/10 boundary; decimal printer, hex, JSON, bincode and SCALE encodings: every corner value, all checked for round trip and exact text against schoolbook conversion",
    run: run21,
};

fn dec_model(s: &str) -> Result<[u64; 4], &'static str> {
    if s.is_empty() {
        return Err("empty");
    }
    if s.chars().any(|c| !c.is_ascii_digit()) {
        return Err("digit");
    }
    Big::from_dec(s).limbs4().ok_or("overflow")
}

fn dec_case(ck: &mut Ck, s: &str) {
    let mut out = "";
    ck.case(hs(s), 1, || format!("from_decimal_str {:?}", s), || {
        let got = U256::from_decimal_str(s).ok().map(|x| *x.as_limbs());
        let want = dec_model(s);
        out = match want {
            Ok(_) => "accepted",
            Err(e) => e,
        };
        eq!("from_decimal_str", got, want.ok());
        Ok(())
    });
    if !out.is_empty() {
        ck.outcome(out);
    }
}

fn run21(ck: &mut Ck) {
    // all short strings
    let alpha: Vec<&str> = vec!["0", "1", "2", "9", "+", "-", " ", "a", "x", "_", "\u{0}", "é"];
    let mut cur: Vec<String> = vec![String::new()];
    let mut all = cur.clone();
    for _ in 0..ck.b(4, 5) {
        let mut nx = vec![];
        for s in &cur {
            for c in &alpha {
                nx.push(format!("{}{}", s, c));
            }
        }
        all.extend(nx.iter().cloned());
        cur = nx;
    }
    ck.par(&all, |ck, s| dec_case(ck, s));
    // windows around the boundaries
    let two256 = Big::pow2(256);
    let mut centres: Vec<Big> = vec![two256.clone()];
    for m in 1..=20_u64 {
        centres.push(two256.mul(&Big::from_u64(m)));
        centres.push(two256.mul(&Big::from_u64(m)).divrem(&Big::from_u64(10)).0);
    }
    let mut p10 = Big::one();
    for _ in 0..85 {
        centres.push(p10.clone());
        p10 = p10.mul(&Big::from_u64(10));
    }
    let w = ck.b(40_u64, 400);
    ck.par(&centres, |ck, c| {
        for d in 0..=2 * w {
            let n = c.add(&Big::from_u64(d));
            if n.lt(&Big::from_u64(w)) {
                continue;
            }
            let s = n.sub(&Big::from_u64(w)).dec();
            dec_case(ck, &s);
            dec_case(ck, &format!("000{}", s));
            dec_case(ck, &format!("{}0", s));
        }
    });
    // round trips
    let a = alphabet(if ck.quick() { &L5 } else { &L7 });
    ck.par(&a, |ck, x| {
        ck.case(hw(&[hw(x.as_limbs()), 6]), 8, || format!("encodings a={}", k(x)), || {
            let bx = b(x);
            let dec = bx.dec();
            eq!("to_decimal_string", x.to_decimal_string(), dec.clone());
            eq!("from_decimal_str", U256::from_decimal_str(&dec).ok(), Some(x.clone()));
            let hex: String = bx.be32().iter().map(|b| format!("{:02x}", b)).collect();
            eq!("to_hex_string", x.to_hex_string(), format!("0x{}", hex));
            eq!("from_hex_str", U256::from_hex_str(&hex), x.clone());
            eq!("from_hex_str 0x", U256::from_hex_str(&format!("0x{}", hex)), x.clone());
            eq!("from_hex_str upper", U256::from_hex_str(&hex.to_uppercase()), x.clone());
            let short = hex.trim_start_matches('0');
            eq!("from_hex_str short", U256::from_hex_str(short), x.clone());
            eq!("display", format!("{}", x), hex.clone());
            eq!("debug", format!("{:?}", x), format!("u256h!(\"{}\")", hex));
            let js = serde_json::to_string(x).map_err(|e| e.to_string())?;
            eq!("json", js.clone(), format!("\"0x{}\"", hex));
            eq!("json back", serde_json::from_str::<U256>(&js).ok(), Some(x.clone()));
            let bc = bincode::serialize(x).map_err(|e| e.to_string())?;
            eq!("bincode", bc.clone(), bx.be32().to_vec());
            eq!("bincode back", bincode::deserialize::<U256>(&bc).ok(), Some(x.clone()));
            use parity_scale_codec::{Decode, Encode};
            let sc = x.encode();
            eq!("scale len", sc.len(), 32);
            eq!("scale back", U256::decode(&mut &sc[..]).ok(), Some(x.clone()));
            for n in 0..32 {
                eq!("scale truncated", U256::decode(&mut &sc[..n]).is_err(), true);
                eq!("bincode truncated", bincode::deserialize::<U256>(&bc[..n]).is_err(), true);
            }
            Ok(())
        });
    });
}
