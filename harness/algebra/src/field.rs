//! C22-C24, C31: prime fields and the FFT against integer arithmetic modulo p.
use crate::fields::*;
use crate::u256::{b, eq, grid, u};
use num_traits::ToPrimitive;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vcommon::big::Big;
use vcommon::{guard, hs, hw, Ck, Def};
use zkp_elliptic_curve::Order;
use zkp_primefield::fft::{fft_vec_recursive, get_twiddles, permute, permute_index, radix_sqrt, small, transpose_square_stretch};
use zkp_primefield::geometric_series::{geometric_series, root_series};
use zkp_primefield::{
    invert_batch, invert_batch_src_dst, AddInline, Fft, FieldElement, Inv, MulInline, NegInline, One, Parameters, Pow, PrimeField,
    Root, SquareInline, SquareRoot, SubInline, Zero,
};
use zkp_u256::{to_montgomery_const, Binary, Montgomery, MontgomeryParameters, U256};

pub type Proth = <FieldElement as ProthOf>::P;
pub trait ProthOf {
    type P;
}
impl<P: Parameters> ProthOf for PrimeField<P> {
    type P = P;
}

fn kx(x: &Big) -> String {
    x.hex()
}
fn canon<P: Parameters<UInt = U256>>(what: &str, x: &PrimeField<P>, want: &Big) -> Result<(), String> {
    if !x.as_montgomery().lt_(&P::MODULUS) {
        return Err(format!("{}: internal value not below the modulus", what));
    }
    let got = b(&x.to_uint());
    if got.cmp(want) != std::cmp::Ordering::Equal {
        return Err(format!("{}: got {}, want {}", what, got.hex(), want.hex()));
    }
    Ok(())
}
trait Lt {
    fn lt_(&self, o: &Self) -> bool;
}
impl Lt for U256 {
    fn lt_(&self, o: &Self) -> bool {
        b(self).lt(&b(o))
    }
}
fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// (element, its integer value) with the element built from a plain integer
fn el<P: Parameters<UInt = U256>>(v: &Big) -> PrimeField<P> {
    PrimeField::<P>::from_uint(&u(v.low4()))
}

/// Values of a field at which carries and reductions can go either way.
fn corners<P: Parameters<UInt = U256>>(small: bool) -> Vec<(PrimeField<P>, Big)> {
    let p = b(&P::MODULUS);
    let m = u64::MAX;
    let pl = *P::MODULUS.as_limbs();
    let mut vals: Vec<Big> = vec![];
    let tops = [0, 1, pl[3] / 2, pl[3].wrapping_sub(1), pl[3]];
    let ls: &[u64] = if small { &[0, 1, m] } else { &[0, 1, 1 << 63, m] };
    for &t in &tops {
        for &x in ls {
            for &y in ls {
                for &z in ls {
                    vals.push(Big::from_limbs(&[z, y, x, t]));
                }
            }
        }
    }
    for d in 1..=4 {
        vals.push(p.sub(&Big::from_u64(d)));
        vals.push(Big::from_u64(d));
        vals.push(p.shr(1).add(&Big::from_u64(d)));
    }
    vals.push(p.shr(1));
    vals.push(Big::from_limbs(&[0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x0396_a5b4_c3d2_e1f0]));
    vals.retain(|v| v.lt(&p));
    let rinv = {
        // R^-1 mod p by Fermat
        let r = Big::pow2(256).rem(&p);
        r.powmod(&p.sub(&Big::from_u64(2)), &p)
    };
    let mut out: Vec<(PrimeField<P>, Big)> = vec![];
    for v in &vals {
        out.push((el::<P>(v), v.clone()));
        // the same pattern as the internal representation
        out.push((PrimeField::from_montgomery(u(v.low4())), v.mulmod(&rinv, &p)));
    }
    out.sort_by(|a, b| a.1.cmp(&b.1));
    out.dedup_by(|a, b| a.1.cmp(&b.1) == std::cmp::Ordering::Equal);
    out
}

fn pair<P: Parameters<UInt = U256> + Debug>(
    ck: &mut Ck,
    name: &str,
    p: &Big,
    (x, bx): &(PrimeField<P>, Big),
    (y, by): &(PrimeField<P>, Big),
) {
    let st = hw(&[hs(name), hw(&bx.low4()), hw(&by.low4())]);
    ck.case(st, 24, || format!("{} a={} b={}", name, kx(bx), kx(by)), || {
        let s = bx.addmod(by, p);
        canon("a+b", &(x + y), &s)?;
        canon("a+b owned", &(x.clone() + y.clone()), &s)?;
        canon("&a+b", &(x + y.clone()), &s)?;
        canon("a+&b", &(x.clone() + y), &s)?;
        let mut t = x.clone();
        t += y;
        canon("a+=b", &t, &s)?;
        canon("add_inline", &x.add_inline(y), &s)?;
        let d = bx.submod(by, p);
        canon("a-b", &(x - y), &d)?;
        canon("a-b owned", &(x.clone() - y.clone()), &d)?;
        canon("&a-b", &(x - y.clone()), &d)?;
        canon("a-&b", &(x.clone() - y), &d)?;
        let mut t = x.clone();
        t -= y;
        canon("a-=b", &t, &d)?;
        canon("sub_inline", &x.sub_inline(y), &d)?;
        let m = bx.mulmod(by, p);
        canon("a*b", &(x * y), &m)?;
        canon("a*b owned", &(x.clone() * y.clone()), &m)?;
        canon("&a*b", &(x * y.clone()), &m)?;
        canon("a*&b", &(x.clone() * y), &m)?;
        let mut t = x.clone();
        t *= y;
        canon("a*=b", &t, &m)?;
        canon("mul_inline", &x.mul_inline(y), &m)?;
        eq!("eq", x == y, bx.cmp(by) == std::cmp::Ordering::Equal);
        if x == y {
            eq!("hash", hash_of(x), hash_of(y));
        }
        canon("sum", &[x.clone(), y.clone(), x.clone()].iter().sum(), &s.addmod(bx, p))?;
        canon("product", &[x.clone(), y.clone(), x.clone()].iter().product(), &m.mulmod(bx, p))?;
        canon("sum owned", &vec![x.clone(), y.clone()].into_iter().sum(), &s)?;
        canon("product owned", &vec![x.clone(), y.clone()].into_iter().product(), &m)?;
        Ok(())
    });
}

fn unary<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str, p: &Big, (x, bx): &(PrimeField<P>, Big)) {
    ck.case(hw(&[hs(name), hw(&bx.low4())]), 16, || format!("{} unary a={}", name, kx(bx)), || {
        canon("value", x, bx)?;
        let n = if bx.is_zero() { Big::zero() } else { p.sub(bx) };
        canon("-a", &(-x), &n)?;
        canon("-a owned", &(-x.clone()), &n)?;
        let mut t = x.clone();
        t.neg_assign();
        canon("neg_assign", &t, &n)?;
        canon("double", &x.double(), &bx.addmod(bx, p))?;
        canon("triple", &x.triple(), &bx.addmod(bx, p).addmod(bx, p))?;
        let sq = bx.mulmod(bx, p);
        canon("square", &x.square(), &sq)?;
        let mut t = x.clone();
        t.square_assign();
        canon("square_assign", &t, &sq)?;
        eq!("is_zero", x.is_zero(), bx.is_zero());
        eq!("is_one", x.is_one(), bx.cmp(&Big::one()) == std::cmp::Ordering::Equal);
        canon("clone", &x.clone(), bx)?;
        canon("round trip", &PrimeField::<P>::from_uint(&x.to_uint()), bx)?;
        canon("montgomery round trip", &PrimeField::<P>::from_montgomery(x.as_montgomery().clone()), bx)?;
        eq!("U256::from", b(&U256::from(x)).hex(), bx.hex());
        eq!("U256::from owned", b(&U256::from(x.clone())).hex(), bx.hex());
        canon("zero", &PrimeField::<P>::zero(), &Big::zero())?;
        canon("default", &PrimeField::<P>::default(), &Big::zero())?;
        canon("one", &PrimeField::<P>::one(), &Big::one())?;
        eq!("order", b(&PrimeField::<P>::order()).hex(), p.sub(&Big::one()).hex());
        eq!("modulus", b(&PrimeField::<P>::modulus()).hex(), p.hex());
        Ok(())
    });
}

fn all_of<P: Parameters<UInt = U256>>() -> Vec<(PrimeField<P>, Big)> {
    let p = P::MODULUS.limb(0);
    (0..p).map(|i| (el::<P>(&Big::from_u64(i)), Big::from_u64(i))).collect()
}

fn field22<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str, vals: Vec<(PrimeField<P>, Big)>) {
    let p = b(&P::MODULUS);
    ck.par(&vals, |ck, x| {
        unary(ck, name, &p, x);
        for y in &vals {
            pair(ck, name, &p, x, y);
        }
    });
    // reduction of arbitrary 256-bit integers
    let m = u64::MAX;
    let mut g = grid(&[0, 1, m, 1 << 63, 0x0800_0000_0000_0011]);
    for k in 1..40_u64 {
        for d in 0..3_u64 {
            let v = p.mul(&Big::from_u64(k)).add(&Big::from_u64(d)).sub(&Big::one());
            if v.bits() <= 256 {
                g.push(u(v.low4()));
            }
        }
    }
    // the largest multiples of p below 2^256
    let (q, _) = Big::pow2(256).sub(&Big::one()).divrem(&p);
    for k in 0..4_u64 {
        if Big::from_u64(k).lt(&q) {
            let v = q.sub(&Big::from_u64(k)).mul(&p);
            g.push(u(v.low4()));
            g.push(u(v.sub(&Big::one()).low4()));
            if v.add(&Big::one()).bits() <= 256 {
                g.push(u(v.add(&Big::one()).low4()));
            }
        }
    }
    ck.par(&g, |ck, x| {
        ck.case(hw(&[hs(name), hw(x.as_limbs()), 1]), 2, || format!("{} reduce {}", name, b(x).hex()), || {
            canon("from_uint_reduce", &PrimeField::<P>::from_uint_reduce(x), &b(x).rem(&p))?;
            canon("From<U256>", &PrimeField::<P>::from(x.clone()), &b(x).rem(&p))
        });
    });
}

/// The parameters of a field as they are passed to the integer type.
struct Mont<P>(std::marker::PhantomData<P>);
impl<P: Parameters<UInt = U256>> MontgomeryParameters for Mont<P> {
    type UInt = U256;
    const M64: u64 = P::M64;
    const MODULUS: U256 = P::MODULUS;
    const R1: U256 = P::R1;
    const R2: U256 = P::R2;
    const R3: U256 = P::R3;
}

/// Montgomery reduction and multiplication of the integer type itself.
fn mont22<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str) {
    let p = b(&P::MODULUS);
    let m = u64::MAX;
    let r = Big::pow2(256).rem(&p);
    let rinv = r.powmod(&p.sub(&Big::from_u64(2)), &p);
    let tops = [0, 1, P::MODULUS.limb(3) / 2, P::MODULUS.limb(3).wrapping_sub(1), P::MODULUS.limb(3)];
    let mut his: Vec<U256> = vec![];
    for t in tops {
        for x in grid(&[0, 1, m]) {
            if x.limb(3) == 0 {
                his.push(U256::from_limbs([x.limb(0), x.limb(1), x.limb(2), t]));
            }
        }
    }
    for d in 1..4 {
        his.push(u(p.sub(&Big::from_u64(d)).low4()));
    }
    his.retain(|x| b(x).lt(&p));
    his.sort_by(|x, y| b(x).cmp(&b(y)));
    his.dedup();
    let mut los = grid(&[0, 1, m]);
    los.extend(grid(&[2, 1 << 63]));
    for k in 0..4 {
        for d in 0..3 {
            let v = p.mul(&Big::from_u64(k)).add(&Big::from_u64(d)).add(&p).sub(&Big::one());
            if v.bits() <= 256 {
                los.push(u(v.low4()));
            }
        }
    }
    ck.par(&his, |ck, hi| {
        let bh = b(hi);
        for lo in &los {
            let bl = b(lo);
            ck.case(hw(&[hs(name), hw(hi.as_limbs()), hw(lo.as_limbs()), 7]), 2, || format!("{} redc lo={} hi={}", name, bl.hex(), bh.hex()), || {
                let want = bh.mulmod(&r, &p).addmod(&bl.rem(&p), &p).mulmod(&rinv, &p).hex();
                eq!("redc", b(&U256::redc::<Mont<P>>(lo, hi)).hex(), want.clone());
                eq!("redc_inline", b(&U256::redc_inline::<Mont<P>>(lo, hi)).hex(), want);
                Ok(())
            });
        }
        ck.case(hw(&[hs(name), hw(hi.as_limbs()), 8]), 8, || format!("{} montgomery x={}", name, bh.hex()), || {
            let to = bh.mulmod(&r, &p).hex();
            eq!("to_montgomery", b(&hi.to_montgomery::<Mont<P>>()).hex(), to.clone());
            eq!("to_montgomery_const", b(&to_montgomery_const(hi, &P::MODULUS, P::M64, &P::R2)).hex(), to);
            eq!("from_montgomery", b(&hi.from_montgomery::<Mont<P>>()).hex(), bh.mulmod(&rinv, &p).hex());
            eq!("square_redc", b(&hi.square_redc::<Mont<P>>()).hex(), bh.mulmod(&bh, &p).mulmod(&rinv, &p).hex());
            match hi.inv_redc::<Mont<P>>() {
                None => eq!("inverse exists", bh.is_zero(), true),
                Some(i) => {
                    eq!("inverse below modulus", b(&i).lt(&p), true);
                    eq!("x * x^-1", b(&i).mulmod(&bh, &p).mulmod(&rinv, &p).hex(), r.hex());
                }
            }
            eq!("reduce_1", b(&hi.reduce_1::<Mont<P>>()).hex(), bh.hex());
            let above = bh.add(&p);
            if above.bits() <= 256 {
                eq!("reduce_1 above", b(&u(above.low4()).reduce_1::<Mont<P>>()).hex(), bh.hex());
            }
            Ok(())
        });
        for y in &his {
            let by = b(y);
            ck.case(hw(&[hs(name), hw(hi.as_limbs()), hw(y.as_limbs()), 9]), 2, || format!("{} montgomery x={} y={}", name, bh.hex(), by.hex()), || {
                let xy = bh.mulmod(&by, &p);
                eq!("mul_redc", b(&hi.mul_redc::<Mont<P>>(y)).hex(), xy.mulmod(&rinv, &p).hex());
                eq!("mul_mod", b(&hi.mul_mod::<Mont<P>>(y)).hex(), xy.hex());
                Ok(())
            });
        }
    });
}

pub const C22: Def = Def {
    prop: "C22",
    level: "model_checking",
    rule: "every ordered pair of elements of the fields with 3,5,7,11,13,17,41,97 (thorough: 193,257) elements, and every ordered pair of boundary elements (limb corners of the value and of the internal representation, neighbours of 0, p/2, p) of the STARK field, the curve's scalar field, BN254's scalar field, 2^255-19, 2^64-2^32+1, primes 2^192 k + 1 and their near misses in each limb; every form of every field operation is compared with integer arithmetic mod p and the result must be the canonical representative; reduction of every limb-corner 256-bit integer and of every neighbour of a small or maximal multiple of p; Montgomery reduction of every (low, high) pair of limb corners with high below p, Montgomery products, conversions and inverses of all corner values",
    run: |ck| {
        macro_rules! small {
            ($($t:ident)*) => { $( field22::<$t>(ck, stringify!($t), all_of::<$t>()); )* };
        }
        small!(F3 F5 F7 F11 F13 F17 F41 F97);
        if ck.thorough() {
            small!(F193 F257);
        }
        let sm = ck.quick();
        field22::<Proth>(ck, "stark field", corners::<Proth>(sm));
        field22::<Order>(ck, "scalar field", corners::<Order>(sm));
        field22::<Bn254>(ck, "bn254", corners::<Bn254>(true));
        field22::<P25519>(ck, "p25519", corners::<P25519>(true));
        field22::<Goldilocks>(ck, "goldilocks", corners::<Goldilocks>(true));
        field22::<Limb1>(ck, "2^192 k + 2^64 c + 1", corners::<Limb1>(true));
        field22::<Limb2>(ck, "2^192 k + 2^128 c + 1", corners::<Limb2>(true));
        field22::<Proth2>(ck, "2^192 k + 1", corners::<Proth2>(true));
        mont22::<Proth>(ck, "stark field");
        mont22::<Order>(ck, "scalar field");
        mont22::<Bn254>(ck, "bn254");
        mont22::<P25519>(ck, "p25519");
        mont22::<Goldilocks>(ck, "goldilocks");
        mont22::<F97>(ck, "F97");
        // moduli that are nearly of the special form 2^192 k + 1, and two that are
        mont22::<Limb0>(ck, "2^192 k + c");
        mont22::<Limb1>(ck, "2^192 k + 2^64 c + 1");
        mont22::<Limb2>(ck, "2^192 k + 2^128 c + 1");
        mont22::<Limb12>(ck, "2^64 k + 1");
        mont22::<Proth2>(ck, "2^192 k + 1");
        mont22::<ProthSmall>(ck, "2^192 133 + 1");
    },
};

// ---------------------------------------------------------------------------------------------

fn exps() -> Vec<Big> {
    let mut v = vec![];
    for i in 0..=20 {
        v.push(Big::from_u64(i));
    }
    for i in [31, 32, 33, 62, 63, 64, 65, 127, 128, 191, 192, 193, 251, 252, 254, 255] {
        v.push(Big::pow2(i));
        v.push(Big::pow2(i).sub(&Big::one()));
        v.push(Big::pow2(i).add(&Big::one()));
    }
    v.push(Big::pow2(256).sub(&Big::one()));
    v
}

fn powinv<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str, vals: &[(PrimeField<P>, Big)], ex: &[Big]) {
    let p = b(&P::MODULUS);
    let pm1 = p.sub(&Big::one());
    let pm2 = p.sub(&Big::from_u64(2));
    let e0: Vec<Big> = ex.iter().cloned().chain([pm1.clone(), pm2.clone(), p.clone(), p.shr(1)]).collect();
    ck.par(vals, |ck, (x, bx)| {
        ck.case(hw(&[hs(name), hw(&bx.low4())]), 5, || format!("{} inv a={}", name, bx.hex()), || {
            let inv = x.inv();
            if bx.is_zero() {
                eq!("inv(0)", inv.is_none(), true);
                let z = x.clone();
                eq!("division by zero refused", guard(|| PrimeField::<P>::one() / &z).is_err(), true);
            } else {
                let i = inv.ok_or("no inverse")?;
                if !b(i.as_montgomery()).lt(&p) {
                    return Err("inverse not canonical".into());
                }
                let bi = b(&i.to_uint());
                eq!("a * a^-1", bx.mulmod(&bi, &p).hex(), Big::one().hex());
                let two = bi.addmod(&bi, &p);
                let y = PrimeField::<P>::from(2_u64);
                canon("y/x", &(&y / x), &two)?;
                canon("y/x o", &(y.clone() / x.clone()), &two)?;
                canon("y/&x", &(y.clone() / x), &two)?;
                canon("&y/x", &(&y / x.clone()), &two)?;
                let mut t = y.clone();
                t /= x;
                canon("y/=x", &t, &two)?;
                let mut t = y;
                t /= x.clone();
                canon("y/=x o", &t, &two)?;
            }
            Ok(())
        });
        for e in &e0 {
            ck.case(hw(&[hs(name), hw(&bx.low4()), hw(&e.low4())]), 3, || format!("{} a={} pow {}", name, bx.hex(), e.hex()), || {
                let w = if e.is_zero() { Big::one() } else { bx.powmod(e, &p) };
                canon("pow &U256", &x.pow(&u(e.low4())), &w)?;
                if e.bits() <= 64 {
                    let n = e.low4()[0] as usize;
                    canon("pow usize", &x.pow(n), &w)?;
                    if n <= isize::MAX as usize {
                        let r: Option<PrimeField<P>> = x.pow(n as isize);
                        canon("pow isize", &r.ok_or("none")?, &w)?;
                    }
                    // negative exponents, down to isize::MIN
                    if n <= 1 << 63 && n > 0 {
                        let r: Option<PrimeField<P>> = x.pow((n as isize).wrapping_neg());
                        if bx.is_zero() {
                            eq!("0^-n", r.is_none(), true);
                        } else {
                            let r = r.ok_or("none")?;
                            eq!("a^-n * a^n", b(&r.to_uint()).mulmod(&w, &p).hex(), Big::one().hex());
                        }
                    }
                }
                Ok(())
            });
        }
        ck.case(hw(&[hs(name), hw(&bx.low4()), 77]), 2, || format!("{} sqrt a={}", name, bx.hex()), || {
            let leg = bx.powmod(&p.shr(1), &p);
            let qr = bx.is_zero() || leg.cmp(&Big::one()) == std::cmp::Ordering::Equal;
            eq!("is_quadratic_residue", x.is_quadratic_residue(), qr);
            match x.square_root() {
                None => eq!("square root exists", qr, false),
                Some(r) => {
                    let br = b(&r.to_uint());
                    eq!("root^2", br.mulmod(&br, &p).hex(), bx.hex());
                }
            }
            Ok(())
        });
    });
}

fn roots<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str, orders: &[Big], primes: &[Big]) {
    let p = b(&P::MODULUS);
    let pm1 = p.sub(&Big::one());
    ck.par(orders, |ck, n| {
        ck.case(hw(&[hs(name), hw(&n.low4()), 78]), 2, || format!("{} root of order {}", name, n.hex()), || {
            let r1 = PrimeField::<P>::root(&u(n.low4()));
            let divides = n.is_zero() || pm1.rem(n).is_zero();
            eq!("root exists (U256)", r1.is_some(), divides);
            if n.bits() <= 64 {
                let r2 = PrimeField::<P>::root(n.low4()[0] as usize);
                eq!("root usize = root U256", r2, r1.clone());
            }
            if let Some(r) = r1 {
                let br = b(&r.to_uint());
                let one = Big::one().hex();
                if n.is_zero() {
                    eq!("root(0)", br.hex(), one);
                    return Ok(());
                }
                eq!("root^n", br.powmod(n, &p).hex(), one.clone());
                for q in primes {
                    let (d, rem) = n.divrem(q);
                    if rem.is_zero() {
                        eq!(format!("order divides n/{} too", q.hex()), br.powmod(&d, &p).hex() == one, false);
                    }
                }
            }
            Ok(())
        });
    });
}

fn divisors(p2: usize, other: &[u64]) -> Vec<Big> {
    let mut v = vec![Big::one()];
    for q in other {
        let w: Vec<Big> = v.iter().map(|x| x.mul(&Big::from_u64(*q))).collect();
        v.extend(w);
    }
    let mut out = vec![];
    for i in 0..=p2 {
        for x in &v {
            out.push(x.shl(i));
        }
    }
    out
}

fn batch<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str, list: &[Big]) {
    let p = b(&P::MODULUS);
    let st = list.iter().fold(hs(name), |h, x| hw(&[h, hw(&x.low4())]));
    ck.case(st, list.len() as u64, || format!("{} batch {:?}", name, list.iter().map(|x| x.hex()).collect::<Vec<_>>()), || {
        let src: Vec<PrimeField<P>> = list.iter().map(|x| el::<P>(x)).collect();
        let has_zero = list.iter().any(|x| x.is_zero());
        let got = guard(|| invert_batch(&src));
        if has_zero {
            eq!("batch inverse of a list with zero is refused", got.is_err(), true);
            return Ok(());
        }
        let got = got?;
        eq!("len", got.len(), src.len());
        let mut dst = vec![PrimeField::<P>::zero(); src.len()];
        invert_batch_src_dst(&src, &mut dst);
        eq!("src_dst", &dst, &got);
        for (x, i) in list.iter().zip(&got) {
            eq!("x * inv", x.mulmod(&b(&i.to_uint()), &p).hex(), Big::one().hex());
        }
        Ok(())
    });
}

#[derive(Clone, Debug)]
enum Geo {
    Skip(usize),
    Take(usize),
    Step(usize),
    Next,
}

pub const C23: Def = Def {
    prop: "C23",
    level: "model_checking",
    rule: "every element and every exponent 0..=2p of the small fields and every boundary element x boundary exponent (0..20, 2^i neighbours, p-2, p-1, p, isize::MIN) of the large fields: powers (all exponent types), inverses, quotients, quadratic character and square roots; roots of unity of every divisor of p-1 of the STARK field's smooth part and every order 0..=300; batch inversion of every list of length <= 4 over F7 and lists of 1..=24 (thorough 64) boundary elements with a zero at each position and of some lengths to 4097; every sequence of <= 3 skip/take/step_by/next operations on geometric series of every length 0..=9 against a plain vector, and with arguments to 2^40 on series to 2^33 elements",
    run: run23,
};

fn run23(ck: &mut Ck) {
    macro_rules! small {
        ($($t:ident)*) => { $( {
            let p = $t::MODULUS.limb(0);
            let ex: Vec<Big> = (0..=2 * p).map(Big::from_u64).chain(exps()).collect();
            powinv::<$t>(ck, stringify!($t), &all_of::<$t>(), &ex);
            let orders: Vec<Big> = (0..=2 * p).map(Big::from_u64).collect();
            let primes: Vec<Big> = (2..p).filter(|q| (2..*q).all(|d| q % d != 0)).map(Big::from_u64).collect();
            roots::<$t>(ck, stringify!($t), &orders, &primes);
        } )* };
    }
    small!(F3 F5 F7 F11 F13 F17 F41 F97);
    if ck.thorough() {
        small!(F193 F257);
    }
    let thin = |v: Vec<(PrimeField<Proth>, Big)>, n: usize| -> Vec<(PrimeField<Proth>, Big)> { v.into_iter().step_by(n).collect() };
    powinv::<Proth>(ck, "stark field", &thin(corners::<Proth>(true), ck.b(3, 1)), &exps());
    let v: Vec<_> = corners::<Order>(true).into_iter().step_by(ck.b(6, 2)).collect();
    powinv::<Order>(ck, "scalar field", &v, &exps());
    let v: Vec<_> = corners::<Goldilocks>(true).into_iter().step_by(ck.b(4, 1)).collect();
    powinv::<Goldilocks>(ck, "goldilocks", &v, &exps());
    let v: Vec<_> = corners::<P25519>(true).into_iter().step_by(ck.b(20, 4)).collect();
    powinv::<P25519>(ck, "p25519", &v, &exps());
    // roots of unity of the STARK field: p - 1 = 2^192 * 5 * 7 * 98714381 * 166848103
    let odd = [5, 7, 98_714_381, 166_848_103];
    let primes: Vec<Big> = [2].iter().chain(&odd).map(|x| Big::from_u64(*x)).collect();
    let mut ords = if ck.quick() {
        let mut o: Vec<Big> = (0..=192).map(Big::pow2).collect();
        o.extend(divisors(2, &odd));
        o
    } else {
        divisors(192, &odd)
    };
    ords.extend((0..=300).map(Big::from_u64));
    for k in 8..=255 {
        for d in [Big::pow2(k).sub(&Big::one()), Big::pow2(k).add(&Big::one()), Big::pow2(k).add(&Big::pow2(k - 1)), Big::pow2(k).add(&Big::pow2(k / 2))] {
            ords.push(d);
        }
    }
    ords.push(Big::pow2(193));
    ords.push(Big::pow2(255));
    roots::<Proth>(ck, "stark field", &ords, &primes);
    // batch inversion
    let mut lists: Vec<Vec<u64>> = vec![vec![]];
    let mut cur = lists.clone();
    for _ in 0..4 {
        let mut nx = vec![];
        for l in &cur {
            for x in 0..7 {
                let mut l2 = l.clone();
                l2.push(x);
                nx.push(l2);
            }
        }
        lists.extend(nx.iter().cloned());
        cur = nx;
    }
    ck.par(&lists, |ck, l| batch::<F7>(ck, "F7", &l.iter().map(|x| Big::from_u64(*x)).collect::<Vec<_>>()));
    let cs: Vec<Big> = corners::<Proth>(true).into_iter().map(|x| x.1).filter(|x| !x.is_zero()).collect();
    let lens: Vec<usize> = (1..=ck.b(24, 64)).collect();
    ck.par(&lens, |ck, n| {
        for start in [0, 7, 31] {
            let l: Vec<Big> = (0..*n).map(|i| cs[(start + i) % cs.len()].clone()).collect();
            batch::<Proth>(ck, "stark field", &l);
            for z in 0..*n {
                let mut l = l.clone();
                l[z] = Big::zero();
                batch::<Proth>(ck, "stark field", &l);
            }
        }
    });
    let lens: Vec<usize> = vec![65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097];
    ck.par(&lens, |ck, n| {
        let l: Vec<Big> = (0..*n).map(|i| cs[i * 5 % cs.len()].clone()).collect();
        batch::<Proth>(ck, "stark field", &l);
        for z in [0, 1, 31, 32, 63, 64, n / 2, n - 2, n - 1] {
            let mut l = l.clone();
            l[z] = Big::zero();
            batch::<Proth>(ck, "stark field", &l);
        }
    });
    // long series: the same operations with large arguments, against (start, stride, length)
    let args: Vec<usize> = vec![1, 2, 31, 32, 33, 64, 100, 1000, 1023, 1024, 65536, (1 << 32) - 1, 1 << 32, (1 << 40) + 7];
    let mut ops: Vec<Geo> = vec![Geo::Next];
    for a in &args {
        ops.extend([Geo::Skip(*a), Geo::Take(*a), Geo::Step(*a)]);
    }
    let mut seqs: Vec<Vec<Geo>> = ops.iter().map(|o| vec![o.clone()]).collect();
    for a in &ops {
        for b in &ops {
            seqs.push(vec![a.clone(), b.clone()]);
            seqs.push(vec![a.clone(), b.clone(), Geo::Step(3)]);
            seqs.push(vec![a.clone(), b.clone(), Geo::Skip(70)]);
        }
    }
    ck.par(&seqs, |ck, seq| {
        for len in [64_usize, 1000, 4096, 1 << 33] {
            ck.case(hs(&format!("long{:?}{}", seq, len)), seq.len() as u64 + 1, || format!("geometric series of length {} {:?}", len, seq), || {
                type F = PrimeField<F97>;
                let power = |i: u128| Big::from_u64(5).powmod(&Big::from_u64((i % 96) as u64), &Big::from_u64(97)).low4()[0];
                let mut it = geometric_series(&F::from(3_u64), &F::from(5_u64)).take(len);
                let (mut start, mut stride, mut length) = (0_u128, 1_u128, len as u128);
                for o in seq {
                    match o {
                        Geo::Next => {
                            let want = if length == 0 { None } else { Some(3 * power(start) % 97) };
                            eq!("next", it.next().map(|f| f.to_uint().limb(0)), want);
                            if length > 0 {
                                start += stride;
                                length -= 1;
                            }
                        }
                        Geo::Skip(n) => {
                            it = it.skip(*n);
                            start += stride * *n as u128;
                            length = length.saturating_sub(*n as u128);
                        }
                        Geo::Take(n) => {
                            it = it.take(*n);
                            length = length.min(*n as u128);
                        }
                        Geo::Step(n) => {
                            it = it.step_by(*n);
                            stride *= *n as u128;
                            length = (length + *n as u128 - 1) / *n as u128;
                        }
                    }
                    eq!("size_hint", it.size_hint(), (length as usize, Some(length as usize)));
                }
                for i in [0_u128, 1, 2, 31, 32, 33, 1023, 1024, 65536, length.saturating_sub(1)] {
                    if i < length {
                        eq!("at", it.at(i as usize).to_uint().limb(0), 3 * power(start + stride * i) % 97);
                    }
                }
                let mut i = 0;
                while i < length.min(130) {
                    eq!("item", it.next().map(|f| f.to_uint().limb(0)), Some(3 * power(start + stride * i) % 97));
                    i += 1;
                }
                if i == length {
                    eq!("end", it.next().is_none(), true);
                }
                Ok(())
            });
        }
    });
    // geometric series
    let mut ops: Vec<Geo> = vec![Geo::Next];
    for i in 0..=6 {
        ops.push(Geo::Skip(i));
        ops.push(Geo::Take(i));
        if i > 0 {
            ops.push(Geo::Step(i));
        }
    }
    let mut seqs: Vec<Vec<Geo>> = vec![vec![]];
    let mut cur = seqs.clone();
    for _ in 0..ck.b(3, 4) {
        let mut nx = vec![];
        for s in &cur {
            for o in &ops {
                let mut t = s.clone();
                t.push(o.clone());
                nx.push(t);
            }
        }
        seqs.extend(nx.iter().cloned());
        cur = nx;
    }
    ck.par(&seqs, |ck, seq| {
        for (base, step) in [(3_u64, 5_u64), (1, 96), (0, 4), (7, 1)] {
            for len in 0..=9_usize {
                ck.case(
                    hs(&format!("{:?}{}{}{}", seq, base, step, len)),
                    seq.len() as u64 + 1,
                    || format!("geometric base={} step={} len={} {:?}", base, step, len, seq),
                    || {
                        type F = PrimeField<F97>;
                        let (bb, ss) = (F::from(base), F::from(step));
                        let mut it = geometric_series(&bb, &ss).take(len);
                        let mut x = base;
                        let mut model: Vec<u64> = vec![];
                        for _ in 0..len {
                            model.push(x);
                            x = x * step % 97;
                        }
                        for o in seq {
                            match o {
                                Geo::Next => {
                                    let got = it.next().map(|f| f.to_uint().limb(0));
                                    let want = if model.is_empty() { None } else { Some(model.remove(0)) };
                                    eq!("next", got, want);
                                }
                                Geo::Skip(n) => {
                                    it = it.skip(*n);
                                    model = model.into_iter().skip(*n).collect();
                                }
                                Geo::Take(n) => {
                                    it = it.take(*n);
                                    model = model.into_iter().take(*n).collect();
                                }
                                Geo::Step(n) => {
                                    it = it.step_by(*n);
                                    model = model.into_iter().step_by(*n).collect();
                                }
                            }
                            eq!("size_hint", it.size_hint(), (model.len(), Some(model.len())));
                        }
                        for (i, m) in model.iter().enumerate() {
                            eq!("at", it.at(i).to_uint().limb(0), *m);
                        }
                        let got: Vec<u64> = it.map(|f| f.to_uint().limb(0)).collect();
                        eq!("items", got, model);
                        Ok(())
                    },
                );
            }
        }
    });
    for k in 0..=ck.b(10, 14) {
        let n = 1_usize << k;
        ck.case(hs(&format!("rs{}", n)), n as u64, || format!("root_series({})", n), || {
            let v: Vec<FieldElement> = root_series(n).collect();
            eq!("len", v.len(), n);
            let r = FieldElement::root(n).ok_or("no root")?;
            let mut x = FieldElement::one();
            for (i, y) in v.iter().enumerate() {
                eq!(format!("item {}", i), y, &x);
                x *= &r;
            }
            eq!("closes", x, FieldElement::one());
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------

/// Naive DFT, natural order output.
fn dft<P: Parameters<UInt = U256>>(x: &[PrimeField<P>], root: &PrimeField<P>) -> Vec<PrimeField<P>> {
    let n = x.len();
    let mut w = vec![PrimeField::<P>::one()];
    for i in 1..n {
        let t = &w[i - 1] * root;
        w.push(t);
    }
    (0..n)
        .map(|i| {
            let mut s = PrimeField::<P>::zero();
            for (j, xj) in x.iter().enumerate() {
                s += xj * &w[i * j % n];
            }
            s
        })
        .collect()
}
/// Out-of-place recursive decimation in time, natural order output; used above the naive sizes.
fn ref_fft(x: &[FieldElement], root: &FieldElement) -> Vec<FieldElement> {
    let n = x.len();
    if n == 1 {
        return x.to_vec();
    }
    let ev: Vec<_> = x.iter().step_by(2).cloned().collect();
    let od: Vec<_> = x.iter().skip(1).step_by(2).cloned().collect();
    let r2 = root * root;
    let (e, o) = (ref_fft(&ev, &r2), ref_fft(&od, &r2));
    let mut out = vec![FieldElement::zero(); n];
    let mut w = FieldElement::one();
    for i in 0..n / 2 {
        let t = &o[i] * &w;
        out[i] = &e[i] + &t;
        out[i + n / 2] = &e[i] - &t;
        w *= root;
    }
    out
}
fn rev(n: usize, i: usize) -> usize {
    let mut r = 0;
    let mut k = 1;
    while k < n {
        r = r * 2 + usize::from(i & k != 0);
        k *= 2;
    }
    r
}
fn bitrev<T: Clone>(v: &[T]) -> Vec<T> {
    (0..v.len()).map(|i| v[rev(v.len(), i)].clone()).collect()
}
fn dense(n: usize, seed: u64) -> Vec<FieldElement> {
    let step = FieldElement::from(0x9e37_79b9_7f4a_7c15_u64 ^ seed);
    let mut x = FieldElement::from(U256::from_limbs([seed, 0xdead_beef, 77, 1 << 50]));
    (0..n)
        .map(|_| {
            x = &x * &step + FieldElement::one();
            x.clone()
        })
        .collect()
}
fn same(what: &str, got: &[FieldElement], want: &[FieldElement]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: length {} != {}", what, got.len(), want.len()));
    }
    for i in 0..got.len() {
        if got[i] != want[i] {
            return Err(format!("{}: index {} got {:?} want {:?}", what, i, got[i], want[i]));
        }
    }
    Ok(())
}

fn fft_exhaustive<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str, n: usize) {
    let p = P::MODULUS.limb(0);
    let total = (p as usize).pow(n as u32);
    let heads: Vec<usize> = (0..p as usize).collect();
    let root = PrimeField::<P>::root(n).unwrap();
    ck.par(&heads, |ck, h| {
        for rest in 0..total / p as usize {
            let code = h * (total / p as usize) + rest;
            ck.case(hw(&[hs(name), n as u64, code as u64]), 4, || format!("{} fft n={} vector #{}", name, n, code), || {
                let mut c = code;
                let x: Vec<PrimeField<P>> = (0..n)
                    .map(|_| {
                        let d = c % p as usize;
                        c /= p as usize;
                        PrimeField::<P>::from(d as u64)
                    })
                    .collect();
                let want = bitrev(&dft(&x, &root));
                let mut y = x.clone();
                y.fft();
                eq!("fft", &y, &want);
                let mut z = bitrev(&y);
                z.ifft();
                eq!("ifft(fft)", &bitrev(&z), &x);
                let mut y = x.clone();
                radix_sqrt(&mut y, &root);
                eq!("radix_sqrt", &y, &want);
                Ok(())
            });
        }
    });
}

fn fft_all_paths(what: &str, x: &[FieldElement]) -> Result<(), String> {
    let n = x.len();
    let root = FieldElement::root(n).ok_or("no root")?;
    let nat = ref_fft(x, &root);
    let want = bitrev(&nat);
    let mut y = x.to_vec();
    y.fft();
    same(&format!("{} fft", what), &y, &want)?;
    let mut y = x.to_vec();
    radix_sqrt(&mut y, &root);
    same(&format!("{} radix_sqrt", what), &y, &want)?;
    let mut y = x.to_vec();
    fft_vec_recursive(&mut y, &get_twiddles(&root, n), 0, 1, 1);
    same(&format!("{} recursive", what), &y, &want)?;
    let inv = root.inv().ok_or("inv")?;
    let mut y = x.to_vec();
    y.fft_root(&inv);
    same(&format!("{} fft_root(inverse root)", what), &y, &bitrev(&ref_fft(x, &inv)))?;
    let mut y = nat;
    y.ifft();
    same(&format!("{} ifft", what), &y, &bitrev(x))?;
    Ok(())
}

pub const C24: Def = Def {
    prop: "C24",
    level: "model_checking",
    rule: "every input vector of F5 and F17 of length 1,2,4 (F17: 83521 vectors; F3, F97 length 2); every unit vector of every power-of-two length up to 2^10 (quick) / 2^11 (thorough) over the STARK field - which determines a linear map completely - and dense vectors up to 2^20 (quick) / 2^22 (thorough), through fft, ifft, fft_root, radix_sqrt, fft_vec_recursive and the cofactor variants, against a naive DFT / an out-of-place reference FFT that is itself checked against the naive DFT; bit reversal of every index of every size up to 2^13; transposes of every supported size up to 40 (thorough 128) and some to 1024; clone_shifted for every length 0..=40, around 1024 multiples and with 1..=9,16 threads",
    run: run24,
};

fn run24(ck: &mut Ck) {
    for n in [1, 2] {
        fft_exhaustive::<F3>(ck, "F3", n);
        fft_exhaustive::<F97>(ck, "F97", n);
    }
    for n in [1, 2, 4] {
        fft_exhaustive::<F5>(ck, "F5", n);
        fft_exhaustive::<F17>(ck, "F17", n);
    }
    // the reference itself
    for k in 0..=8 {
        let n = 1 << k;
        ck.case(hs(&format!("ref{}", k)), 1, || format!("reference fft n={}", n), || {
            let x = dense(n, 9);
            let root = FieldElement::root(n).ok_or("no root")?;
            same("reference", &ref_fft(&x, &root), &dft(&x, &root))
        });
    }
    // unit vectors
    for k in 0..=ck.b(10_usize, 11) {
        let n = 1_usize << k;
        let idx: Vec<usize> = (0..n).collect();
        let root = FieldElement::root(n).unwrap();
        let tw = get_twiddles(&root, n);
        let mut pw = vec![FieldElement::one()];
        for i in 1..n {
            let t = &pw[i - 1] * &root;
            pw.push(t);
        }
        ck.par(&idx, |ck, i| {
            ck.case(hw(&[n as u64, *i as u64, 24]), 3, || format!("unit vector n={} i={}", n, i), || {
                let mut y = vec![FieldElement::zero(); n];
                y[*i] = FieldElement::one();
                let x = y.clone();
                let want: Vec<FieldElement> = (0..n).map(|j| pw[rev(n, j) * i % n].clone()).collect();
                if n < 1024 {
                    y.fft();
                } else {
                    fft_vec_recursive(&mut y, &tw, 0, 1, 1);
                }
                same("fft", &y, &want)?;
                let mut y = x.clone();
                radix_sqrt(&mut y, &root);
                same("radix_sqrt", &y, &want)?;
                let mut z: Vec<FieldElement> = (0..n).map(|j| pw[j * i % n].clone()).collect();
                z.ifft();
                same("ifft", &z, &bitrev(&x))
            });
        });
    }
    for k in 0..=ck.b(20_usize, 22) {
        let n = 1_usize << k;
        for seed in 1..=(if k > 17 { 1 } else { 2 }) {
            ck.case(hs(&format!("dense{}{}", k, seed)), 6, || format!("dense n=2^{} seed={}", k, seed), || {
                fft_all_paths("dense", &dense(n, seed))
            });
        }
        for cof in [FieldElement::one(), FieldElement::generator(), FieldElement::from(3_u64), -FieldElement::one()] {
            if k > 15 {
                continue;
            }
            ck.case(hs(&format!("cof{}{:?}", k, cof)), 3, || format!("cofactor n=2^{} c={:?}", k, cof), || {
                let x = dense(n, 3);
                let root = FieldElement::root(n).ok_or("no root")?;
                let mut s = vec![];
                let mut c = FieldElement::one();
                for v in &x {
                    s.push(v * &c);
                    c *= &cof;
                }
                let nat = ref_fft(&s, &root);
                let mut y = x.clone();
                y.fft_cofactor(&cof);
                same("fft_cofactor", &y, &bitrev(&nat))?;
                // ifft_cofactor: inverse transform, then divide position i by c^i
                let mut y = s.clone();
                y.ifft_cofactor(&cof);
                let mut plain = s.clone();
                plain.ifft();
                let ci = cof.inv().ok_or("inv")?;
                let mut c = FieldElement::one();
                for v in plain.iter_mut() {
                    *v *= &c;
                    c *= &ci;
                }
                same("ifft_cofactor", &y, &plain)?;
                let mut y = vec![FieldElement::from(5_u64); n];
                y.clone_shifted(&x, &cof);
                same("clone_shifted", &y, &s)
            });
        }
    }
    // bit reversal
    let ks: Vec<usize> = (0..=13).collect();
    ck.par(&ks, |ck, k| {
        let n = 1_usize << k;
        ck.case(hs(&format!("rev{}", k)), n as u64, || format!("bit reversal n=2^{}", k), || {
            for i in 0..n {
                eq!(format!("permute_index({})", i), permute_index(n, i), rev(n, i));
            }
            let v: Vec<usize> = (0..n).collect();
            let mut w = v.clone();
            permute(&mut w);
            eq!("permute", w, bitrev(&v));
            Ok(())
        });
    });
    for k in [20_usize, 31, 32, 33, 47, 62] {
        let n = 1_usize << k;
        for i in [0, 1, 2, 3, n / 2, n / 2 + 1, n - 2, n - 1, n / 3] {
            ck.case(hs(&format!("revb{}{}", k, i)), 1, || format!("permute_index(2^{}, {})", k, i), || {
                eq!("permute_index", permute_index(n, i), rev(n, i));
                Ok(())
            });
        }
    }
    // transposes
    for size in (0..=ck.b(40_usize, 128)).chain([48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 512, 513, 514, 1024]) {
        for stretch in [1_usize, 2] {
            if stretch == 1 && size % 2 == 1 {
                continue;
            }
            ck.case(hs(&format!("tr{}{}", size, stretch)), 1, || format!("transpose size={} stretch={}", size, stretch), || {
                let m: Vec<usize> = (0..size * size * stretch).collect();
                let mut t = m.clone();
                transpose_square_stretch(&mut t, size, stretch);
                for i in 0..size {
                    for j in 0..size {
                        for s in 0..stretch {
                            eq!("entry", t[(i * size + j) * stretch + s], m[(j * size + i) * stretch + s]);
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // small radix kernels: unit vectors determine the linear map
    for n in [2_usize, 4, 8] {
        for stride in [1_usize, 2, 3] {
            for offset in 0..stride {
                for i in 0..n {
                    ck.case(hs(&format!("rx{}{}{}{}", n, stride, offset, i)), 1, || format!("radix_{} stride={} offset={} unit={}", n, stride, offset, i), || {
                        let root = FieldElement::root(n).ok_or("no root")?;
                        let tw = get_twiddles(&root, n);
                        let mut v = vec![FieldElement::from(9_u64); n * stride];
                        for j in 0..n {
                            v[offset + j * stride] = if i == j { FieldElement::one() } else { FieldElement::zero() };
                        }
                        match n {
                            2 => small::radix_2(&mut v, offset, stride),
                            4 => small::radix_4(&mut v, &tw, offset, stride),
                            _ => small::radix_8(&mut v, &tw, offset, stride),
                        }
                        for j in 0..n * stride {
                            if j % stride == offset {
                                eq!("out", &v[j], &root.pow(i * rev(n, j / stride) % n));
                            } else {
                                eq!("untouched", &v[j], &FieldElement::from(9_u64));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // shifted copies: lengths around the chunking boundaries, several pool sizes
    let mut lens: Vec<usize> = (0..=40).collect();
    for c in [64_usize, 128, 256, 512, 1024, 2048, 3072, 4096, 8192, 9216, 16384, 20000, 32768, 65536, 131072] {
        lens.extend([c - 1, c, c + 1]);
    }
    for threads in [1, 2, 3, 4, 5, 6, 7, 8, 9, 16] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for n in &lens {
            ck.case(hw(&[*n as u64, threads as u64, 99]), 1, || format!("clone_shifted n={} threads={}", n, threads), || {
                let x = dense(*n, 4);
                let cof = FieldElement::generator();
                for extra in [0, 5] {
                    let mut y = vec![FieldElement::from(5_u64); n + extra];
                    pool.install(|| y.clone_shifted(&x, &cof));
                    let mut c = FieldElement::one();
                    for i in 0..n + extra {
                        if i < *n {
                            eq!(format!("[{}]", i), &y[i], &(&x[i] * &c));
                            c *= &cof;
                        } else {
                            eq!("beyond the source", &y[i], &FieldElement::from(5_u64));
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// A source of randomness that plays back a script (then repeats its last word).
struct Script {
    words: Vec<u64>,
    at: usize,
}
impl rand::RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let w = self.words.get(self.at).copied().unwrap_or_else(|| (self.at as u64 * 4) & 1);
        self.at += 1;
        w
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub const C31: Def = Def {
    prop: "C31",
    level: "model_checking",
    rule: "every i8/u8/i16/u16 value and every 2^i neighbour of the wider integer types converted to the STARK field and to F97 and back; every boundary element through JSON, bincode and SCALE (exact bytes and round trip); every boundary 256-bit integer, in particular every neighbour of the modulus and its multiples, offered to each decoder, which must accept exactly the canonical ones; every truncation; sampling from every scripted generator of <= 8 corner words must give a canonical element and consume the generator",
    run: run31,
};

fn conv<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str) {
    let p = b(&P::MODULUS);
    let model = |v: i128| -> Big {
        let a = Big::from_u128(v.unsigned_abs()).rem(&p);
        if v < 0 && !a.is_zero() {
            p.sub(&a)
        } else {
            a
        }
    };
    macro_rules! conv {
        ($t:ty, $vals:expr) => {
            for v in $vals {
                let v: $t = v;
                ck.case(hs(&format!("{}{}{}", name, stringify!($t), v)), 1, || format!("{} from {} {}", name, stringify!($t), v), || {
                    canon("from", &PrimeField::<P>::from(v), &model(v as i128))
                });
            }
        };
    }
    conv!(u8, 0..=u8::MAX);
    conv!(i8, i8::MIN..=i8::MAX);
    conv!(u16, 0..=u16::MAX);
    conv!(i16, i16::MIN..=i16::MAX);
    let mut c64: Vec<u64> = vec![0, u64::MAX];
    for i in 0..64 {
        for d in [-1_i64, 0, 1] {
            c64.push((1_u64 << i).wrapping_add(d as u64));
        }
    }
    conv!(u32, c64.iter().map(|x| *x as u32));
    conv!(i32, c64.iter().map(|x| *x as i32).chain([i32::MIN, i32::MIN + 1, i32::MAX]));
    conv!(u64, c64.iter().copied());
    conv!(i64, c64.iter().map(|x| *x as i64).chain([i64::MIN, i64::MIN + 1, i64::MAX]));
    conv!(usize, c64.iter().map(|x| *x as usize));
    conv!(isize, c64.iter().map(|x| *x as isize).chain([isize::MIN, isize::MAX]));
    for h in &c64 {
        for l in [0_u64, 1, u64::MAX, 1 << 63] {
            let v = u128::from(*h) << 64 | u128::from(l);
            ck.case(hs(&format!("{}u128{}", name, v)), 2, || format!("{} from u128/i128 {:x}", name, v), || {
                canon("from u128", &PrimeField::<P>::from(v), &Big::from_u128(v).rem(&p))?;
                canon("from i128", &PrimeField::<P>::from(v as i128), &model(v as i128))
            });
        }
    }
}

fn decode31<P: Parameters<UInt = U256> + Debug>(ck: &mut Ck, name: &str, vals: &[U256]) {
    use parity_scale_codec::{Decode, Encode};
    type F<P> = PrimeField<P>;
    let p = b(&P::MODULUS);
    ck.par(vals, |ck, x| {
        let mut ok = false;
        ck.case(hw(&[hs(name), hw(x.as_limbs()), 31]), 9, || format!("{} decode {}", name, b(x).hex()), || {
            let bx = b(x);
            let valid = bx.lt(&p);
            ok = valid;
            let be = bx.be32();
            let mut le = be;
            le.reverse();
            let json = format!("\"0x{}\"", be.iter().map(|c| format!("{:02x}", c)).collect::<String>());
            let d1 = serde_json::from_str::<F<P>>(&json).ok();
            let d2 = bincode::deserialize::<F<P>>(&be).ok();
            let d3 = F::<P>::decode(&mut &le[..]).ok();
            eq!("json accepted", d1.is_some(), valid);
            eq!("bincode accepted", d2.is_some(), valid);
            eq!("scale accepted", d3.is_some(), valid);
            if !valid {
                return Ok(());
            }
            for (w, d) in [("json", d1), ("bincode", d2), ("scale", d3)] {
                canon(w, &d.unwrap(), &bx)?;
            }
            let e = el::<P>(&bx);
            eq!("json text", serde_json::to_string(&e).map_err(|e| e.to_string())?, json);
            eq!("bincode bytes", bincode::serialize(&e).map_err(|e| e.to_string())?, be.to_vec());
            eq!("scale bytes", e.encode(), le.to_vec());
            for n in 0..32 {
                eq!("bincode truncated", bincode::deserialize::<F<P>>(&be[..n]).is_err(), true);
                eq!("scale truncated", F::<P>::decode(&mut &le[..n]).is_err(), true);
            }
            // to primitive integers: the representative in (-p/2, p/2) for signed types
            eq!("to_u128", e.to_u128(), if bx.bits() <= 128 { Some(bx.low4()[0] as u128 | (bx.low4()[1] as u128) << 64) } else { None });
            eq!("to_u64", e.to_u64(), if bx.bits() <= 64 { Some(bx.low4()[0]) } else { None });
            let half = p.shr(1);
            if p.bits() > 200 {
                let (neg, a) = if bx.lt(&half) { (false, bx.clone()) } else { (true, p.sub(&bx)) };
                let a128 = a.low4()[0] as u128 | (a.low4()[1] as u128) << 64;
                let want = if a.bits() <= 127 { Some(if neg { -(a128 as i128) } else { a128 as i128 }) } else { None };
                eq!("to_i128", e.to_i128(), want);
                eq!("to_i64", e.to_i64(), want.and_then(|w| i64::try_from(w).ok()));
            }
            eq!("debug", format!("{:?}", e), format!("field_element!(\"u256h!(\"{}\")\")", be.iter().map(|c| format!("{:02x}", c)).collect::<String>()));
            Ok(())
        });
        ck.outcome(if ok { "canonical" } else { "refused" });
    });
}

fn run31(ck: &mut Ck) {
    conv::<Proth>(ck, "stark field");
    conv::<F97>(ck, "F97");
    let m = u64::MAX;
    fn around(p: &Big) -> Vec<U256> {
        let mut v = vec![];
        for k in 1..=31_u64 {
            for d in 0..=4_u64 {
                let x = p.mul(&Big::from_u64(k)).add(&Big::from_u64(d)).sub(&Big::from_u64(2));
                if x.bits() <= 256 {
                    v.push(u(x.low4()));
                }
            }
        }
        v
    }
    let pl = b(&FieldElement::modulus());
    let mut g = grid(&[0, 1, m, pl.low4()[3], pl.low4()[3] - 1]);
    for i in 0..256 {
        g.push(u(Big::pow2(i).low4()));
        g.push(u(Big::pow2(i).sub(&Big::one()).low4()));
    }
    g.extend(around(&pl));
    // negatives of the small integers
    for i in [1_u64, 2, 3, 255, 1 << 31, 1 << 32, 1 << 62, 1 << 63, m] {
        g.push(u(pl.sub(&Big::from_u64(i)).low4()));
        g.push(u(pl.sub(&Big::from_u64(i)).sub(&Big::pow2(126)).low4()));
    }
    g.push(u(pl.sub(&Big::pow2(127)).low4()));
    g.push(u(pl.sub(&Big::pow2(127).sub(&Big::one())).low4()));
    g.push(u(pl.sub(&Big::pow2(63)).low4()));
    g.push(u(pl.sub(&Big::pow2(63)).sub(&Big::one()).low4()));
    decode31::<Proth>(ck, "stark field", &g);
    let po = b(&PrimeField::<Order>::modulus());
    let mut g2 = grid(&[0, 1, m, po.low4()[3], po.low4()[3] - 1]);
    g2.extend(around(&po));
    decode31::<Order>(ck, "scalar field", &g2);
    decode31::<F97>(ck, "F97", &(0..400_u64).map(U256::from).collect::<Vec<_>>());
    // sampling
    let ws = [0_u64, m, FieldElement::modulus().limb(3), FieldElement::modulus().limb(3) << 1, 1 << 59, 1];
    let mut scripts: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..4 {
        let mut nx = vec![];
        for s in &scripts {
            for w in ws {
                let mut t = s.clone();
                t.push(w);
                nx.push(t);
            }
        }
        scripts = nx;
    }
    let both: Vec<(Vec<u64>, u64)> = scripts.iter().flat_map(|s| ws.iter().map(move |w| (s.clone(), *w))).collect();
    ck.par(&both, |ck, (s, w)| {
        ck.case(hw(&[hw(s), *w]), 1, || format!("sample script={:x?} then {:x}", s, w), || {
            use rand::Rng;
            let mut words = s.clone();
            words.extend([*w; 4]);
            let mut r = Script { words, at: 0 };
            let x: FieldElement = r.gen();
            if !b(x.as_montgomery()).lt(&b(&FieldElement::modulus())) {
                return Err("sample not canonical".into());
            }
            eq!("draws", r.at >= 4 && r.at % 4 == 0, true);
            let mut r2 = Script { words: r.words.clone(), at: 0 };
            let y: FieldElement = r2.gen();
            eq!("deterministic", x, y);
            Ok(())
        });
    });
}

#[allow(dead_code)]
fn unused() {
    let _ = U256::zero().most_significant_bit();
}
