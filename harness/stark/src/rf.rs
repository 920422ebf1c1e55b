//! Reference arithmetic of the field of p = 2^251 + 17*2^192 + 1 elements, written from the
//! definition (schoolbook Montgomery product, naive inverse by Fermat, recursive FFT); it shares no
//! code with /repo.  Checked against arbitrary-precision arithmetic by `self_check`.
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub};
use std::sync::OnceLock;
use vcommon::big::Big;
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub const P: [u64; 4] = [1, 0, 0, 0x0800_0000_0000_0011];

/// Montgomery form (value * 2^256 mod p), little-endian limbs, always < p
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Fe(pub [u64; 4]);

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut borrow = 0_u64;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(borrow);
        r[i] = x;
        borrow = u64::from(b1 || b2);
    }
    r
}
fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut c = 0_u128;
    for i in 0..4 {
        c += u128::from(a[i]) + u128::from(b[i]);
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
impl Add for Fe {
    type Output = Fe;
    fn add(self, o: Fe) -> Fe {
        // both < p < 2^252, no carry out
        let s = add4(&self.0, &o.0);
        Fe(if geq(&s, &P) { sub4(&s, &P) } else { s })
    }
}
impl Sub for Fe {
    type Output = Fe;
    fn sub(self, o: Fe) -> Fe {
        if geq(&self.0, &o.0) {
            Fe(sub4(&self.0, &o.0))
        } else {
            Fe(sub4(&add4(&self.0, &P), &o.0))
        }
    }
}
impl Neg for Fe {
    type Output = Fe;
    fn neg(self) -> Fe {
        Fe([0; 4]) - self
    }
}
impl Mul for Fe {
    type Output = Fe;
    fn mul(self, o: Fe) -> Fe {
        let mut t = [0_u64; 9];
        for i in 0..4 {
            let mut c = 0_u128;
            for j in 0..4 {
                c += u128::from(t[i + j]) + u128::from(self.0[i]) * u128::from(o.0[j]);
                t[i + j] = c as u64;
                c >>= 64;
            }
            t[i + 4] = c as u64;
        }
        // reduce: p = 1 mod 2^64, so -1/p mod 2^64 = -1
        for i in 0..4 {
            let m = t[i].wrapping_neg();
            let mut c = 0_u128;
            for j in 0..4 {
                c += u128::from(t[i + j]) + u128::from(m) * u128::from(P[j]);
                t[i + j] = c as u64;
                c >>= 64;
            }
            for k in i + 4..9 {
                c += u128::from(t[k]);
                t[k] = c as u64;
                c >>= 64;
            }
        }
        let r = [t[4], t[5], t[6], t[7]];
        Fe(if geq(&r, &P) { sub4(&r, &P) } else { r })
    }
}
impl AddAssign for Fe {
    fn add_assign(&mut self, o: Fe) {
        *self = *self + o
    }
}
impl MulAssign for Fe {
    fn mul_assign(&mut self, o: Fe) {
        *self = *self * o
    }
}
fn p_big() -> Big {
    Big::pow2(251).add(&Big::pow2(192).mul(&Big::from_u64(17))).add(&Big::one())
}
struct Consts {
    one: Fe,
    r2: Fe,
}
fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let p = p_big();
        Consts {
            one: Fe(Big::pow2(256).rem(&p).low4()),
            r2: Fe(Big::pow2(512).rem(&p).low4()),
        }
    })
}
impl Fe {
    pub const ZERO: Fe = Fe([0; 4]);
    pub fn one() -> Fe {
        consts().one
    }
    pub fn int(n: u64) -> Fe {
        Fe([n, 0, 0, 0]) * consts().r2
    }
    pub fn sint(n: i64) -> Fe {
        if n < 0 {
            -Fe::int(n.unsigned_abs())
        } else {
            Fe::int(n as u64)
        }
    }
    pub fn pow(self, mut e: u64) -> Fe {
        let mut r = Fe::one();
        let mut b = self;
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
    pub fn pow_big(self, e: &Big) -> Fe {
        let mut r = Fe::one();
        for i in (0..e.bits()).rev() {
            r *= r;
            if e.bit(i) {
                r *= self;
            }
        }
        r
    }
    pub fn inv(self) -> Fe {
        assert!(self != Fe::ZERO, "reference: division by zero");
        static E: OnceLock<Big> = OnceLock::new();
        self.pow_big(E.get_or_init(|| p_big().sub(&Big::from_u64(2))))
    }
    /// big-endian bytes of the Montgomery form: the encoding used in proofs and hashes
    pub fn bytes(&self) -> [u8; 32] {
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        o
    }
    /// the same, but only if canonical
    pub fn from_bytes(b: &[u8]) -> Option<Fe> {
        let mut l = [0; 4];
        for i in 0..4 {
            let mut w = [0; 8];
            w.copy_from_slice(&b[8 * i..8 * i + 8]);
            l[3 - i] = u64::from_be_bytes(w);
        }
        if geq(&l, &P) {
            None
        } else {
            Some(Fe(l))
        }
    }
    pub fn of(f: &FieldElement) -> Fe {
        let l = f.as_montgomery().as_limbs();
        Fe([l[0], l[1], l[2], l[3]])
    }
    pub fn fe(&self) -> FieldElement {
        FieldElement::from_montgomery(U256::from_limbs(self.0))
    }
    /// canonical primitive root: 3^((p-1)/n)
    pub fn root(n: usize) -> Fe {
        assert!(n.is_power_of_two());
        let e = p_big().sub(&Big::one()).shr(n.trailing_zeros() as usize);
        Fe::int(3).pow_big(&e)
    }
}
pub fn batch_inv(v: &[Fe]) -> Vec<Fe> {
    let mut pre = Vec::with_capacity(v.len());
    let mut acc = Fe::one();
    for x in v {
        assert!(*x != Fe::ZERO, "reference: division by zero");
        pre.push(acc);
        acc *= *x;
    }
    let mut inv = if v.is_empty() { acc } else { acc.inv() };
    let mut out = vec![Fe::ZERO; v.len()];
    for i in (0..v.len()).rev() {
        out[i] = inv * pre[i];
        inv *= v[i];
    }
    out
}
pub fn powers(base: Fe, step: Fe, n: usize) -> Vec<Fe> {
    let mut v = Vec::with_capacity(n);
    let mut x = base;
    for _ in 0..n {
        v.push(x);
        x *= step;
    }
    v
}
fn fft_rec(a: &[Fe], stride: usize, n: usize, w: &[Fe], wstride: usize) -> Vec<Fe> {
    if n == 1 {
        return vec![a[0]];
    }
    let e = fft_rec(a, stride * 2, n / 2, w, wstride * 2);
    let o = fft_rec(&a[stride..], stride * 2, n / 2, w, wstride * 2);
    let mut r = vec![Fe::ZERO; n];
    for i in 0..n / 2 {
        let t = o[i] * w[i * wstride];
        r[i] = e[i] + t;
        r[i + n / 2] = e[i] - t;
    }
    r
}
/// values at shift * root(n)^i, natural order; `coeffs` may be shorter than n
pub fn evaluate(coeffs: &[Fe], shift: Fe, n: usize) -> Vec<Fe> {
    let mut a = vec![Fe::ZERO; n];
    let mut s = Fe::one();
    for (i, c) in coeffs.iter().enumerate() {
        a[i % n] = a[i % n] + *c * s;
        s *= shift;
    }
    let w = powers(Fe::one(), Fe::root(n), (n / 2).max(1));
    fft_rec(&a, 1, n, &w, 1)
}
/// coefficients of the polynomial of degree < n with the given values at shift * root(n)^i
pub fn interpolate(values: &[Fe], shift: Fe) -> Vec<Fe> {
    let n = values.len();
    let w = powers(Fe::one(), Fe::root(n).inv(), (n / 2).max(1));
    let mut a = fft_rec(values, 1, n, &w, 1);
    let ninv = Fe::int(n as u64).inv();
    let sinv = shift.inv();
    let mut f = ninv;
    for x in &mut a {
        *x *= f;
        f *= sinv;
    }
    a
}
pub fn horner(c: &[Fe], x: Fe) -> Fe {
    let mut r = Fe::ZERO;
    for k in c.iter().rev() {
        r = r * x + *k;
    }
    r
}
pub fn bitrev(n: usize, i: usize) -> usize {
    let bits = n.trailing_zeros();
    let mut r = 0;
    for b in 0..bits {
        if i >> b & 1 == 1 {
            r |= 1 << (bits - 1 - b);
        }
    }
    r
}
pub fn permuted(v: &[Fe]) -> Vec<Fe> {
    (0..v.len()).map(|i| v[bitrev(v.len(), i)]).collect()
}
pub fn self_check() {
    let p = p_big();
    assert_eq!(p.low4(), P);
    let vals: Vec<Big> = vec![
        Big::zero(),
        Big::one(),
        Big::from_u64(3),
        p.sub(&Big::one()),
        Big::pow2(251),
        Big::pow2(192).sub(&Big::one()),
        Big::pow2(128).add(&Big::from_u64(0x1234_5678_9abc_def1)),
        p.sub(&Big::pow2(64)),
        p.shr(1),
    ];
    let r = Big::pow2(256);
    let m = |v: &Big| Fe(v.mul(&r).rem(&p).low4());
    for a in &vals {
        for b in &vals {
            assert_eq!(m(a) * m(b), m(&a.mulmod(b, &p)));
            assert_eq!(m(a) + m(b), m(&a.addmod(b, &p)));
            assert_eq!(m(a) - m(b), m(&a.submod(b, &p)));
        }
        if !a.is_zero() {
            assert_eq!(m(a) * m(a).inv(), Fe::one());
        }
    }
    for n in [1_usize, 2, 8, 64] {
        let c: Vec<Fe> = (0..n as u64).map(|i| Fe::int(i * i + 5)).collect();
        let v = evaluate(&c, Fe::int(3), n);
        let g = Fe::root(n);
        for i in 0..n {
            assert_eq!(v[i], horner(&c, Fe::int(3) * g.pow(i as u64)));
        }
        assert_eq!(interpolate(&v, Fe::int(3)), c);
    }
}
