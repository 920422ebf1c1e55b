//! 256-bit words with the semantics of the Ethereum virtual machine.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct W(pub [u64; 4]);

impl std::fmt::Debug for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", hex::encode(self.be()).trim_start_matches('0'))
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl W {
    pub const ZERO: W = W([0; 4]);
    pub const ONE: W = W([1, 0, 0, 0]);
    pub const MAX: W = W([u64::MAX; 4]);
    pub fn u(x: u64) -> W {
        W([x, 0, 0, 0])
    }
    pub fn b(x: bool) -> W {
        W::u(u64::from(x))
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    /// as a small number, if it is one
    pub fn small(&self) -> Option<u64> {
        if self.0[1..] == [0; 3] {
            Some(self.0[0])
        } else {
            None
        }
    }
    pub fn be(&self) -> [u8; 32] {
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        o
    }
    pub fn from_be(b: &[u8]) -> W {
        let mut t = [0; 32];
        t[32 - b.len()..].copy_from_slice(b);
        let mut o = [0; 4];
        for i in 0..4 {
            o[3 - i] = u64::from_be_bytes(t[8 * i..8 * i + 8].try_into().unwrap());
        }
        W(o)
    }
    pub fn hex(s: &str) -> W {
        let s = s.trim_start_matches("0x");
        let mut s = s.to_string();
        if s.len() % 2 == 1 {
            s.insert(0, '0');
        }
        W::from_be(&hex::decode(s).unwrap())
    }
    pub fn carry_add(self, o: W) -> (W, bool) {
        let mut r = [0; 4];
        let mut c = 0_u128;
        for i in 0..4 {
            let t = u128::from(self.0[i]) + u128::from(o.0[i]) + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        (W(r), c > 0)
    }
    pub fn add(self, o: W) -> W {
        self.carry_add(o).0
    }
    pub fn not(self) -> W {
        W([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
    pub fn neg(self) -> W {
        self.not().add(W::ONE)
    }
    pub fn sub(self, o: W) -> W {
        self.add(o.neg())
    }
    pub fn and(self, o: W) -> W {
        W([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]])
    }
    pub fn or(self, o: W) -> W {
        W([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }
    pub fn xor(self, o: W) -> W {
        W([self.0[0] ^ o.0[0], self.0[1] ^ o.0[1], self.0[2] ^ o.0[2], self.0[3] ^ o.0[3]])
    }
    fn full_mul(self, o: W) -> [u64; 8] {
        let mut r = [0_u64; 8];
        for i in 0..4 {
            let mut c = 0_u128;
            for j in 0..4 {
                let t = u128::from(self.0[i]) * u128::from(o.0[j]) + u128::from(r[i + j]) + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + 4] = c as u64;
        }
        r
    }
    pub fn mul(self, o: W) -> W {
        let r = self.full_mul(o);
        W([r[0], r[1], r[2], r[3]])
    }
    pub fn bits(&self) -> usize {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return 64 * i + 64 - self.0[i].leading_zeros() as usize;
            }
        }
        0
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn shl(self, n: W) -> W {
        let Some(n) = n.small().filter(|n| *n < 256) else { return W::ZERO };
        let (q, r) = ((n / 64) as usize, n % 64);
        let mut o = [0; 4];
        for i in q..4 {
            o[i] = self.0[i - q] << r;
            if r > 0 && i > q {
                o[i] |= self.0[i - q - 1] >> (64 - r);
            }
        }
        W(o)
    }
    pub fn shr(self, n: W) -> W {
        let Some(n) = n.small().filter(|n| *n < 256) else { return W::ZERO };
        let (q, r) = ((n / 64) as usize, n % 64);
        let mut o = [0; 4];
        for i in 0..4 - q {
            o[i] = self.0[i + q] >> r;
            if r > 0 && i + q + 1 < 4 {
                o[i] |= self.0[i + q + 1] << (64 - r);
            }
        }
        W(o)
    }
    /// division with remainder by zero gives zeros
    pub fn divrem(self, d: W) -> (W, W) {
        if d.is_zero() {
            return (W::ZERO, W::ZERO);
        }
        if let (Some(a), Some(b)) = (self.small(), d.small()) {
            return (W::u(a / b), W::u(a % b));
        }
        let (mut q, mut r) = (W::ZERO, W::ZERO);
        for i in (0..self.bits()).rev() {
            // d may use all 256 bits
            let top = r.bit(255);
            r = r.shl(W::ONE);
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if top || r >= d {
                r = r.sub(d);
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn addmod(self, o: W, m: W) -> W {
        let (s, c) = self.carry_add(o);
        if !c && s < m {
            return s;
        }
        reduce([s.0[0], s.0[1], s.0[2], s.0[3], u64::from(c), 0, 0, 0], m)
    }
    pub fn mulmod(self, o: W, m: W) -> W {
        reduce(self.full_mul(o), m)
    }
    pub fn powmod(self, e: W, m: W) -> W {
        let mut r = reduce([1, 0, 0, 0, 0, 0, 0, 0], m);
        for i in (0..e.bits()).rev() {
            r = r.mulmod(r, m);
            if e.bit(i) {
                r = r.mulmod(self, m);
            }
        }
        r
    }
    /// wrapping power
    pub fn pow(self, e: W) -> W {
        let mut r = W::ONE;
        for i in (0..e.bits()).rev() {
            r = r.mul(r);
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
}
/// remainder of a 512-bit number, schoolbook long division with normalised 64-bit digits
fn reduce(x: [u64; 8], m: W) -> W {
    if m.is_zero() {
        return W::ZERO;
    }
    let n = (m.bits() + 63) / 64;
    if n == 1 {
        let d = u128::from(m.0[0]);
        let mut r = 0_u128;
        for i in (0..8).rev() {
            r = ((r << 64) | u128::from(x[i])) % d;
        }
        return W::u(r as u64);
    }
    let s = (64 * n - m.bits()) as u32;
    let shl = |lo: u64, hi: u64| if s == 0 { hi } else { hi << s | lo >> (64 - s) };
    let mut v = [0_u64; 4];
    for i in 0..n {
        v[i] = shl(if i > 0 { m.0[i - 1] } else { 0 }, m.0[i]);
    }
    let mut u = [0_u64; 9];
    for i in 0..9 {
        u[i] = shl(if i > 0 { x[i - 1] } else { 0 }, if i < 8 { x[i] } else { 0 });
    }
    for j in (0..=8 - n).rev() {
        let top = u128::from(u[j + n]) << 64 | u128::from(u[j + n - 1]);
        let mut q = top / u128::from(v[n - 1]);
        let mut r = top % u128::from(v[n - 1]);
        while q >> 64 != 0 || q * u128::from(v[n - 2]) > (r << 64 | u128::from(u[j + n - 2])) {
            q -= 1;
            r += u128::from(v[n - 1]);
            if r >> 64 != 0 {
                break;
            }
        }
        let mut borrow = 0_i128;
        let mut c = 0_u128;
        for i in 0..n {
            let p = q * u128::from(v[i]) + c;
            c = p >> 64;
            let t = i128::from(u[i + j]) - i128::from(p as u64) + borrow;
            u[i + j] = t as u64;
            borrow = t >> 64;
        }
        let t = i128::from(u[j + n]) - c as i128 + borrow;
        u[j + n] = t as u64;
        if t < 0 {
            let mut c = 0_u128;
            for i in 0..n {
                let t = u128::from(u[i + j]) + u128::from(v[i]) + c;
                u[i + j] = t as u64;
                c = t >> 64;
            }
            u[j + n] = u[j + n].wrapping_add(c as u64);
        }
    }
    let mut o = [0; 4];
    for i in 0..n {
        o[i] = if s == 0 { u[i] } else { u[i] >> s | u[i + 1] << (64 - s) };
    }
    if s > 0 {
        // the digit above is zero
        o[n - 1] = u[n - 1] >> s;
    }
    W(o)
}
/// compared with the schoolbook numbers on every pair and triple of boundary values
pub fn self_check() {
    use vcommon::big::Big;
    let mut v = vec![];
    for i in [0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 191, 192, 251, 254, 255] {
        let p = W::ONE.shl(W::u(i));
        v.extend([p, p.sub(W::ONE), p.add(W::ONE), p.neg()]);
    }
    v.push(W::hex("0800000000000011000000000000000000000000000000000000000000000001"));
    v.push(W::hex("07fffffffffffdf0ffffffffffffffffffffffffffffffffffffffffffffffe1"));
    v.sort();
    v.dedup();
    let b = |w: &W| Big::from_limbs(&w.0);
    for x in &v {
        for y in &v {
            let (p, q) = (b(x), b(y));
            assert_eq!(b(&x.add(*y)), p.add(&q).low_bits(256));
            assert_eq!(b(&x.mul(*y)), p.mul(&q).low_bits(256));
            assert_eq!(b(&x.sub(*y)), p.add(&Big::pow2(256)).sub(&q).low_bits(256));
            if !y.is_zero() {
                let (d, r) = p.divrem(&q);
                assert_eq!((b(&x.divrem(*y).0), b(&x.divrem(*y).1)), (d, r));
            }
            for m in v.iter().step_by(3) {
                if !m.is_zero() {
                    assert_eq!(b(&x.mulmod(*y, *m)), p.mulmod(&q, &b(m)), "{:?} {:?} {:?}", x, y, m);
                    assert_eq!(b(&x.addmod(*y, *m)), p.add(&q).rem(&b(m)));
                }
            }
        }
        for n in 0..260 {
            assert_eq!(b(&x.shl(W::u(n))), b(x).shl(n as usize).low_bits(256));
            assert_eq!(b(&x.shr(W::u(n))), b(x).shr(n as usize));
        }
    }
}
