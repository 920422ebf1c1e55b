//! Boring schoolbook natural numbers: the reference for every fixed-width arithmetic check.
//! Little-endian base 2^32 digits, no leading zero digits, no clever algorithm anywhere.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Big(pub Vec<u32>);

impl Big {
    pub fn zero() -> Big {
        Big(vec![])
    }
    pub fn one() -> Big {
        Big(vec![1])
    }
    fn norm(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_u64(x: u64) -> Big {
        Big(vec![x as u32, (x >> 32) as u32]).norm()
    }
    pub fn from_u128(x: u128) -> Big {
        Big::from_limbs(&[x as u64, (x >> 64) as u64])
    }
    pub fn from_limbs(l: &[u64]) -> Big {
        let mut v = vec![];
        for x in l {
            v.push(*x as u32);
            v.push((*x >> 32) as u32);
        }
        Big(v).norm()
    }
    pub fn limbs4(&self) -> Option<[u64; 4]> {
        if self.0.len() > 8 {
            return None;
        }
        let mut r = [0_u64; 4];
        for (i, d) in self.0.iter().enumerate() {
            r[i / 2] |= u64::from(*d) << (32 * (i % 2));
        }
        Some(r)
    }
    pub fn low4(&self) -> [u64; 4] {
        self.low_bits(256).limbs4().unwrap()
    }
    pub fn low_bits(&self, n: usize) -> Big {
        let mut v = vec![0_u32; self.0.len()];
        for i in 0..n.min(self.0.len() * 32) {
            if self.bit(i) {
                v[i / 32] |= 1 << (i % 32);
            }
        }
        Big(v).norm()
    }
    pub fn pow2(n: usize) -> Big {
        Big::one().shl(n)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).map_or(false, |d| d >> (i % 32) & 1 == 1)
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(d) => self.0.len() * 32 - d.leading_zeros() as usize,
        }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    pub fn lt(&self, o: &Big) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0_u64;
        for i in 0..n {
            c += u64::from(*self.0.get(i).unwrap_or(&0)) + u64::from(*o.0.get(i).unwrap_or(&0));
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Big(v).norm()
    }
    /// requires self >= o
    pub fn sub(&self, o: &Big) -> Big {
        assert!(!self.lt(o));
        let mut v = Vec::with_capacity(self.0.len());
        let mut borrow = 0_i64;
        for i in 0..self.0.len() {
            let mut d = i64::from(self.0[i]) - i64::from(*o.0.get(i).unwrap_or(&0)) - borrow;
            borrow = 0;
            if d < 0 {
                d += 1 << 32;
                borrow = 1;
            }
            v.push(d as u32);
        }
        Big(v).norm()
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0_u32; self.0.len() + o.0.len() + 1];
        for i in 0..self.0.len() {
            let mut c = 0_u64;
            for j in 0..o.0.len() {
                c += u64::from(v[i + j]) + u64::from(self.0[i]) * u64::from(o.0[j]);
                v[i + j] = c as u32;
                c >>= 32;
            }
            let mut k = i + o.0.len();
            while c > 0 {
                c += u64::from(v[k]);
                v[k] = c as u32;
                c >>= 32;
                k += 1;
            }
        }
        Big(v).norm()
    }
    pub fn shl(&self, n: usize) -> Big {
        let mut v = vec![0_u32; n / 32];
        let s = n % 32;
        let mut c = 0_u64;
        for d in &self.0 {
            let x = (u64::from(*d) << s) | c;
            v.push(x as u32);
            c = x >> 32;
        }
        v.push(c as u32);
        Big(v).norm()
    }
    pub fn shr(&self, n: usize) -> Big {
        let mut v = vec![];
        let bits = self.bits();
        let mut i = n;
        let mut k = 0;
        while i < bits {
            if k % 32 == 0 {
                v.push(0_u32);
            }
            if self.bit(i) {
                *v.last_mut().unwrap() |= 1 << (k % 32);
            }
            i += 1;
            k += 1;
        }
        Big(v).norm()
    }
    /// Restoring long division, one bit at a time.
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        let mut q = vec![0_u32; self.0.len()];
        let mut r = Big::zero();
        for i in (0..self.bits()).rev() {
            // r = 2 r + bit
            let mut c = u32::from(self.bit(i));
            for x in r.0.iter_mut() {
                let n = *x >> 31;
                *x = (*x << 1) | c;
                c = n;
            }
            if c > 0 {
                r.0.push(c);
            }
            if !r.lt(d) {
                r = r.sub(d);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (Big(q).norm(), r)
    }
    pub fn rem(&self, d: &Big) -> Big {
        self.divrem(d).1
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn addmod(&self, o: &Big, m: &Big) -> Big {
        self.add(o).rem(m)
    }
    pub fn submod(&self, o: &Big, m: &Big) -> Big {
        self.rem(m).add(m).sub(&o.rem(m)).rem(m)
    }
    pub fn mulmod(&self, o: &Big, m: &Big) -> Big {
        self.mul(o).rem(m)
    }
    pub fn powmod(&self, e: &Big, m: &Big) -> Big {
        let mut r = Big::one().rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulmod(&r, m);
            if e.bit(i) {
                r = r.mulmod(self, m);
            }
        }
        r
    }
    pub fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let ten9 = Big::from_u64(1_000_000_000);
        let mut parts = vec![];
        let mut a = self.clone();
        while !a.is_zero() {
            let (q, r) = a.divrem(&ten9);
            parts.push(*r.0.first().unwrap_or(&0));
            a = q;
        }
        let mut s = format!("{}", parts.pop().unwrap());
        while let Some(p) = parts.pop() {
            s.push_str(&format!("{:09}", p));
        }
        s
    }
    pub fn from_dec(s: &str) -> Big {
        let mut r = Big::zero();
        let ten = Big::from_u64(10);
        for c in s.bytes() {
            r = r.mul(&ten).add(&Big::from_u64(u64::from(c - b'0')));
        }
        r
    }
    pub fn be32(&self) -> [u8; 32] {
        let l = self.limbs4().unwrap();
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
        }
        o
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for d in self.0.iter().rev() {
            s.push_str(&format!("{:08x}", d));
        }
        s
    }
}
