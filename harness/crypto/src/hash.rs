//! C17: the hash of a value is a fixed function of its content.
use vcommon::keccak::{keccak256, masked};
use vcommon::{hs, hw, Ck, Def};
use zkp_hash::{Hash, Hashable, MaskedKeccak};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

pub const C17: Def = Def {
    prop: "C17",
    level: "model_checking",
    rule: "messages of every length 0..=420 (thorough 700) at every split into two updates and every three-way split of the lengths around the 136-byte block, messages to 1 MB in parts of 1 to 4096 bytes, hashed incrementally and compared with a Keccak-256 written from the specification; U256/FieldElement boundary values; vectors, slices, references and nested vectors of every length 0..=20 (0..=70) and some to 16384",
    run,
};
fn msg(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 131 + n * 7 + 3) as u8).collect()
}
fn same(what: &str, got: &Hash, want: &[u8; 32]) -> Result<(), String> {
    if got.as_bytes() == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?} want {}", what, got, hex::encode(want)))
    }
}
pub fn u256_values() -> Vec<U256> {
    let lim = [0_u64, 1, 2, 1 << 63, u64::MAX, 0x0123_4567_89ab_cdef];
    let mut v = vec![];
    for a in lim {
        for b in lim {
            for c in lim {
                for d in lim {
                    v.push(U256::from_limbs([a, b, c, d]));
                }
            }
        }
    }
    v
}
fn be(u: &U256) -> [u8; 32] {
    let mut o = [0; 32];
    let l = u.as_limbs();
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    o
}
/// reference hash of a list of element hashes
pub fn rlist(hs: &[[u8; 32]]) -> [u8; 32] {
    if hs.len() == 1 {
        hs[0]
    } else {
        masked(&hs.concat())
    }
}
/// reference hash of a field element with canonical value `v`: v * 2^256 mod p, big endian
pub fn rfield(v: &vcommon::big::Big) -> [u8; 32] {
    use vcommon::big::Big;
    // p = 2^251 + 17 * 2^192 + 1, from its definition
    let p = Big::pow2(251).add(&Big::pow2(192).mul(&Big::from_u64(17))).add(&Big::one());
    let m = v.mul(&Big::pow2(256)).divrem(&p).1;
    be(&U256::from_limbs(m.low4()))
}
fn run(ck: &mut Ck) {
    let max = ck.b(420, 700);
    let lens: Vec<usize> = (0..=max).collect();
    ck.par(&lens, |ck, &n| {
        let m = msg(n);
        let want = masked(&m);
        if want[..20] != keccak256(&m)[..20] {
            ck.fail("reference".into(), "reference broken".into());
        }
        for i in 0..=n {
            ck.case(hw(&[1, n as u64, i as u64]), 3, || format!("masked keccak len {} split {}", n, i), || {
                let mut h = MaskedKeccak::new();
                h.update(&m[..i]);
                h.update(&m[i..]);
                same("split", &h.hash(), &want)
            });
        }
        if n % 136 <= 2 || n % 136 >= 134 || n < 12 {
            for i in 0..=n {
                for j in (i..=n).filter(|j| n < 30 || (j - i) < 3 || j % 17 == 0) {
                    ck.case(hw(&[2, n as u64, i as u64, j as u64]), 4, || format!("masked keccak len {} splits {} {}", n, i, j), || {
                        let mut h = MaskedKeccak::default();
                        h.update(&m[..i]);
                        h.update(&m[i..j]);
                        h.update(&m[j..]);
                        same("split3", &h.hash(), &want)
                    });
                }
            }
        }
    });
    // long messages, in two parts and in many small ones
    for n in [1000_usize, 1023, 1024, 1025, 1087, 1088, 1089, 2047, 2048, 4095, 4096, 4097, 8192, 16385, 65535, 65536, 65537, 1 << 18, (1 << 20) + 1] {
        let m = msg(n);
        let want = masked(&m);
        for part in [1_usize, 7, 32, 33, 135, 136, 137, 256, 1000, 4096, n] {
            if n / part > 70_000 {
                continue;
            }
            ck.case(hw(&[11, n as u64, part as u64]), (n / part) as u64, || format!("masked keccak len {} in parts of {}", n, part), || {
                let mut h = MaskedKeccak::new();
                for c in m.chunks(part) {
                    h.update(c);
                }
                same("parts", &h.hash(), &want)
            });
        }
        for i in [1_usize, 31, 32, 64, 136, 255, 512, n / 2, n - 136, n - 32, n - 1] {
            ck.case(hw(&[12, n as u64, i as u64]), 3, || format!("masked keccak len {} split {}", n, i), || {
                let mut h = MaskedKeccak::new();
                h.update(&m[..i]);
                h.update(&m[i..]);
                same("split", &h.hash(), &want)
            });
        }
    }
    let us = u256_values();
    let modulus = U256::from_limbs([1, 0, 0, 0x0800_0000_0000_0011]);
    for u in &us {
        ck.case(hw(&[3, hs(&format!("{:?}", u))]), 4, || format!("u256 {:?}", u), || {
            same("u256", &u.hash(), &be(u))?;
            same("&u256", &Hashable::hash(&u), &be(u))?;
            same("&&u256", &Hashable::hash(&&u), &be(u))?;
            let h = Hash::new(be(u));
            same("hash of hash", &Hashable::hash(&h), &be(u))?;
            if h.as_bytes() != &be(u)[..] || h != Hash::new(be(u)) {
                return Err("Hash accessor".into());
            }
            if u < &modulus {
                let f = FieldElement::from(u.clone());
                let big = vcommon::big::Big::from_limbs(u.as_limbs());
                same("field", &f.hash(), &rfield(&big))?;
                same("&field", &Hashable::hash(&&f), &rfield(&big))?;
            }
            Ok(())
        });
    }
    let maxl = ck.b(20_usize, 70);
    for n in (0..=maxl).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097, 16384]) {
        for base in 0..if n > maxl { 1 } else { 4_usize } {
            ck.case(hw(&[4, n as u64, base as u64]), 6, || format!("list of {} from {}", n, base), || {
                let v: Vec<U256> = (0..n).map(|i| us[(i * 37 + base * 311) % us.len()].clone()).collect();
                let hv: Vec<[u8; 32]> = v.iter().map(be).collect();
                let want = rlist(&hv);
                same("vec", &v.hash(), &want)?;
                same("slice", &v.as_slice().hash(), &want)?;
                same("&vec", &Hashable::hash(&&v), &want)?;
                let refs: Vec<&U256> = v.iter().collect();
                same("vec of refs", &refs.hash(), &want)?;
                let hashes: Vec<Hash> = hv.iter().map(|h| Hash::new(*h)).collect();
                same("vec of hashes", &hashes.hash(), &want)?;
                let bigs: Vec<vcommon::big::Big> = v.iter().map(|u| vcommon::big::Big::from_limbs(u.as_limbs()).low_bits(250)).collect();
                let fs: Vec<FieldElement> = bigs.iter().map(|u| FieldElement::from(U256::from_limbs(u.low4()))).collect();
                let fh: Vec<[u8; 32]> = bigs.iter().map(rfield).collect();
                same("vec of field elements", &fs.hash(), &rlist(&fh))?;
                // nested: every split of the list into rows of equal width
                for w in (1..=n).filter(|w| n <= maxl || w.is_power_of_two()) {
                    let rows: Vec<Vec<U256>> = v.chunks(w).map(|c| c.to_vec()).collect();
                    let rh: Vec<[u8; 32]> = hv.chunks(w).map(rlist).collect();
                    same("nested", &rows.hash(), &rlist(&rh))?;
                }
                Ok(())
            });
        }
    }
}
