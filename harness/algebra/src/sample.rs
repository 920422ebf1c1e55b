//! C37: random integers and field elements, over every outcome of the source of randomness.
use crate::fields::*;
use crate::u256::b;
use rand::distributions::uniform::{SampleUniform, UniformSampler};
use rand::distributions::Distribution;
use rand::{Rng, RngCore};
use vcommon::big::Big;
use vcommon::{hw, Ck, Def};
use zkp_primefield::{FieldElement, Parameters, PrimeField};
use zkp_u256::U256;

/// Plays back a script of words; remembers when the script was not enough.
struct Script<'a> {
    words: &'a [u64],
    at: usize,
}
struct Exhausted;
fn ub(x: &Big) -> U256 {
    U256::from_limbs(x.limbs4().expect("fits"))
}
impl RngCore for Script<'_> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let w = match self.words.get(self.at) {
            Some(w) => *w,
            None => std::panic::resume_unwind(Box::new(Exhausted)),
        };
        self.at += 1;
        w
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// the sampled value and the number of words used, or None if all words were refused
fn play<T>(words: &[u64], f: impl FnOnce(&mut Script<'_>) -> T) -> Result<Option<(T, usize)>, String> {
    let mut s = Script { words, at: 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let x = f(&mut s);
        (x, s.at)
    }));
    match r {
        Ok(x) => Ok(Some(x)),
        Err(e) if e.is::<Exhausted>() => Ok(None),
        Err(_) => Err("panicked".into()),
    }
}
type Sampler = <U256 as SampleUniform>::Sampler;
fn sampler(low: &U256, last: &U256, kind: usize) -> Sampler {
    let end = || ub(&b(last).add(&Big::one()));
    match kind {
        0 => Sampler::new(low, &end()),
        1 => Sampler::new(low.clone(), end()),
        2 => Sampler::new_inclusive(low, last),
        _ => Sampler::new_inclusive(low.clone(), last.clone()),
    }
}
/// every residue of small numbers of bits, repeated to fill the words
fn rep(bits: usize, v: u64) -> u64 {
    (0..64 / bits).fold(0, |a, i| a | v << (i * bits))
}

pub const C37: Def = Def {
    prop: "C37",
    level: "model_checking",
    rule: "the source of randomness is replaced by every stream of words: for every range of up to 40 (thorough 127) values at every corner of the 256-bit integers, half open and inclusive, every repeated 8-bit word pattern (every outcome of the leading or trailing bits), every pair of patterns for two draws in a row and every number 0..3 of refused words before; every value of the range must be returned by the same number of streams, no other value ever; ranges with 2^k-1, 2^k, 2^k+1 values for every k over corner words incl. the words that yield the first and last value; the full range; field elements of small fields over every pattern (all residues equally often) and of the 251-bit field over corner words",
    run,
};
fn fits(low: &Big, n: &Big) -> bool {
    // the last value is below 2^256
    !Big::pow2(256).lt(&low.add(n))
}
fn run(ck: &mut Ck) {
    let top = Big::pow2(256);
    let maxn = ck.b(40_u64, 127);
    let mut lows = vec![Big::from_u64(0_u64), Big::from_u64(1_u64), Big::from_u64(100_u64)];
    for k in [63, 64, 128, 192, 255] {
        lows.push(Big::pow2(k));
        lows.push(Big::pow2(k).sub(&Big::from_u64(1_u64)));
    }
    let mut jobs = vec![];
    for n in 1..=maxn {
        let mut l = lows.clone();
        l.push(top.sub(&Big::from_u64(n)));
        l.push(top.sub(&Big::from_u64(n + 1)));
        for low in l {
            for kind in 0..4 {
                // the end of a half-open range has to be an integer too
                if kind < 2 && !low.add(&Big::from_u64(n)).lt(&top) {
                    continue;
                }
                jobs.push((low.clone(), n, kind));
            }
        }
    }
    let pats: Vec<Vec<u64>> = (0..256).map(|v| vec![rep(8, v); 4]).collect();
    ck.par(&jobs, |ck, (low, n, kind)| {
        let (n, kind) = (*n, *kind);
        ck.case(hw(&[n, kind as u64, low.low4()[0], low.bits() as u64]), 256, || format!("range from {} with {} values, form {}", low.hex(), n, kind), || {
            let last = low.add(&Big::from_u64(n - 1));
            let s = sampler(&ub(low), &ub(&last), kind);
            let mut count = vec![0_usize; n as usize];
            let mut refused = None;
            let idx = |x: &U256| -> Result<usize, String> {
                let x = b(x);
                if x.lt(low) || last.lt(&x) {
                    return Err(format!("returned {}, which is outside", x.hex()));
                }
                Ok(x.sub(low).low4()[0] as usize)
            };
            let mut one = vec![None; 256];
            for (i, p) in pats.iter().enumerate() {
                match play(p, |r| s.sample(r))? {
                    Some((x, _)) => {
                        let x = idx(&x)?;
                        count[x] += 1;
                        one[i] = Some(x);
                    }
                    None => refused = Some(i),
                }
                // through the generator's own method
                if kind == 0 {
                    let y = play(p, |r| r.gen_range(ub(low), ub(&last.add(&Big::one()))))?;
                    if y.map(|y| idx(&y.0)).transpose()? != one[i] {
                        return Err(format!("gen_range differs for words {:x}", p[0]));
                    }
                }
            }
            if count.iter().any(|c| *c != count[0]) || count[0] == 0 {
                return Err(format!("the values are not equally likely: {:?}", count));
            }
            // refused words only delay
            if let Some(bad) = refused {
                for k in 1..4 {
                    for (i, p) in pats.iter().enumerate() {
                        let mut w = vec![];
                        for _ in 0..k {
                            w.extend(&pats[bad]);
                        }
                        w.extend(p);
                        let y = play(&w, |r| s.sample(r))?;
                        if y.map(|y| idx(&y.0)).transpose()? != one[i] {
                            return Err(format!("words {:x} give another value after {} refused ones", p[0], k));
                        }
                    }
                }
            }
            // two draws in a row are independent
            if n <= 9 {
                let mut pairs = vec![0_usize; (n * n) as usize];
                for p in &pats {
                    for q in &pats {
                        let w: Vec<u64> = p.iter().chain(q).copied().collect();
                        if let Some(((x, y), _)) = play(&w, |r| (s.sample(r), s.sample(r)))? {
                            pairs[idx(&x)? * n as usize + idx(&y)?] += 1;
                        }
                    }
                }
                if pairs.iter().any(|c| *c != pairs[0]) || pairs[0] == 0 {
                    return Err("two draws in a row are not independent".into());
                }
            }
            Ok(())
        });
    });
    // wide ranges
    let mut wide = vec![];
    for k in 1..=256_usize {
        for d in [-1_i64, 0, 1] {
            let n = if d < 0 { Big::pow2(k).sub(&Big::from_u64(1_u64)) } else { Big::pow2(k).add(&Big::from_u64(d as u64)) };
            for low in [Big::from_u64(0_u64), Big::from_u64(1_u64), Big::pow2(128), top.sub(&Big::from_u64(1_u64)).sub(&if n.lt(&top) { n.clone() } else { Big::from_u64(0_u64) })] {
                if fits(&low, &n) {
                    for kind in 0..4 {
                        if kind < 2 && !low.add(&n).lt(&top) {
                            continue;
                        }
                        wide.push((low.clone(), n.clone(), kind, k));
                    }
                }
            }
        }
    }
    ck.par(&wide, |ck, (low, n, kind, k)| {
        ck.case(hw(&[1, *kind as u64, *k as u64, n.low4()[0], low.low4()[0], low.bits() as u64]), 40, || format!("range from {} with {} values, form {}", low.hex(), n.hex(), kind), || {
            let last = low.add(n).sub(&Big::from_u64(1_u64));
            let s = sampler(&ub(low), &ub(&last), *kind);
            let m = !0_u64;
            let mut words: Vec<Vec<u64>> = vec![vec![0; 4], vec![m; 4], vec![1 << 63; 4], vec![m >> 1; 4], vec![1; 4]];
            // every bit alone, as leading and as trailing bits
            let bits = n.sub(&Big::from_u64(1_u64)).bits().max(1);
            let mut reached = [false; 2];
            for v in [Big::from_u64(0_u64), n.sub(&Big::from_u64(1_u64)), n.sub(&Big::from_u64(1_u64)).shr(1)] {
                let lo = ub(&v);
                // rejection sampling on the smallest sufficient number of bits
                let hi = ub(&v.shl(256 - bits));
                let hi2 = if bits < 256 { ub(&v.shl(255 - bits)) } else { hi.clone() };
                for x in [lo, hi, hi2] {
                    words.push((0..4).map(|i| x.limb(i)).collect());
                    words.push((0..4).map(|i| x.limb(3 - i)).collect());
                }
            }
            for i in 0..256 {
                let x = ub(&Big::pow2(i));
                words.push((0..4).map(|i| x.limb(i)).collect());
            }
            for w in &words {
                if let Some((x, _)) = play(w, |r| s.sample(r))? {
                    let x = b(&x);
                    if x.lt(low) || last.lt(&x) {
                        return Err(format!("returned {}, which is outside, for words {:x?}", x.hex(), w));
                    }
                    reached[0] |= !low.lt(&x);
                    reached[1] |= !x.lt(&last);
                }
            }
            if reached != [true, true] {
                return Err(format!("the first or last value was not reached: {:?}", reached));
            }
            Ok(())
        });
    });
    // field elements
    fn field<P: Parameters<UInt = U256>>(ck: &mut Ck, name: &str, p: u64) {
        ck.case(hw(&[2, p]), 65536, || format!("elements of {}", name), || {
            let mut count = vec![0_usize; p as usize];
            for v in 0..65536 {
                let w = [rep(16, v); 4];
                if let Some((x, _)) = play(&w, |r| r.gen::<PrimeField<P>>())? {
                    let x = b(&x.to_uint());
                    if !x.lt(&Big::from_u64(p)) {
                        return Err("not below the modulus".into());
                    }
                    count[x.low4()[0] as usize] += 1;
                }
            }
            if count.iter().any(|c| *c != count[0]) || count[0] == 0 {
                return Err(format!("the elements are not equally likely: {:?}", count));
            }
            Ok(())
        });
    }
    field::<F3>(ck, "F3", 3);
    field::<F5>(ck, "F5", 5);
    field::<F7>(ck, "F7", 7);
    field::<F11>(ck, "F11", 11);
    field::<F13>(ck, "F13", 13);
    field::<F17>(ck, "F17", 17);
    field::<F41>(ck, "F41", 41);
    field::<F97>(ck, "F97", 97);
    let p = FieldElement::modulus();
    let mut near = vec![];
    for d in -40_i64..=40 {
        for sh in 0..=8_usize {
            let v = if d < 0 { b(&p).sub(&Big::from_u64(-d as u64)) } else { b(&p).add(&Big::from_u64(d as u64)) };
            near.push((d, sh, v));
        }
    }
    ck.par(&near, |ck, (d, sh, v)| {
        ck.case(hw(&[3, *d as u64, *sh as u64]), 1, || format!("element next to the modulus {} shifted {}", d, sh), || {
            if v.shl(*sh).bits() > 256 {
                return Ok(());
            }
            let x = ub(&v.shl(*sh));
            let w: Vec<u64> = (0..4).map(|i| x.limb(i)).collect();
            if let Some((x, _)) = play(&w, |r| r.gen::<FieldElement>())? {
                if !b(x.as_montgomery()).lt(&b(&p)) {
                    return Err("not below the modulus".into());
                }
            }
            // words are never lost: unused patterns only delay
            let mut w2 = vec![!0_u64; 4];
            w2.extend(&w);
            let a = play(&w, |r| r.gen::<FieldElement>())?.map(|x| x.0);
            let c = play(&w2, |r| r.gen::<FieldElement>())?.map(|x| x.0);
            if play(&w2[..4], |r| r.gen::<FieldElement>())?.is_none() && a != c {
                return Err("another value after refused words".into());
            }
            Ok(())
        });
    });
}
