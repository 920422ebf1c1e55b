//! C25-C27: the curve group, its multiplication algorithms and ECDSA.
//!
//! The model is the cyclic group Z/n: a point is represented by its index k (the point kG), and
//! the textbook chord-and-tangent formulas below turn indices into coordinates.
use crate::u256::{b, eq, u};
use vcommon::big::Big;
use vcommon::{hs, hw, Ck, Def};
use zkp_elliptic_curve::*;
use zkp_elliptic_curve_crypto::{PrivateKey, PublicKey, Signature};
use zkp_primefield::{FieldElement, Inv, One, SquareInline, Zero};
use zkp_u256::U256;

/// None = point at infinity
pub type Pt = Option<(FieldElement, FieldElement)>;

pub fn gen() -> Pt {
    // the STARK curve's generator, from its public definition
    let x = Big::from_dec("874739451078007766457464989774322083649278607533249481151382481072868806602");
    let y = Big::from_dec("152666792071518830868575557812948353041420400780739481342941381225525861407");
    Some((FieldElement::from(u(x.low4())), FieldElement::from(u(y.low4()))))
}
pub fn beta() -> FieldElement {
    let x = Big::from_dec("3141592653589793238462643383279502884197169399375105820974944592307816406665");
    FieldElement::from(u(x.low4()))
}
pub fn order() -> Big {
    Big::from_dec("3618502788666131213697322783095070105526743751716087489154079457884512865583")
}
fn radd(a: &Pt, c: &Pt) -> Pt {
    let ((x1, y1), (x2, y2)) = match (a, c) {
        (None, _) => return c.clone(),
        (_, None) => return a.clone(),
        (Some(p), Some(q)) => (p, q),
    };
    let m = if x1 == x2 {
        if y1 != y2 || y1.is_zero() {
            return None;
        }
        let three_xx = FieldElement::from(3_u64) * x1 * x1;
        (three_xx + FieldElement::one()) * (y1 + y1).inv().unwrap()
    } else {
        (y2 - y1) * (x2 - x1).inv().unwrap()
    };
    let x3 = &m * &m - x1 - x2;
    let y3 = &m * (x1 - &x3) - y1;
    Some((x3, y3))
}
fn rneg(a: &Pt) -> Pt {
    a.clone().map(|(x, y)| (x, -y))
}
fn rmul(k: &Big, p: &Pt) -> Pt {
    let mut r = None;
    let mut q = p.clone();
    for i in 0..k.bits() {
        if k.bit(i) {
            r = radd(&r, &q);
        }
        q = radd(&q, &q);
    }
    r
}
fn aff(p: &Pt) -> Affine {
    match p {
        None => Affine::Zero,
        Some((x, y)) => Affine::new(x.clone(), y.clone()),
    }
}
/// the Jacobian representative with the given z
fn jac(p: &Pt, z: &FieldElement) -> Jacobian {
    match p {
        None => Jacobian { x: z.square(), y: z.square() * z, z: FieldElement::zero() },
        Some((x, y)) => {
            let z2 = z.square();
            Jacobian { x: x * &z2, y: y * &z2 * z, z: z.clone() }
        }
    }
}
fn chk_j(what: &str, j: &Jacobian, want: &Pt) -> Result<(), String> {
    eq!(what, Affine::from(j), aff(want));
    Ok(())
}

struct Model {
    n: i64,
    pts: Vec<Pt>,
}
impl Model {
    fn new(n: i64) -> Model {
        let g = gen();
        let mut pos = vec![None];
        for i in 1..=2 * n {
            let t = radd(&pos[i as usize - 1], &g);
            pos.push(t);
        }
        let mut pts = vec![];
        for i in -2 * n..=2 * n {
            pts.push(if i < 0 { rneg(&pos[(-i) as usize]) } else { pos[i as usize].clone() });
        }
        Model { n, pts }
    }
    fn at(&self, i: i64) -> &Pt {
        &self.pts[(i + 2 * self.n) as usize]
    }
}

pub const C25: Def = Def {
    prop: "C25",
    level: "model_checking",
    rule: "model: the cyclic group with points kG, |k| <= N (N=24 quick, 60 thorough), including infinity, negatives and equal operands; every ordered pair of indices x every pair of Jacobian scalings z in {1,2,-1,generator} is added, subtracted, doubled, negated and compared in affine, Jacobian and mixed coordinates and must land on the point with the sum index; on-curve test on every model point and on every single-coordinate perturbation of it",
    run: run25,
};

fn run25(ck: &mut Ck) {
    let n = ck.b(24, 60);
    let m = Model::new(n);
    let zs = [FieldElement::one(), FieldElement::from(2_u64), -FieldElement::one(), FieldElement::generator()];
    ck.case(1, 4, || "curve constants".into(), || {
        eq!("generator", GENERATOR, aff(&gen()));
        eq!("beta", BETA, beta());
        eq!("order", b(&ScalarFieldElement::modulus()).hex(), order().hex());
        eq!("order * G", rmul(&order(), &gen()), None);
        eq!("zero", Affine::default(), Affine::Zero);
        Ok(())
    });
    // small coordinates, nearly all of them off the curve
    let small: Vec<FieldElement> = (-12..=12_i64).map(FieldElement::from).collect();
    ck.par(&small, |ck, x| {
        for y in &small {
            ck.case(hs(&format!("{:?} {:?}", x, y)), 4, || format!("is_on_curve x={:?} y={:?}", x, y), || {
                let on = y * y == x * x * x + x + beta();
                eq!("affine", Affine::new(x.clone(), y.clone()).is_on_curve(), on);
                for z in zs.iter().filter(|z| !z.is_zero()) {
                    let z2 = z.square();
                    let j = Jacobian { x: x * &z2, y: y * &z2 * z, z: z.clone() };
                    eq!("jacobian", j.is_on_curve(), on);
                }
                Ok(())
            });
        }
    });
    let idx: Vec<i64> = (-n..=n).collect();
    ck.par(&idx, |ck, i| {
        let p = m.at(*i);
        ck.case(hw(&[*i as u64, 1]), 30, || format!("unary point {}G", i), || {
            let a = aff(p);
            eq!("affine double", a.double(), aff(m.at(2 * i)));
            let mut t = a.clone();
            t.double_assign();
            eq!("affine double_assign", t, aff(m.at(2 * i)));
            eq!("affine neg", -&a, aff(m.at(-i)));
            let mut t = a.clone();
            t.neg_assign();
            eq!("affine neg_assign", t, aff(m.at(-i)));
            eq!("on curve", a.is_on_curve(), true);
            eq!("x", a.x().cloned(), p.clone().map(|p| p.0));
            eq!("y", a.y().cloned(), p.clone().map(|p| p.1));
            eq!("as_coordinates", a.as_coordinates().map(|(x, y)| (x.clone(), y.clone())), p.clone());
            eq!("into_coordinates", a.clone().into_coordinates(), p.clone());
            chk_j("jacobian from affine", &Jacobian::from(&a), p)?;
            chk_j("jacobian from affine owned", &Jacobian::from(a.clone()), p)?;
            if let Some((x, y)) = p {
                // every single-coordinate perturbation leaves the curve unless it is the negation
                for d in 1..=8_u64 {
                    let d = FieldElement::from(d);
                    for (px, py) in [(x + &d, y.clone()), (x - &d, y.clone()), (x.clone(), y + &d), (x.clone(), y - &d)] {
                        let on = &py * &py == &px * &px * &px + &px + beta();
                        eq!("perturbed on curve", Affine::new(px.clone(), py.clone()).is_on_curve(), on);
                        let z2 = zs[1].square();
                        let j = Jacobian { x: &px * &z2, y: &py * &z2 * &zs[1], z: zs[1].clone() };
                        eq!("perturbed on curve (jacobian)", j.is_on_curve(), on);
                    }
                }
            }
            for z in &zs {
                let j = jac(p, z);
                eq!("jacobian on curve", j.is_on_curve(), true);
                chk_j("jacobian", &j, p)?;
                chk_j("jacobian double", &j.double(), m.at(2 * i))?;
                let mut t = j.clone();
                t.double_assign();
                chk_j("jacobian double_assign", &t, m.at(2 * i))?;
                chk_j("jacobian neg", &-&j, m.at(-i))?;
                let mut t = j.clone();
                t.neg_assign();
                chk_j("jacobian neg_assign", &t, m.at(-i))?;
            }
            Ok(())
        });
        for k in &idx {
            let q = m.at(*k);
            ck.case(hw(&[*i as u64, *k as u64, 2]), 60, || format!("points {}G and {}G", i, k), || {
                let (a, c) = (aff(p), aff(q));
                let (sum, dif) = (aff(m.at(i + k)), aff(m.at(i - k)));
                eq!("affine +", &a + &c, sum.clone());
                eq!("affine + owned", a.clone() + c.clone(), sum.clone());
                let mut t = a.clone();
                t += &c;
                eq!("affine +=", t, sum.clone());
                eq!("affine -", &a - &c, dif.clone());
                eq!("affine - owned", a.clone() - c.clone(), dif.clone());
                let mut t = a.clone();
                t -= &c;
                eq!("affine -=", t, dif.clone());
                eq!("affine ==", a == c, i == k);
                for z in &zs {
                    let j = jac(p, z);
                    chk_j("mixed +", &(&j + &c), m.at(i + k))?;
                    let mut t = j.clone();
                    t += &c;
                    chk_j("mixed +=", &t, m.at(i + k))?;
                    let mut t = j.clone();
                    t -= &c;
                    chk_j("mixed -=", &t, m.at(i - k))?;
                    for y in &zs {
                        let l = jac(q, y);
                        chk_j("jacobian +", &(&j + &l), m.at(i + k))?;
                        chk_j("jacobian + owned", &(j.clone() + l.clone()), m.at(i + k))?;
                        let mut t = j.clone();
                        t += &l;
                        chk_j("jacobian +=", &t, m.at(i + k))?;
                        chk_j("jacobian -", &(&j - &l), m.at(i - k))?;
                        let mut t = j.clone();
                        t -= &l;
                        chk_j("jacobian -=", &t, m.at(i - k))?;
                        eq!("jacobian ==", j == l, i == k);
                    }
                }
                Ok(())
            });
        }
    });
}

fn scalars(ck: &Ck) -> Vec<Big> {
    let n = order();
    let mut v: Vec<Big> = (0..=ck.b(70_u64, 300)).map(Big::from_u64).collect();
    for i in 1..=ck.b(36_u64, 300) {
        v.push(n.sub(&Big::from_u64(i)));
    }
    let half = n.shr(1);
    for d in 0..3 {
        v.push(half.add(&Big::from_u64(d)));
    }
    for i in (6..252).step_by(ck.b(2, 1)) {
        v.push(Big::pow2(i));
        v.push(Big::pow2(i).sub(&Big::one()));
        v.push(Big::pow2(i).add(&Big::one()));
        v.push(n.sub(&Big::pow2(i)));
    }
    for w in 3..9 {
        // runs of ones / isolated window values: worst cases for signed windows
        let mut a = Big::zero();
        let mut c = Big::zero();
        let mut i = 0;
        while i + w < 250 {
            a = a.add(&Big::pow2(i + w - 1).sub(&Big::one()).shl(0));
            c = c.add(&Big::pow2(i));
            i += w;
        }
        v.push(a.rem(&n));
        v.push(c.rem(&n));
        v.push(n.sub(&c.rem(&n)));
    }
    v.sort_by(|a, b| a.cmp(b));
    v.dedup_by(|a, b| a.cmp(b) == std::cmp::Ordering::Equal);
    v.retain(|x| x.lt(&n));
    v
}
fn sc(x: &Big) -> ScalarFieldElement {
    ScalarFieldElement::from(u(x.low4()))
}

pub const C26: Def = Def {
    prop: "C26",
    level: "model_checking",
    rule: "scalars 0..70 (thorough 300), n-1..n-36 (300), n/2, every 2nd (every) 2^i and its neighbours and negatives, runs of ones and isolated digits for windows 3..8; points infinity, G, -G, 2G, 7G and a large multiple; all multiplication algorithms (affine and Jacobian operator, windowed, table based) on every (scalar, point), and both double-scalar algorithms on every pair from a reduced scalar set x point pairs, must equal textbook double-and-add; precomputed odd-multiple tables of length 1..=64 entry by entry",
    run: run26,
};

fn run26(ck: &mut Ck) {
    let s = scalars(ck);
    let g = gen();
    let big = Big::from_dec("1234567890123456789012345678901234567890123456789012345678901234567890");
    let pts: Vec<(String, Pt)> = vec![
        ("O".into(), None),
        ("G".into(), g.clone()),
        ("-G".into(), rneg(&g)),
        ("2G".into(), radd(&g, &g)),
        ("7G".into(), rmul(&Big::from_u64(7), &g)),
        ("bigG".into(), rmul(&big, &g)),
    ];
    // tables
    let tabs: Vec<(usize, usize)> = (1..=64).flat_map(|l| (0..pts.len()).map(move |p| (l, p))).collect();
    ck.par(&tabs, |ck, (l, pi)| {
        ck.case(hw(&[*l as u64, *pi as u64, 26]), *l as u64, || format!("odd multiples of {} length {}", pts[*pi].0, l), || {
            let mut t = vec![Affine::Zero; *l];
            window_table_affine(&aff(&pts[*pi].1), &mut t);
            let two = radd(&pts[*pi].1, &pts[*pi].1);
            let mut w = pts[*pi].1.clone();
            for (i, e) in t.iter().enumerate() {
                eq!(format!("entry {}", i), e.clone(), aff(&w));
                w = radd(&w, &two);
            }
            Ok(())
        });
    });
    let table = |p: &Pt| {
        let mut t = vec![Affine::Zero; 32];
        window_table_affine(&aff(p), &mut t);
        t
    };
    let tables: Vec<Vec<Affine>> = pts.iter().map(|p| table(&p.1)).collect();
    ck.par(&s, |ck, k| {
        for (pi, (name, p)) in pts.iter().enumerate() {
            ck.case(hw(&[hw(&k.low4()), pi as u64]), 8, || format!("{} * {}", k.hex(), name), || {
                let want = rmul(k, p);
                let e = sc(k);
                let a = aff(p);
                eq!("affine *", &a * &e, aff(&want));
                eq!("affine * owned", a.clone() * e.clone(), aff(&want));
                let mut t = a.clone();
                t *= &e;
                eq!("affine *=", t, aff(&want));
                let j = jac(p, &FieldElement::from(3_u64));
                chk_j("jacobian *", &(&j * &e), &want)?;
                let mut t = j.clone();
                t *= e.clone();
                chk_j("jacobian *=", &t, &want)?;
                chk_j("mul", &mul(&a, &e), &want)?;
                chk_j("base_mul", &base_mul(&tables[pi], &e), &want)?;
                Ok(())
            });
        }
    });
    // double scalar multiplication
    let n = order();
    let mut s2: Vec<Big> = s.iter().step_by(ck.b(12, 4)).cloned().collect();
    s2.extend((0..8).map(Big::from_u64));
    s2.extend((1..8).map(|i| n.sub(&Big::from_u64(i))));
    let refs: Vec<Vec<Pt>> = pts.iter().map(|p| s2.iter().map(|k| rmul(k, &p.1)).collect()).collect();
    let ii: Vec<usize> = (0..s2.len()).collect();
    let pp = [(1, 1), (1, 2), (1, 0), (0, 1), (0, 0), (1, 3), (4, 5), (5, 1)];
    ck.par(&ii, |ck, i| {
        for k in &ii {
            for (pa, pb) in pp {
                if ck.quick() && (pa, pb) != (1, 1) && (i + 3 * k + pa + 5 * pb) % 7 != 0 && s2[*i].bits() > 4 {
                    continue;
                }
                ck.case(hw(&[*i as u64, *k as u64, pa as u64, pb as u64]), 2, || format!("{}*{} + {}*{}", s2[*i].hex(), pts[pa].0, s2[*k].hex(), pts[pb].0), || {
                    let want = radd(&refs[pa][*i], &refs[pb][*k]);
                    let (a, c) = (sc(&s2[*i]), sc(&s2[*k]));
                    let (x, y) = (aff(&pts[pa].1), aff(&pts[pb].1));
                    chk_j("double_mul", &double_mul(&x, &a, &y, &c), &want)?;
                    chk_j("double_base_mul", &double_base_mul(&tables[pa], &a, &y, &c), &want)
                });
            }
        }
    });
}

/// The ECDSA relation, straight from the definition: x((d w) G + (r w) Q) = r.
fn accept(q: &Pt, d: &Big, r: &Big, w: &Big) -> bool {
    let n = order();
    if r.is_zero() || w.is_zero() {
        return false;
    }
    if let Some((x, y)) = q {
        if y * y != x * x * x + x + beta() {
            return false;
        }
    }
    let p = radd(&rmul(&d.mulmod(w, &n), &gen()), &rmul(&r.mulmod(w, &n), q));
    match p {
        None => false,
        Some((x, _)) => b(&x.to_uint()).rem(&n).cmp(r) == std::cmp::Ordering::Equal,
    }
}

pub const C27: Def = Def {
    prop: "C27",
    level: "model_checking",
    rule: "every (private key, digest) over {0..3, n-1, n-2, 2^i corners, patterns} (key 0 with digest 0 excluded: no signature exists): the signature is deterministic, has nonzero components, satisfies the ECDSA relation and verifies under the derived key; then every fault in {r,w,digest: +1,-1,negated,zeroed,swapped,doubled; key: negated, other key, infinity, off-curve x or y} must be accepted or refused exactly as the ECDSA relation computed by textbook arithmetic says, never by a panic; signatures fitted to keys on and off the curve by running the group formulas, and with sum points whose x exceeds the group order; the secret multipliers of all digests and keys that differ in one bit are different; keys and signatures round-trip JSON and SCALE and off-range encodings are refused",
    run: run27,
};

fn run27(ck: &mut Ck) {
    let n = order();
    let mut ks: Vec<Big> = (0..4).map(Big::from_u64).collect();
    ks.push(n.sub(&Big::one()));
    ks.push(n.sub(&Big::from_u64(2)));
    for i in ck.b(vec![64, 128, 200, 251], (5..252).step_by(13).collect::<Vec<usize>>()) {
        ks.push(Big::pow2(i).rem(&n));
        ks.push(Big::pow2(i).sub(&Big::one()));
    }
    ks.push(Big::from_dec("1234567890123456789012345678901234567890123456789012345678901234567890"));
    let pairs: Vec<(Big, Big)> = ks.iter().flat_map(|a| ks.iter().map(move |d| (a.clone(), d.clone()))).filter(|(a, d)| !(a.is_zero() && d.is_zero())).collect();
    let items: Vec<usize> = (0..pairs.len()).collect();
    ck.par(&items, |ck, pi| {
        let (a, d) = &pairs[*pi];
        let q = rmul(a, &gen());
        let key = PrivateKey::from(sc(a));
        let mut sig = None;
        ck.case(hw(&[hw(&a.low4()), hw(&d.low4()), 27]), 8, || format!("sign key={} digest={}", a.hex(), d.hex()), || {
            let pk = PublicKey::from(&key);
            eq!("public key", pk.as_affine().clone(), aff(&q));
            eq!("private key", b(&key.as_scalar_field_element().to_uint()).hex(), a.hex());
            let s = key.sign(&sc(d));
            eq!("deterministic", key.sign(&sc(d)), s.clone());
            let (r, w) = (b(&s.r().to_uint()), b(&s.w().to_uint()));
            eq!("r nonzero", r.is_zero(), false);
            eq!("w nonzero", w.is_zero(), false);
            eq!("ECDSA relation", accept(&q, d, &r, &w), true);
            eq!("verifies", pk.verify(&sc(d), &s), true);
            sig = Some(s);
            Ok(())
        });
        let s = match sig {
            Some(s) => s,
            None => return,
        };
        let (r, w) = (b(&s.r().to_uint()), b(&s.w().to_uint()));
        let one = Big::one();
        let var = |x: &Big| -> Vec<(&'static str, Big)> {
            vec![
                ("+1", x.addmod(&one, &n)),
                ("-1", x.submod(&one, &n)),
                ("neg", Big::zero().submod(x, &n)),
                ("zero", Big::zero()),
                ("double", x.addmod(x, &n)),
                ("one", Big::one()),
            ]
        };
        let mut faults: Vec<(String, Pt, Big, Big, Big)> = vec![];
        for (f, v) in var(&r) {
            faults.push((format!("r{}", f), q.clone(), d.clone(), v, w.clone()));
        }
        for (f, v) in var(&w) {
            faults.push((format!("w{}", f), q.clone(), d.clone(), r.clone(), v));
        }
        for (f, v) in var(d) {
            faults.push((format!("digest{}", f), q.clone(), v, r.clone(), w.clone()));
        }
        faults.push(("swap".into(), q.clone(), d.clone(), w.clone(), r.clone()));
        faults.push(("key infinity".into(), None, d.clone(), r.clone(), w.clone()));
        faults.push(("key negated".into(), rneg(&q), d.clone(), r.clone(), w.clone()));
        faults.push(("key + G".into(), radd(&q, &gen()), d.clone(), r.clone(), w.clone()));
        faults.push(("key and w negated".into(), rneg(&q), d.clone(), r.clone(), Big::zero().submod(&w, &n)));
        if let Some((x, y)) = &q {
            faults.push(("key x+1".into(), Some((x + FieldElement::one(), y.clone())), d.clone(), r.clone(), w.clone()));
            faults.push(("key y+1".into(), Some((x.clone(), y + FieldElement::one())), d.clone(), r.clone(), w.clone()));
            faults.push(("key origin".into(), Some((FieldElement::zero(), FieldElement::zero())), d.clone(), r.clone(), w.clone()));
        }
        // another pair's digest and key
        let (a2, d2) = &pairs[(pi * 7 + 3) % pairs.len()];
        faults.push(("other digest".into(), q.clone(), d2.clone(), r.clone(), w.clone()));
        faults.push(("other key".into(), rmul(a2, &gen()), d.clone(), r.clone(), w.clone()));
        for (f, fq, fd, fr, fw) in &faults {
            if ck.quick() && pi % 4 != 0 && f.len() % 2 == 0 {
                continue;
            }
            let mut o = false;
            ck.case(hw(&[hw(&a.low4()), hw(&d.low4()), hs(f)]), 1, || format!("verify key={} digest={} fault={}", a.hex(), d.hex(), f), || {
                let want = accept(fq, fd, fr, fw);
                o = want;
                let got = PublicKey::from(aff(fq)).verify(&sc(fd), &Signature::new(sc(fr), sc(fw)));
                eq!("verify", got, want);
                Ok(())
            });
            ck.outcome(if o { "accepted" } else { "refused" });
        }
        ck.case(hw(&[hw(&a.low4()), hw(&d.low4()), 28]), 12, || format!("codec key={} digest={}", a.hex(), d.hex()), || {
            use parity_scale_codec::{Decode, Encode};
            let pk = PublicKey::from(&key);
            let j = serde_json::to_string(&pk).map_err(|e| e.to_string())?;
            eq!("json pk", serde_json::from_str::<PublicKey>(&j).ok(), Some(pk.clone()));
            let j = serde_json::to_string(&s).map_err(|e| e.to_string())?;
            eq!("json sig", serde_json::from_str::<Signature>(&j).ok(), Some(s.clone()));
            let j = serde_json::to_string(&key).map_err(|e| e.to_string())?;
            eq!("json key", serde_json::from_str::<PrivateKey>(&j).ok(), Some(key.clone()));
            eq!("scale pk", PublicKey::decode(&mut &pk.encode()[..]).ok(), Some(pk.clone()));
            eq!("scale sig", Signature::decode(&mut &s.encode()[..]).ok(), Some(s.clone()));
            eq!("scale key", PrivateKey::decode(&mut &key.encode()[..]).ok(), Some(key.clone()));
            // r replaced by r + n: not canonical, must be refused
            let mut le = r.add(&n).be32();
            le.reverse();
            let mut enc = s.encode();
            enc[..32].copy_from_slice(&le);
            eq!("scale sig r+n", Signature::decode(&mut &enc[..]).is_err(), true);
            for k in 0..64 {
                eq!("scale sig truncated", Signature::decode(&mut &s.encode()[..k]).is_err(), true);
            }
            Ok(())
        });
    });
    // signatures made to fit a key: x(u1 G + u2 Q) is what the formulas give for a key on or off the curve
    let mut keys: Vec<(String, Pt)> = vec![];
    let g = gen();
    for k in [1_u64, 2, 5] {
        let q = rmul(&Big::from_u64(k), &g);
        keys.push((format!("{}G", k), q.clone()));
        if let Some((x, y)) = q {
            for d in 1..4_u64 {
                let d = FieldElement::from(d);
                keys.push((format!("{}G x+{:?}", k, d), Some((&x + &d, y.clone()))));
                keys.push((format!("{}G y+{:?}", k, d), Some((x.clone(), &y + &d))));
            }
            keys.push((format!("{}G swapped", k), Some((y.clone(), x.clone()))));
            keys.push((format!("{}G (x, 0)", k), Some((x.clone(), FieldElement::zero()))));
            keys.push((format!("{}G (0, y)", k), Some((FieldElement::zero(), y.clone()))));
        }
    }
    for x in 0..4_u64 {
        for y in 0..4_u64 {
            keys.push((format!("({}, {})", x, y), Some((FieldElement::from(x), FieldElement::from(y)))));
        }
    }
    ck.par(&keys, |ck, (name, q)| {
        for u1 in [1_u64, 2, 3, 17] {
            for u2 in [1_u64, 2, 3, 4, 5, 31, 64] {
                let mut o = "none";
                ck.case(hs(&format!("forge {} {} {}", name, u1, u2)), 1, || format!("signature fitted to key {} u1={} u2={}", name, u1, u2), || {
                    let (u1, u2) = (Big::from_u64(u1), Big::from_u64(u2));
                    let mut p = rmul(&u1, &g);
                    // plain double-and-add, so that the group law need not hold
                    p = radd(&p, &rmul(&u2, q));
                    if let Some((x, _)) = p {
                        let r = b(&x.to_uint()).rem(&n);
                        if !r.is_zero() {
                            let ri = r.powmod(&n.sub(&Big::from_u64(2)), &n);
                            let w = u2.mulmod(&ri, &n);
                            let d = u1.mulmod(&w.powmod(&n.sub(&Big::from_u64(2)), &n), &n);
                            let want = accept(q, &d, &r, &w);
                            o = if want { "fitted accepted" } else { "fitted refused" };
                            let got = PublicKey::from(aff(q)).verify(&sc(&d), &Signature::new(sc(&r), sc(&w)));
                            eq!("verify", got, want);
                        }
                    }
                    Ok(())
                });
                ck.outcome(o);
            }
        }
    });
    // sum points whose first coordinate is not below the group order: r is its residue
    {
        use zkp_primefield::SquareRoot;
        let mut found = 0;
        for i in 0..64_u64 {
            let x = FieldElement::from(u(n.add(&Big::from_u64(i)).low4()));
            let y = match (&x * &x * &x + &x + beta()).square_root() {
                Some(y) => y,
                None => continue,
            };
            if &y * &y != &x * &x * &x + &x + beta() {
                continue;
            }
            found += 1;
            let p: Pt = Some((x, y));
            for (u1, u2) in [(1_u64, 1_u64), (5, 3), (77, 1 << 40)] {
                let (u1, u2) = (Big::from_u64(u1), Big::from_u64(u2));
                ck.case(hs(&format!("wrap {} {}", i, u1.hex())), 1, || format!("signature with point at x = order + {} u1={} u2={}", i, u1.hex(), u2.hex()), || {
                    let nm2 = n.sub(&Big::from_u64(2));
                    let q = rmul(&u2.powmod(&nm2, &n), &radd(&p, &rneg(&rmul(&u1, &g))));
                    let r = Big::from_u64(i);
                    if r.is_zero() {
                        return Ok(());
                    }
                    let w = u2.mulmod(&r.powmod(&nm2, &n), &n);
                    let d = u1.mulmod(&w.powmod(&nm2, &n), &n);
                    eq!("reference", accept(&q, &d, &r, &w), true);
                    eq!("verify", PublicKey::from(aff(&q)).verify(&sc(&d), &Signature::new(sc(&r), sc(&w))), true);
                    Ok(())
                });
            }
        }
        assert!(found > 10);
    }
    // the secret multiplier is never used for two different digests or keys
    let base = [Big::zero(), Big::from_dec("1234567890123456789012345678901234567890123456789012345678901234567890")];
    let mut pairs: Vec<(Big, Big)> = vec![];
    for k in 0..ck.b(2_u64, 8) {
        let key = Big::from_u64(77).mul(&Big::pow2(100 + 11 * k as usize)).add(&Big::from_u64(k + 1));
        for d in &base {
            pairs.push((key.clone(), d.clone()));
            for i in 0..251 {
                // digest with one bit more or less, key with one bit more
                let bit = Big::pow2(i);
                let d2 = if d.bit(i) { d.sub(&bit) } else { d.add(&bit) };
                pairs.push((key.clone(), d2.rem(&n)));
                if !key.bit(i) {
                    pairs.push((key.add(&bit).rem(&n), d.clone()));
                }
            }
        }
    }
    pairs.sort_by_key(|(a, b)| (a.low4(), b.low4()));
    pairs.dedup();
    let used = std::sync::Mutex::new(std::collections::BTreeMap::new());
    ck.par(&pairs, |ck, (a, d)| {
        ck.case(hw(&[hw(&a.low4()), hw(&d.low4()), 29]), 1, || format!("multiplier key={} digest={}", a.hex(), d.hex()), || {
            let s = PrivateKey::from(sc(a)).sign(&sc(d));
            let (r, w) = (b(&s.r().to_uint()), b(&s.w().to_uint()));
            let k = w.mulmod(&r.mulmod(a, &n).addmod(d, &n), &n);
            let minus = n.sub(&k);
            let k = if minus.cmp(&k) == std::cmp::Ordering::Less { minus } else { k };
            if let Some((a2, d2)) = used.lock().unwrap().insert(k.low4(), (a.hex(), d.hex())) {
                return Err(format!("the secret multiplier is the same as for key={} digest={}", a2, d2));
            }
            Ok(())
        });
    });
    let _ = U256::ZERO;
}
