//! C29: compile-time literals (run through the macro library's token functions).
use crate::u256::{b, eq, grid, u};
use proc_macro2::{Literal, TokenStream, TokenTree};
use vcommon::big::Big;
use vcommon::{hs, Ck, Def};
use zkp_primefield::FieldElement;
use zkp_u256::U256;

fn ints(t: TokenStream, out: &mut Vec<u64>) {
    for x in t {
        match x {
            TokenTree::Group(g) => ints(g.stream(), out),
            TokenTree::Literal(l) => {
                let s = l.to_string();
                if let Ok(v) = s.trim_end_matches("u64").parse::<u64>() {
                    out.push(v);
                }
            }
            _ => {}
        }
    }
}
fn is_error(t: &TokenStream) -> bool {
    t.to_string().contains("compile_error")
}
fn lit(s: &str) -> TokenStream {
    TokenTree::Literal(Literal::string(s)).into()
}
/// model: None = refused
fn bytes(s: &str) -> Option<Vec<u8>> {
    let c: Vec<char> = s.chars().collect();
    if c.len() % 2 != 0 {
        return None;
    }
    let mut v = vec![];
    for p in c.chunks(2) {
        v.push((p[0].to_digit(16)? * 16 + p[1].to_digit(16)?) as u8);
    }
    Some(v)
}

fn literal(ck: &mut Ck, s: &str) {
    let mut ok = "";
    ck.case(hs(s), 3, || format!("literal {:?}", s), || {
        let m = bytes(s);
        let h = zkp_macros_lib::hex(lit(s));
        eq!("hex accepted", !is_error(&h), m.is_some());
        if let Some(v) = &m {
            let want = format!("* {}", Literal::byte_string(v));
            eq!("hex bytes", h.to_string().replace(' ', ""), want.replace(' ', ""));
        }
        let v = m.filter(|v| v.len() <= 32);
        let uu = zkp_macros_lib::u256h(lit(s));
        let ff = zkp_macros_lib::field_element(lit(s));
        eq!("u256h accepted", !is_error(&uu), v.is_some());
        eq!("field_element accepted", !is_error(&ff), v.is_some());
        if let Some(v) = v {
            ok = "accepted";
            let mut x = Big::zero();
            for y in v {
                x = x.shl(8).add(&Big::from_u64(u64::from(y)));
            }
            let mut l = vec![];
            ints(uu, &mut l);
            eq!("u256h limbs", l, x.low4().to_vec());
            let mut l = vec![];
            ints(ff, &mut l);
            eq!("field_element limbs", l.len(), 4);
            let f = FieldElement::from_montgomery(u([l[0], l[1], l[2], l[3]]));
            eq!("field_element value", b(&f.to_uint()).hex(), x.rem(&b(&FieldElement::modulus())).hex());
        } else {
            ok = "refused";
        }
        Ok(())
    });
    ck.outcome(ok);
}

pub const C29: Def = Def {
    prop: "C29",
    level: "model_checking",
    rule: "every string of length <= 4 (thorough 5) over {0,9,a,F,g,x,_,space,multi-byte}, every length 0..=70 of one digit, every single-bit and limb-corner 256-bit value in lower and upper case, every neighbour of a multiple of the modulus; token output of hex/u256h/field_element compared with an independent reading of the literal; non-string tokens refused",
    run: |ck| {
        let alpha = ["0", "9", "a", "F", "g", "x", "_", " ", "é"];
        let mut cur = vec![String::new()];
        let mut all = cur.clone();
        for _ in 0..ck.b(4, 5) {
            cur = cur.iter().flat_map(|s| alpha.iter().map(move |c| format!("{}{}", s, c))).collect();
            all.extend(cur.iter().cloned());
        }
        for d in ["0", "1", "f", "E"] {
            for n in 0..=70 {
                all.push(d.repeat(n));
            }
        }
        let p = b(&FieldElement::modulus());
        let mut vals: Vec<U256> = grid(&[0, 1, u64::MAX, 1 << 63, 0x0800_0000_0000_0011]);
        for i in 0..256 {
            vals.push(u(Big::pow2(i).low4()));
        }
        for k in 1..=31_u64 {
            for d in 0..3_u64 {
                vals.push(u(p.mul(&Big::from_u64(k)).add(&Big::from_u64(d)).sub(&Big::one()).low4()));
            }
        }
        // values whose representation in the field has limbs at the corners
        let rinv = {
            // 2^-256 = (2^-1)^256
            let half = p.add(&Big::one()).divrem(&Big::from_u64(2)).0;
            (0..8).fold(half, |x, _| x.mul(&x).rem(&p))
        };
        for m in grid(&[0, 1, u64::MAX, 1 << 63, 0x0800_0000_0000_0010, 0x0800_0000_0000_0011]) {
            vals.push(u(b(&m).mul(&rinv).rem(&p).low4()));
        }
        for v in &vals {
            let h: String = b(v).be32().iter().map(|c| format!("{:02x}", c)).collect();
            all.push(h.to_uppercase());
            let t = h.trim_start_matches("00");
            all.push(t.to_string());
            all.push(h);
        }
        // the token functions are single threaded
        for s in &all {
            literal(ck, s);
        }
        for src in ["123", "0x12", "'a'", "b\"12\"", "\"12\" \"34\"", "", "foo", "-1", "[1,2]", "true", "(\"12\")", "{\"12\"}", "[\"12\"]", "&\"12\"", "-\"12\"", "\"12\",", "\"12\" + \"34\"", "\"12\".len()", "\"12\" as u8", "(\"12\",)", "r", "12u8", "1.0", "\"12\"[0]", "if true {\"12\"} else {\"34\"}"] {
            ck.case(hs(&format!("tok{}", src)), 3, || format!("tokens {}", src), || {
                let t = |s: &str| s.parse::<TokenStream>().map_err(|e| format!("{:?}", e));
                eq!("hex", is_error(&zkp_macros_lib::hex(t(src)?)), true);
                eq!("u256h", is_error(&zkp_macros_lib::u256h(t(src)?)), true);
                eq!("field_element", is_error(&zkp_macros_lib::field_element(t(src)?)), true);
                Ok(())
            });
        }
        // the macros as a compiler user sees them
        ck.case(hs("expanded"), 6, || "expanded macros".into(), || {
            use zkp_macros_decl::{field_element, hex, u256h};
            eq!("hex!", hex!("00ff10"), [0_u8, 255, 16]);
            eq!("u256h!", u256h!("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20"), u([0x191a_1b1c_1d1e_1f20, 0x1112_1314_1516_1718, 0x090a_0b0c_0d0e_0f10, 0x0102_0304_0506_0708]));
            eq!("field_element!", field_element!("0102"), FieldElement::from(258_u64));
            Ok(())
        });
    },
};
