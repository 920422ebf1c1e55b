//! Contracts of a constraint system: what `generate` writes, plus the hand-written part that its
//! template leaves open, executed together with the verifier contracts of /repo.
use crate::{
    ast::Ty,
    interp::{Stop, Tree, Val, Vm},
    proof::SolProof,
    refstark::Spec,
    word::W,
};
use std::{
    collections::{BTreeMap, HashMap},
    fmt::Write,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
    sync::OnceLock,
};
use zkp_stark::Constraints;

pub const CONTRACTS: &str = "/repo/crypto/stark-verifier-ethereum/contracts";

fn collect(dir: &Path, out: &mut BTreeMap<PathBuf, String>) {
    if let Ok(d) = std::fs::read_dir(dir) {
        for f in d.flatten() {
            let p = f.path();
            if p.is_dir() {
                collect(&p, out);
            } else if p.extension().map_or(false, |e| e == "sol") {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    out.insert(p, s);
                }
            }
        }
    }
}
/// all contract sources of /repo
pub fn sources() -> &'static Vec<String> {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        let mut m = BTreeMap::new();
        collect(Path::new(CONTRACTS), &mut m);
        m.into_values().collect()
    })
}

/// scratch directory, removed when dropped
pub struct Scratch(pub PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("vevm-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// What `generate` wrote
pub struct Generated {
    pub poly: String,
    pub trace: String,
    pub wrapper: String,
    pub periodic: Vec<String>,
    pub files: Vec<String>,
}
/// something no Solidity source can be: nothing at all, or brackets that do not match
fn malformed(s: &str) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let (mut open, mut i, mut code) = (vec![], 0, false);
    while i < c.len() {
        let two = (c[i], c.get(i + 1).copied().unwrap_or(' '));
        match two {
            ('/', '/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            ('/', '*') => {
                i += 2;
                while i + 1 < c.len() && (c[i], c[i + 1]) != ('*', '/') {
                    i += 1;
                }
                i += 1;
            }
            ('"', _) | ('\'', _) => {
                let q = c[i];
                i += 1;
                while i < c.len() && c[i] != q {
                    i += if c[i] == '\\' { 2 } else { 1 };
                }
                code = true;
            }
            ('(', _) | ('[', _) | ('{', _) => {
                open.push(c[i]);
                code = true;
            }
            (')', _) | (']', _) | ('}', _) => {
                let want = match c[i] {
                    ')' => '(',
                    ']' => '[',
                    _ => '{',
                };
                if open.pop() != Some(want) {
                    return Some(format!("{} without its counterpart", c[i]));
                }
            }
            _ => code |= !c[i].is_whitespace(),
        }
        i += 1;
    }
    if !code {
        return Some("empty".into());
    }
    open.pop().map(|b| format!("{} is never closed", b))
}
pub fn generated(c: &Constraints) -> Result<Generated, String> {
    let d = Scratch::new();
    zkp_stark::generate(c, d.0.to_str().unwrap(), "Sys").map_err(|e| format!("generate: {:?}", e))?;
    let mut files: Vec<String> =
        std::fs::read_dir(&d.0).unwrap().flatten().map(|f| f.file_name().to_string_lossy().to_string()).collect();
    files.sort();
    let rd = |n: &str| std::fs::read_to_string(d.0.join(n)).map_err(|_| format!("no file {}, only {:?}", n, files));
    let mut periodic = vec![];
    while let Ok(s) = std::fs::read_to_string(d.0.join(format!("periodic{}.sol", periodic.len()))) {
        periodic.push(s);
    }
    for f in files.iter().filter(|f| f.ends_with(".sol")) {
        if let Some(e) = malformed(&rd(f)?) {
            return Err(format!("{}: {}", f, e));
        }
    }
    Ok(Generated { poly: rd("SysConstraintPoly.sol")?, trace: rd("SysTrace.sol")?, wrapper: rd("Sys.sol")?, periodic, files })
}
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}
impl Generated {
    /// the lines of the wrapper that evaluate periodic columns: (index, column, exponent);
    /// None if they cannot be found
    pub fn periodic_calls(&self, expected: usize) -> Option<Vec<(usize, usize, usize)>> {
        let mut v = vec![];
        for l in self.wrapper.lines() {
            let l = l.trim();
            if l.starts_with("call_context[") && l.contains(".evaluate(") {
                let n = numbers(l);
                if n.len() != 3 {
                    return None;
                }
                v.push((n[0], n[1], n[2]));
            }
        }
        if v.len() == expected {
            Some(v)
        } else {
            None
        }
    }
}

impl Generated {
    /// which claim polynomial goes where, from the names in the wrapper; None if they cannot be found
    pub fn claim_order(&self, s: &Spec) -> Option<Vec<usize>> {
        if s.claims.len() < 2 {
            return Some((0..s.claims.len()).collect());
        }
        let mut names = std::collections::BTreeMap::new();
        for e in &s.exprs {
            claim_names(e, &mut names);
        }
        let mut v = vec![];
        for l in self.wrapper.lines() {
            if let Some(i) = l.find("public input is named: ") {
                let n = l[i + "public input is named: ".len()..].trim();
                v.push(*names.iter().find(|x| x.1 == n)?.0);
            }
        }
        if v.len() == s.claims.len() {
            Some(v)
        } else {
            None
        }
    }
}
fn claim_names(e: &zkp_stark::RationalExpression, m: &mut BTreeMap<usize, String>) {
    use zkp_stark::RationalExpression as RE;
    match e {
        RE::ClaimPolynomial(i, _, _, Some(n)) => {
            m.insert(*i, (*n).to_string());
        }
        RE::Neg(a) | RE::Inv(a) | RE::Exp(a, _) | RE::Polynomial(_, a) => claim_names(a, m),
        RE::Add(a, b) | RE::Mul(a, b) => {
            claim_names(a, m);
            claim_names(b, m);
        }
        _ => {}
    }
}
/// hand-written part of the contract for a system
fn wrapper(s: &Spec, claims: &[usize], periodic: &[(usize, usize, usize)], columns: usize) -> String {
    let mut o = String::new();
    let nargs = s.args().len();
    let total = 1 + s.claims.len() + periodic.len() + 2 * s.exprs.len() + nargs;
    let _ = write!(o, "contract Sys is SysTrace {{ using PrimeField for uint256; address immutable poly;\n");
    for i in 0..columns {
        let _ = write!(o, "address immutable col{};\n", i);
    }
    let _ = write!(o, "constructor(address p");
    for i in 0..columns {
        let _ = write!(o, ", address c{}", i);
    }
    let _ = write!(o, ") public {{ poly = p;");
    for i in 0..columns {
        let _ = write!(o, " col{} = c{};", i, i);
    }
    let _ = write!(
        o,
        "}}
    function constraint_calculations(
        ProofTypes.OodsEvaluationData memory oods_eval_data,
        uint256[] memory queries,
        uint256 oods_point,
        uint256[] memory constraint_coeffiencts,
        uint256[] memory oods_coeffiencts
    ) public override returns (uint256[] memory, uint256) {{
        PrimeField.EvalX memory eval = PrimeField.init_eval(oods_eval_data.log_trace_length + 4);
        uint256[] memory result = get_polynomial_points(oods_eval_data, eval, oods_coeffiencts, queries, oods_point);
        uint256[] memory call_context = new uint256[]({total});
        uint256 z = oods_point.fmul_mont(1);
        call_context[0] = z;\n"
    );
    for (i, k) in claims.iter().enumerate() {
        let c = &s.claims[*k];
        let _ = write!(o, "{{ uint256[] memory c = new uint256[]({});\n", c.len());
        for (k, v) in c.iter().enumerate() {
            let _ = write!(o, "c[{}] = 0x{};\n", k, plain(*v));
        }
        let _ = write!(o, "call_context[{}] = PrimeField.horner_eval(c, z); }}\n", 1 + i);
    }
    for (i, c, e) in periodic {
        let _ = write!(o, "call_context[{}] = Periodic{}(col{}).evaluate(z.fpow({}));\n", i, c, c, e);
    }
    let layout: String = s.layout.iter().enumerate().map(|(i, l)| format!("layout[{}] = {};", i, l)).collect();
    let _ = write!(
        o,
        "   uint256 k = {off};
        for (uint256 i = 0; i < constraint_coeffiencts.length; i++) {{ call_context[k] = constraint_coeffiencts[i]; k++; }}
        for (uint256 i = 0; i < oods_eval_data.trace_oods_values.length; i++) {{
            call_context[k] = oods_eval_data.trace_oods_values[i].fmul_mont(1);
            k++;
        }}
        uint256 value;
        address local = poly;
        assembly {{
            let p := mload(0x40)
            if iszero(call(not(0), local, 0, add(call_context, 0x20), {size}, p, 0x20)) {{ revert(0, 0) }}
            value := mload(p)
        }}
        return (result, value);
    }}
    function initalize_system(bytes calldata public_input) external view override
        returns (ProofTypes.ProofParameters memory, PublicCoin.Coin memory)
    {{
        PublicCoin.Coin memory coin = PublicCoin.Coin({{digest: keccak256(public_input), counter: 0}});
        uint8[] memory layout = new uint8[]({nl});
        {layout}
        ProofTypes.ProofParameters memory params = ProofTypes.ProofParameters({{
            number_of_columns: NUM_COLUMNS,
            log_trace_length: {logn},
            number_of_constraints: {nc},
            log_blowup: {logb},
            constraint_degree: CONSTRAINT_DEGREE,
            pow_bits: {pow},
            number_of_queries: {q},
            fri_layout: layout
        }});
        return (params, coin);
    }}
}}\n",
        off = 1 + s.claims.len() + periodic.len(),
        size = 32 * total,
        nl = s.layout.len(),
        layout = layout,
        logn = s.n.trailing_zeros(),
        nc = s.exprs.len(),
        logb = s.blowup.trailing_zeros(),
        pow = s.pow,
        q = s.queries,
    );
    o
}
pub fn plain(v: crate::rf::Fe) -> String {
    let u: zkp_u256::U256 = zkp_u256::U256::from(&v.fe());
    hex::encode(u.to_bytes_be())
}

/// Deployed verifier and constraint system
pub struct Deployed {
    pub vm: Vm,
    pub verifier: usize,
    pub system: usize,
}
#[derive(Debug, PartialEq)]
pub enum Verdict {
    Accepted,
    Rejected(String),
    /// the interpreter cannot tell
    Unknown(String),
}
fn stop(s: Stop) -> Verdict {
    match s {
        Stop::Revert(m) => Verdict::Rejected(m),
        Stop::Halt(_) => Verdict::Unknown("halt".into()),
        Stop::Unsupported(m) => Verdict::Unknown(m),
    }
}
impl Deployed {
    /// Err(Ok(..)) is a failure of the code, Err(Err(..)) means the interpreter does not know
    pub fn new(s: &Spec, periodic_terms: usize) -> Result<Deployed, Result<String, String>> {
        let g = generated(&s.constraints()).map_err(Ok)?;
        let calls = match g.periodic_calls(periodic_terms) {
            Some(c) => c,
            None => return Err(Err("periodic columns of the wrapper".into())),
        };
        if calls.iter().any(|c| c.1 >= g.periodic.len()) {
            return Err(Ok(format!("wrapper refers to a periodic contract that was not written: {:?}", g.files)));
        }
        let mut src = sources().clone();
        src.push(g.poly.clone());
        src.push(g.trace.clone());
        src.extend(g.periodic.iter().cloned());
        let claims = match g.claim_order(s) {
            Some(c) => c,
            None => return Err(Err("claims of the wrapper".into())),
        };
        src.push(wrapper(s, &claims, &calls, g.periodic.len()));
        let mut vm = Vm::new(&src).map_err(Err)?;
        let un = |e: Stop| Err(format!("{:?}", e));
        let dep = |vm: &mut Vm, name: &str, args: &[Val]| -> Result<usize, Result<String, String>> {
            let c = vm.class(name).map_err(un)?;
            vm.deploy(c, args).map_err(un)
        };
        let verifier = dep(&mut vm, "StarkVerifier", &[])?;
        let mut args = vec![(Ty::Address, Vm::address(dep(&mut vm, "OodsPoly", &[])?))];
        for i in 0..g.periodic.len() {
            args.push((Ty::Address, Vm::address(dep(&mut vm, &format!("Periodic{}", i), &[])?)));
        }
        let system = dep(&mut vm, "Sys", &args)?;
        Ok(Deployed { vm, verifier, system })
    }
    pub fn verify(&mut self, p: &SolProof) -> Verdict {
        match self.vm.call(self.verifier, "verify_proof", &[p.tree(), Tree::Word(Vm::address(self.system))]) {
            Ok((r, _)) => match r.first() {
                Some(Tree::Word(w)) if *w == W::ONE => Verdict::Accepted,
                _ => Verdict::Rejected("returned false".into()),
            },
            Err(e) => stop(e),
        }
    }
}

/// everything that distinguishes an expression
pub fn ident(e: &zkp_stark::RationalExpression) -> String {
    use zkp_stark::RationalExpression as RE;
    match e {
        RE::Polynomial(p, a) => format!("P{:?}({})", p.coefficients().iter().map(|c| crate::rf::Fe::of(c).0).collect::<Vec<_>>(), ident(a)),
        RE::ClaimPolynomial(i, d, a, n) => format!("C{} {} {:?}({})", i, d, n, ident(a)),
        RE::Neg(a) => format!("-({})", ident(a)),
        RE::Inv(a) => format!("1/({})", ident(a)),
        RE::Exp(a, k) => format!("({})^{}", ident(a), k),
        RE::Add(a, b) => format!("({})+({})", ident(a), ident(b)),
        RE::Mul(a, b) => format!("({})*({})", ident(a), ident(b)),
        _ => format!("{:?}", e),
    }
}
thread_local! {
    static CACHE: std::cell::RefCell<HashMap<String, Result<Deployed, Result<String, String>>>> = Default::default();
}
/// run with the deployed contracts of a system (per thread)
pub fn with<T>(s: &Spec, periodic_terms: usize, f: impl FnOnce(&mut Deployed) -> T) -> Result<T, Result<String, String>> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 64 {
            c.clear();
        }
        match c.entry(format!("{} {} {:?}", s.key(), s.exprs.iter().map(ident).collect::<Vec<_>>().join(", "), s.claims)).or_insert_with(|| Deployed::new(s, periodic_terms)) {
            Ok(d) => Ok(f(d)),
            Err(e) => Err(e.clone()),
        }
    })
}

/// proof of the reference prover, as exported to the verifier contract
pub fn assemble(s: &Spec, tx: &crate::refstark::Tx) -> SolProof {
    let words = |pre: &str| -> Vec<W> {
        tx.sections
            .iter()
            .filter(|x| x.0.starts_with(pre))
            .flat_map(|x| tx.bytes[x.1..x.2].chunks(32).map(W::from_be).collect::<Vec<_>>())
            .collect()
    };
    let n = tx.sections.iter().find(|x| x.0 == "nonce").unwrap();
    let mut pow_nonce = [0; 8];
    pow_nonce.copy_from_slice(&tx.bytes[n.1..n.2]);
    SolProof {
        public_inputs: s.seed.clone(),
        trace_values: words("trace value"),
        trace_commitment: words("trace root")[0],
        constraint_values: words("constraint value"),
        constraint_commitment: words("constraint root")[0],
        trace_oods_values: words("oods trace"),
        constraint_oods_values: words("oods constraint"),
        pow_nonce,
        trace_decommitment: words("trace hash"),
        constraint_decommitment: words("constraint hash"),
        fri_values: (0..s.layout.len()).map(|k| words(&format!("fri {} value", k))).collect(),
        fri_commitments: words("fri root"),
        fri_decommitments: (0..s.layout.len()).map(|k| words(&format!("fri {} hash", k))).collect(),
        last_layer_coefficients: words("last layer"),
    }
}
/// the bytes the exported proof stands for
pub fn flatten(p: &SolProof) -> Vec<u8> {
    let mut o = vec![];
    let put = |o: &mut Vec<u8>, w: &[W]| {
        for x in w {
            o.extend_from_slice(&x.be());
        }
    };
    put(&mut o, &[p.trace_commitment, p.constraint_commitment]);
    put(&mut o, &p.trace_oods_values);
    put(&mut o, &p.constraint_oods_values);
    put(&mut o, &p.fri_commitments);
    put(&mut o, &p.last_layer_coefficients);
    o.extend_from_slice(&p.pow_nonce);
    put(&mut o, &p.trace_values);
    put(&mut o, &p.trace_decommitment);
    put(&mut o, &p.constraint_values);
    put(&mut o, &p.constraint_decommitment);
    for (v, h) in p.fri_values.iter().zip(&p.fri_decommitments) {
        put(&mut o, v);
        put(&mut o, h);
    }
    o
}
