//! Interpreter for the contracts: Solidity statements with the memory layout the compiler uses (so that inline
//! assembly sees the same words), inline assembly, calls between contracts and the modular exponentiation precompile.
use crate::ast::*;
use crate::word::W;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use vcommon::keccak::keccak256;

#[derive(Debug, Clone)]
pub enum Stop {
    /// the call fails
    Revert(String),
    /// `return` in assembly: the whole call ends
    Halt(Vec<u8>),
    /// something this interpreter does not know
    Unsupported(String),
}
pub type R<T> = Result<T, Stop>;
pub type Val = (Ty, W);

/// contents of a value, independent of any memory
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Word(W),
    Bytes(Vec<u8>),
    Seq(Vec<Tree>),
}
impl Tree {
    pub fn u(x: u64) -> Tree {
        Tree::Word(W::u(x))
    }
    pub fn words(v: &[W]) -> Tree {
        Tree::Seq(v.iter().map(|w| Tree::Word(*w)).collect())
    }
    pub fn word(&self) -> Option<W> {
        match self {
            Tree::Word(w) => Some(*w),
            _ => None,
        }
    }
    pub fn seq(&self) -> Option<Vec<W>> {
        match self {
            Tree::Seq(v) => v.iter().map(|t| t.word()).collect(),
            _ => None,
        }
    }
}
#[derive(Default, Clone)]
struct Frame {
    vars: Vec<(Sym, Ty, W)>,
    yfns: Vec<Rc<YFn>>,
    /// contract whose code is executed
    owner: usize,
    /// modifiers: what `_` stands for
    placeholder: Vec<(Rc<Function>, usize, usize)>,
    ret: usize,
}
pub struct Instance {
    pub class: usize,
    state: HashMap<(usize, Sym), Val>,
}
enum Flow {
    Next,
    Break,
    Continue,
    Return,
}
enum Lv {
    Local(usize),
    Mem(u64, Ty),
    Byte(u64),
    State(usize, Sym, Ty),
    Skip,
}
pub struct Vm {
    pub g: Rc<Program>,
    pub insts: Vec<Instance>,
    types: RefCell<Vec<Ty>>,
    cache: RefCell<HashMap<(usize, usize), Ty>>,
    fields: RefCell<HashMap<u32, Rc<Vec<(Sym, Ty)>>>>,
    consts: RefCell<HashMap<(usize, Sym), Val>>,
    b: HashMap<Sym, &'static str>,
    mem: Vec<u8>,
    inst: usize,
    calldata: Option<Vec<u8>>,
    returndata: Vec<u8>,
    depth: usize,
    pub steps: u64,
    pub limit: u64,
    s_length: Sym,
}
const MEM_LIMIT: u64 = 1 << 26;
const BUILTIN: &[&str] = &[
    "add", "sub", "mul", "div", "sdiv", "mod", "smod", "exp", "not", "lt", "gt", "slt", "sgt", "eq", "iszero", "and", "or", "xor", "byte",
    "shl", "shr", "sar", "addmod", "mulmod", "signextend", "keccak256", "pop", "mload", "mstore", "mstore8", "msize", "gas", "address",
    "caller", "callvalue", "calldataload", "calldatasize", "calldatacopy", "returndatasize", "returndatacopy", "call", "staticcall",
    "return", "revert", "stop", "invalid", "log0", "log1", "log2", "log3", "log4", "require", "assert", "gasleft", "abi", "encodePacked",
    "encode", "decode", "msg", "block", "tx", "now", "this", "super", "type", "max", "min", "sender", "value", "timestamp", "number",
    "concat", "console",
];
fn revert<T>(s: &str) -> R<T> {
    Err(Stop::Revert(s.into()))
}
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}
fn mask(bits: usize) -> W {
    W::ONE.shl(W::u(bits as u64)).sub(W::ONE)
}
fn signed_lt(a: W, b: W) -> bool {
    let (x, y) = (a.bit(255), b.bit(255));
    if x != y {
        x
    } else {
        a < b
    }
}
fn sext(w: W, bits: usize) -> W {
    if bits < 256 && w.bit(bits - 1) {
        w.or(mask(bits).not())
    } else {
        w.and(mask(bits))
    }
}
fn sar(x: W, n: W) -> W {
    let s = x.shr(n);
    if x.bit(255) {
        let k = n.small().map_or(256, |k| k.min(256)) as usize;
        if k == 256 {
            W::MAX
        } else {
            s.or(mask(256 - k).not())
        }
    } else {
        s
    }
}
fn sdiv(a: W, b: W) -> (W, W) {
    let abs = |x: W| if x.bit(255) { x.neg() } else { x };
    let (q, r) = abs(a).divrem(abs(b));
    (if a.bit(255) != b.bit(255) { q.neg() } else { q }, if a.bit(255) { r.neg() } else { r })
}
pub fn modexp(input: &[u8]) -> Vec<u8> {
    let byte = |i: usize| input.get(i).copied().unwrap_or(0);
    let word = |i: usize| W::from_be(&(0..32).map(|j| byte(i + j)).collect::<Vec<_>>());
    let (lb, le, lm) = (word(0), word(32), word(64));
    let l = |w: W| w.small().filter(|x| *x <= 32).map(|x| x as usize);
    match (l(lb), l(le), l(lm)) {
        (Some(b), Some(e), Some(m)) => {
            let take = |at: usize, n: usize| W::from_be(&(0..n).map(|j| byte(at + j)).collect::<Vec<_>>());
            let r = take(96, b).powmod(take(96 + b, e), take(96 + b + e, m));
            r.be()[32 - m..].to_vec()
        }
        _ => vec![],
    }
}
impl Vm {
    pub fn new(sources: &[String]) -> Result<Vm, String> {
        let mut g = Program::parse(sources)?;
        let mut b = HashMap::new();
        for n in BUILTIN {
            b.insert(g.intern(n), *n);
        }
        let s_length = g.intern("length");
        Ok(Vm {
            g: Rc::new(g),
            insts: vec![],
            types: RefCell::new(vec![]),
            cache: RefCell::default(),
            fields: RefCell::default(),
            consts: RefCell::default(),
            b,
            mem: vec![],
            inst: 0,
            calldata: None,
            returndata: vec![],
            depth: 0,
            steps: 0,
            limit: 100_000_000,
            s_length,
        })
    }
    fn name(&self, s: Sym) -> String {
        self.g.name(s).to_string()
    }
    fn sym(&self, s: &str) -> Option<Sym> {
        self.g.sym.get(s).copied()
    }
    pub fn class(&self, name: &str) -> R<usize> {
        match self.sym(name).and_then(|s| self.g.by_name.get(&s)) {
            Some(c) => Ok(*c),
            None => unsup(format!("no contract {}", name)),
        }
    }
    fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.limit {
            return revert("out of gas");
        }
        Ok(())
    }
    // types
    fn intern_type(&self, t: Ty) -> u32 {
        let mut v = self.types.borrow_mut();
        if let Some(i) = v.iter().position(|x| *x == t) {
            return i as u32;
        }
        v.push(t);
        v.len() as u32 - 1
    }
    fn elem(&self, i: u32) -> Ty {
        self.types.borrow()[i as usize]
    }
    fn resolve(&mut self, t: &TypeName, owner: usize) -> R<Ty> {
        let key = (t as *const TypeName as usize, owner);
        if let Some(t) = self.cache.borrow().get(&key) {
            return Ok(*t);
        }
        let r = match t {
            TypeName::Elem(t) => *t,
            TypeName::User(p) => self.user_type(p, owner)?,
            TypeName::Array(e, n) => {
                let e = self.resolve(e, owner)?;
                let e = self.intern_type(e);
                match n {
                    None => Ty::Array(e),
                    Some(n) => {
                        let mut f = Frame { owner, ..Frame::default() };
                        let n = self.eval(&mut f, n)?.1;
                        match n.small().filter(|n| *n > 0 && *n < 1 << 16) {
                            Some(n) => Ty::Fixed(e, n as u32),
                            None => return unsup("array size"),
                        }
                    }
                }
            }
            TypeName::Other(s) => return unsup(s.clone()),
        };
        self.cache.borrow_mut().insert(key, r);
        Ok(r)
    }
    fn user_type(&self, p: &[Sym], owner: usize) -> R<Ty> {
        let find = |c: usize, n: Sym| -> Option<Ty> {
            for k in &self.g.contracts[c].line {
                for s in &self.g.contracts[*k].structs {
                    if self.g.structs[*s].name == n {
                        return Some(Ty::Struct(*s as u32));
                    }
                }
                for (e, _) in &self.g.contracts[*k].enums {
                    if *e == n {
                        return Some(Ty::Enum(n));
                    }
                }
            }
            None
        };
        let r = match p {
            [n] => find(owner, *n).or_else(|| self.g.by_name.get(n).map(|c| Ty::Contract(*c as u32))),
            [c, n] => self.g.by_name.get(c).and_then(|c| find(*c, *n)),
            _ => None,
        };
        match r {
            Some(t) => Ok(t),
            None => unsup(format!("type {}", p.iter().map(|s| self.name(*s)).collect::<Vec<_>>().join("."))),
        }
    }
    fn struct_fields(&mut self, s: u32) -> R<Rc<Vec<(Sym, Ty)>>> {
        if let Some(f) = self.fields.borrow().get(&s) {
            return Ok(f.clone());
        }
        let g = self.g.clone();
        let d = &g.structs[s as usize];
        let mut v = vec![];
        for (n, t) in &d.fields {
            v.push((*n, self.resolve(t, d.owner)?));
        }
        let v = Rc::new(v);
        self.fields.borrow_mut().insert(s, v.clone());
        Ok(v)
    }
    fn is_ref(t: Ty) -> bool {
        matches!(t, Ty::DynBytes | Ty::String | Ty::Array(_) | Ty::Fixed(..) | Ty::Struct(_))
    }
    // memory
    fn touch(&mut self, at: u64, len: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let end = at.checked_add(len).unwrap_or(u64::MAX);
        if end > MEM_LIMIT {
            return revert("out of gas (memory)");
        }
        let end = ((end + 31) / 32 * 32) as usize;
        if self.mem.len() < end {
            self.mem.resize(end, 0);
        }
        Ok(())
    }
    fn addr(&self, w: W) -> R<u64> {
        match w.small() {
            Some(a) if a < MEM_LIMIT => Ok(a),
            _ => revert("out of gas (memory)"),
        }
    }
    fn load(&mut self, at: u64) -> R<W> {
        self.touch(at, 32)?;
        Ok(W::from_be(&self.mem[at as usize..at as usize + 32]))
    }
    fn store(&mut self, at: u64, w: W) -> R<()> {
        self.touch(at, 32)?;
        self.mem[at as usize..at as usize + 32].copy_from_slice(&w.be());
        Ok(())
    }
    fn range(&mut self, at: u64, len: u64) -> R<Vec<u8>> {
        if len == 0 {
            return Ok(vec![]);
        }
        self.touch(at, len)?;
        Ok(self.mem[at as usize..(at + len) as usize].to_vec())
    }
    fn put(&mut self, at: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        self.touch(at, b.len() as u64)?;
        self.mem[at as usize..at as usize + b.len()].copy_from_slice(b);
        Ok(())
    }
    fn alloc(&mut self, size: u64) -> R<u64> {
        let p = self.load(0x40)?;
        let p = self.addr(p)?;
        if size > MEM_LIMIT {
            return revert("out of gas (memory)");
        }
        let size = (size + 31) / 32 * 32;
        self.touch(p, size)?;
        for b in &mut self.mem[p as usize..(p + size) as usize] {
            *b = 0;
        }
        self.store(0x40, W::u(p + size))?;
        Ok(p)
    }
    fn fresh(&mut self) -> Vec<u8> {
        let mut m = vec![0; 0x80];
        m[0x5f] = 0x80;
        std::mem::replace(&mut self.mem, m)
    }
    /// default value of a local variable or field
    fn default(&mut self, t: Ty) -> R<W> {
        match t {
            Ty::DynBytes | Ty::String | Ty::Array(_) => Ok(W::u(0x60)),
            Ty::Fixed(e, n) => {
                let p = self.alloc(32 * u64::from(n))?;
                let e = self.elem(e);
                if Self::is_ref(e) {
                    for i in 0..u64::from(n) {
                        let d = self.default(e)?;
                        self.store(p + 32 * i, d)?;
                    }
                }
                Ok(W::u(p))
            }
            Ty::Struct(s) => {
                let f = self.struct_fields(s)?;
                let p = self.alloc(32 * f.len() as u64)?;
                for (i, (_, t)) in f.iter().enumerate() {
                    if Self::is_ref(*t) {
                        let d = self.default(*t)?;
                        self.store(p + 32 * i as u64, d)?;
                    }
                }
                Ok(W::u(p))
            }
            _ => Ok(W::ZERO),
        }
    }
    fn new_array(&mut self, elem: Ty, n: W) -> R<W> {
        let n = match n.small().filter(|n| *n < MEM_LIMIT / 32) {
            Some(n) => n,
            None => return revert("out of gas (memory)"),
        };
        let p = self.alloc(32 + 32 * n)?;
        self.store(p, W::u(n))?;
        if Self::is_ref(elem) {
            for i in 0..n {
                let d = self.default(elem)?;
                self.store(p + 32 + 32 * i, d)?;
            }
        }
        Ok(W::u(p))
    }
    fn new_bytes(&mut self, b: &[u8]) -> R<W> {
        let p = self.alloc(32 + b.len() as u64)?;
        self.store(p, W::u(b.len() as u64))?;
        self.put(p + 32, b)?;
        Ok(W::u(p))
    }
    fn bytes_at(&mut self, w: W) -> R<Vec<u8>> {
        let p = self.addr(w)?;
        let n = self.load(p)?;
        let n = self.addr(n)?;
        self.range(p + 32, n)
    }
    /// contents of a value
    pub fn tree(&mut self, t: Ty, w: W) -> R<Tree> {
        Ok(match t {
            Ty::DynBytes | Ty::String => Tree::Bytes(self.bytes_at(w)?),
            Ty::StrLit(i) => Tree::Bytes(self.g.lits[i as usize].clone()),
            Ty::Array(e) => {
                let p = self.addr(w)?;
                let n = self.load(p)?;
                let n = self.addr(n)?;
                self.touch(p, 32 + 32 * n)?;
                self.trees(p + 32, n, self.elem(e))?
            }
            Ty::Fixed(e, n) => {
                let p = self.addr(w)?;
                self.trees(p, u64::from(n), self.elem(e))?
            }
            Ty::Struct(s) => {
                let f = self.struct_fields(s)?;
                let p = self.addr(w)?;
                let mut v = vec![];
                for (i, (_, t)) in f.iter().enumerate() {
                    let w = self.load(p + 32 * i as u64)?;
                    v.push(self.tree(*t, w)?);
                }
                Tree::Seq(v)
            }
            _ => Tree::Word(self.clean(t, w)),
        })
    }
    fn trees(&mut self, at: u64, n: u64, e: Ty) -> R<Tree> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            let w = self.load(at + 32 * i)?;
            v.push(self.tree(e, w)?);
        }
        Ok(Tree::Seq(v))
    }
    /// puts contents into memory
    pub fn plant(&mut self, t: Ty, c: &Tree) -> R<W> {
        Ok(match (t, c) {
            (Ty::DynBytes | Ty::String, Tree::Bytes(b)) => self.new_bytes(b)?,
            (Ty::Array(e), Tree::Seq(v)) => {
                let p = self.alloc(32 + 32 * v.len() as u64)?;
                self.store(p, W::u(v.len() as u64))?;
                let e = self.elem(e);
                for (i, c) in v.iter().enumerate() {
                    let w = self.plant(e, c)?;
                    self.store(p + 32 + 32 * i as u64, w)?;
                }
                W::u(p)
            }
            (Ty::Fixed(e, n), Tree::Seq(v)) if v.len() == n as usize => {
                let p = self.alloc(32 * v.len() as u64)?;
                let e = self.elem(e);
                for (i, c) in v.iter().enumerate() {
                    let w = self.plant(e, c)?;
                    self.store(p + 32 * i as u64, w)?;
                }
                W::u(p)
            }
            (Ty::Struct(s), Tree::Seq(v)) => {
                let f = self.struct_fields(s)?;
                if f.len() != v.len() {
                    return unsup("structure with other members");
                }
                let p = self.alloc(32 * v.len() as u64)?;
                for (i, c) in v.iter().enumerate() {
                    let w = self.plant(f[i].1, c)?;
                    self.store(p + 32 * i as u64, w)?;
                }
                W::u(p)
            }
            (t, Tree::Word(w)) if !Self::is_ref(t) => {
                if self.clean(t, *w) != *w {
                    return revert("argument out of range");
                }
                *w
            }
            _ => return unsup("argument of another type"),
        })
    }
    fn clean(&self, t: Ty, w: W) -> W {
        match t {
            Ty::UInt(n) if n < 256 => w.and(mask(n as usize)),
            Ty::Int(n) => sext(w, n as usize),
            Ty::BytesN(n) if n < 32 => w.and(mask(256 - 8 * n as usize).not()),
            Ty::Bool => W::b(!w.is_zero()),
            Ty::Address | Ty::Contract(_) => w.and(mask(160)),
            _ => w,
        }
    }
    // conversions
    fn coerce(&mut self, v: Val, t: Ty) -> R<W> {
        if v.0 == t {
            return Ok(v.1);
        }
        let no = || unsup(format!("conversion of {:?} to {:?}", v.0, t));
        match (v.0, t) {
            (Ty::Lit, Ty::UInt(n)) => {
                if v.1.bits() > n as usize {
                    return no();
                }
                Ok(v.1)
            }
            (Ty::Lit, Ty::Int(n)) if v.1.bits() < n as usize => Ok(v.1),
            (Ty::NegLit, Ty::Int(n)) if v.1.neg().sub(W::ONE).bits() < n as usize => Ok(v.1),
            (Ty::Lit, Ty::BytesN(n)) if v.1.bits() <= 8 * n as usize => Ok(v.1.shl(W::u(256 - 8 * u64::from(n)))),
            (Ty::Lit, Ty::Address) => Ok(v.1),
            (Ty::StrLit(i), Ty::BytesN(n)) => {
                let s = &self.g.lits[i as usize];
                if s.len() > n as usize {
                    return no();
                }
                let mut b = [0; 32];
                b[..s.len()].copy_from_slice(s);
                Ok(W::from_be(&b))
            }
            (Ty::StrLit(i), Ty::DynBytes | Ty::String) => {
                let s = self.g.lits[i as usize].clone();
                self.new_bytes(&s)
            }
            (Ty::UInt(a), Ty::UInt(b)) if a <= b => Ok(v.1),
            (Ty::UInt(a), Ty::Int(b)) if a < b => Ok(v.1),
            (Ty::Int(a), Ty::Int(b)) if a <= b => Ok(v.1),
            (Ty::BytesN(a), Ty::BytesN(b)) if a <= b => Ok(v.1),
            (Ty::Contract(a), Ty::Contract(b)) if self.g.contracts[a as usize].line.contains(&(b as usize)) => Ok(v.1),
            _ => no(),
        }
    }
    fn convert(&mut self, v: Val, t: Ty) -> R<W> {
        let w = v.1;
        let no = || unsup(format!("explicit conversion of {:?} to {:?}", v.0, t));
        Ok(match (v.0, t) {
            (Ty::BytesN(m), Ty::UInt(n)) if u16::from(m) * 8 == n => w.shr(W::u(256 - 8 * u64::from(m))),
            (Ty::BytesN(m), Ty::Int(n)) if u16::from(m) * 8 == n => sext(w.shr(W::u(256 - 8 * u64::from(m))), n as usize),
            (Ty::UInt(m) | Ty::Int(m), Ty::BytesN(n)) if u16::from(n) * 8 == m => w.shl(W::u(256 - 8 * u64::from(n))),
            (Ty::Lit | Ty::NegLit | Ty::UInt(_) | Ty::Int(_) | Ty::Enum(_), Ty::UInt(_) | Ty::Int(_)) => self.clean(t, w),
            (Ty::Address | Ty::Contract(_), Ty::UInt(_)) => self.clean(t, w),
            (Ty::BytesN(_), Ty::BytesN(_)) => self.clean(t, w),
            (Ty::BytesN(20), Ty::Address) => w.shr(W::u(96)),
            (Ty::UInt(_) | Ty::Contract(_) | Ty::Address | Ty::Lit, Ty::Address | Ty::Contract(_)) => self.clean(Ty::Address, w),
            (Ty::DynBytes | Ty::String, Ty::DynBytes | Ty::String) => w,
            (Ty::UInt(_) | Ty::Lit, Ty::Enum(_)) => w,
            (a, b) if a == b => w,
            _ => match self.coerce(v, t) {
                Ok(w) => w,
                Err(_) => return no(),
            },
        })
    }
    fn mobile(t: Ty, w: W) -> R<Ty> {
        Ok(match t {
            Ty::Lit => Ty::UInt((((w.bits() + 7) / 8).max(1) * 8) as u16),
            Ty::NegLit => Ty::Int(((w.neg().sub(W::ONE).bits() + 8) / 8 * 8) as u16),
            Ty::StrLit(_) => Ty::String,
            t => t,
        })
    }
    fn common(a: Val, b: Val) -> R<Ty> {
        let (x, y) = (Self::mobile(a.0, a.1)?, Self::mobile(b.0, b.1)?);
        Ok(match (x, y) {
            (x, y) if x == y => x,
            (Ty::UInt(m), Ty::UInt(n)) => Ty::UInt(m.max(n)),
            (Ty::Int(m), Ty::Int(n)) => Ty::Int(m.max(n)),
            (Ty::UInt(m), Ty::Int(n)) | (Ty::Int(n), Ty::UInt(m)) => {
                if matches!(a.0, Ty::Lit) || matches!(b.0, Ty::Lit) {
                    Ty::Int(n.max(m))
                } else if m < n {
                    Ty::Int(n)
                } else {
                    return unsup("mixed signs");
                }
            }
            (Ty::BytesN(m), Ty::BytesN(n)) => Ty::BytesN(m.max(n)),
            (Ty::BytesN(n), Ty::UInt(_)) if b.0 == Ty::Lit => Ty::BytesN(n),
            (Ty::UInt(_), Ty::BytesN(n)) if a.0 == Ty::Lit => Ty::BytesN(n),
            (Ty::BytesN(n), Ty::String) if matches!(b.0, Ty::StrLit(_)) => Ty::BytesN(n),
            (Ty::Address, Ty::UInt(_)) | (Ty::UInt(_), Ty::Address) => Ty::Address,
            (Ty::Address, Ty::Contract(_)) | (Ty::Contract(_), Ty::Address) => Ty::Address,
            (Ty::Contract(_), Ty::Contract(_)) => Ty::Address,
            _ => return unsup(format!("operands {:?} {:?}", a.0, b.0)),
        })
    }
    fn binop(&mut self, op: Op, a: Val, b: Val) -> R<Val> {
        use Op::*;
        let islit = |t: Ty| matches!(t, Ty::Lit | Ty::NegLit);
        if islit(a.0) && islit(b.0) {
            return self.literal(op, a, b);
        }
        if matches!(op, Shl | Shr | Pow) {
            let t = Self::mobile(a.0, a.1)?;
            let r = match (op, t) {
                (Shl, Ty::BytesN(_)) => a.1.shl(b.1),
                (Shr, Ty::BytesN(_)) => a.1.shr(b.1),
                (Shl, _) => a.1.shl(b.1),
                (Shr, Ty::Int(_)) => sar(a.1, b.1),
                (Shr, _) => a.1.shr(b.1),
                (_, Ty::UInt(_)) => a.1.pow(b.1),
                _ => return unsup("power of a signed number"),
            };
            return Ok((t, self.clean(t, r)));
        }
        let t = Self::common(a, b)?;
        let co = |vm: &mut Vm, v: Val| -> R<W> {
            match (v.0, t) {
                (Ty::Contract(_), Ty::Address) => Ok(v.1),
                _ => vm.coerce(v, t),
            }
        };
        let (x, y) = (co(self, a)?, co(self, b)?);
        let signed = matches!(t, Ty::Int(_));
        let arith = matches!(t, Ty::UInt(_) | Ty::Int(_));
        let r = match op {
            Add | Sub | Mul | Div | Mod if !arith => return unsup("arithmetic on this type"),
            Add => x.add(y),
            Sub => x.sub(y),
            Mul => x.mul(y),
            Div | Mod if y.is_zero() => return revert("division by zero"),
            Div if signed => sdiv(x, y).0,
            Mod if signed => sdiv(x, y).1,
            Div => x.divrem(y).0,
            Mod => x.divrem(y).1,
            And => x.and(y),
            Or => x.or(y),
            Xor => x.xor(y),
            Eq => return Ok((Ty::Bool, W::b(x == y))),
            Ne => return Ok((Ty::Bool, W::b(x != y))),
            Lt => return Ok((Ty::Bool, W::b(if signed { signed_lt(x, y) } else { x < y }))),
            Gt => return Ok((Ty::Bool, W::b(if signed { signed_lt(y, x) } else { x > y }))),
            Le => return Ok((Ty::Bool, W::b(if signed { !signed_lt(y, x) } else { x <= y }))),
            Ge => return Ok((Ty::Bool, W::b(if signed { !signed_lt(x, y) } else { x >= y }))),
            _ => return unsup("operator"),
        };
        Ok((t, self.clean(t, r)))
    }
    fn literal(&mut self, op: Op, a: Val, b: Val) -> R<Val> {
        use Op::*;
        let val = |neg: bool, mag: W| if neg && !mag.is_zero() { (Ty::NegLit, mag.neg()) } else { (Ty::Lit, mag) };
        let split = |v: Val| if v.0 == Ty::NegLit { (true, v.1.neg()) } else { (false, v.1) };
        let ((n, x), (m, y)) = (split(a), split(b));
        let add = |n: bool, x: W, m: bool, y: W| -> R<Val> {
            if n == m {
                let (s, c) = x.carry_add(y);
                if c {
                    return unsup("literal too large");
                }
                Ok(val(n, s))
            } else if x >= y {
                Ok(val(n, x.sub(y)))
            } else {
                Ok(val(m, y.sub(x)))
            }
        };
        let fits = |bits: usize, v: Val| if bits <= 256 { Ok(v) } else { unsup("literal too large") };
        match op {
            Add => add(n, x, m, y),
            Sub => add(n, x, !m, y),
            Mul => fits(x.bits() + y.bits(), val(n != m, x.mul(y))),
            Div | Mod if y.is_zero() => unsup("division by zero"),
            Div => {
                let (q, r) = x.divrem(y);
                if !r.is_zero() {
                    return unsup("fraction literal");
                }
                Ok(val(n != m, q))
            }
            Mod => Ok(val(n, x.divrem(y).1)),
            Pow if !m => {
                let e = y.small().unwrap_or(u64::MAX);
                if x.bits() > 1 && e > 256 || (x.bits() as u64 - x.bits().min(1) as u64) * e.min(300) > 255 {
                    return unsup("literal too large");
                }
                Ok(val(n && y.bit(0), x.pow(y)))
            }
            Shl if !n && !m => fits(x.bits() + y.small().map_or(300, |k| k.min(300)) as usize, (Ty::Lit, x.shl(y))),
            Shr if !n && !m => Ok((Ty::Lit, x.shr(y))),
            And if !n && !m => Ok((Ty::Lit, x.and(y))),
            Or if !n && !m => Ok((Ty::Lit, x.or(y))),
            Xor if !n && !m => Ok((Ty::Lit, x.xor(y))),
            Eq => Ok((Ty::Bool, W::b(a == b))),
            Ne => Ok((Ty::Bool, W::b(a != b))),
            Lt => Ok((Ty::Bool, W::b(signed_lt(a.1, b.1)))),
            Gt => Ok((Ty::Bool, W::b(signed_lt(b.1, a.1)))),
            Le => Ok((Ty::Bool, W::b(!signed_lt(b.1, a.1)))),
            Ge => Ok((Ty::Bool, W::b(!signed_lt(a.1, b.1)))),
            _ => unsup("literal operator"),
        }
    }
    // names
    fn local(f: &Frame, s: Sym) -> Option<usize> {
        f.vars.iter().rposition(|v| v.0 == s)
    }
    /// a constant or state variable visible from `owner`
    fn find_var(&self, owner: usize, s: Sym) -> Option<(usize, usize)> {
        for c in &self.g.contracts[owner].line {
            if let Some(i) = self.g.contracts[*c].vars.iter().position(|v| v.name == s) {
                return Some((*c, i));
            }
        }
        None
    }
    fn var_value(&mut self, c: usize, i: usize) -> R<Val> {
        let g = self.g.clone();
        let v = &g.contracts[c].vars[i];
        if v.constant {
            if let Some(v) = self.consts.borrow().get(&(c, v.name)) {
                return Ok(*v);
            }
            let t = self.resolve(&v.ty, c)?;
            let mut f = Frame { owner: c, ..Frame::default() };
            let e = match &v.init {
                Some(e) => self.eval(&mut f, e)?,
                None => return unsup("constant without value"),
            };
            let w = self.coerce(e, t)?;
            if !Self::is_ref(t) {
                self.consts.borrow_mut().insert((c, v.name), (t, w));
            }
            return Ok((t, w));
        }
        match self.insts[self.inst].state.get(&(c, v.name)) {
            Some(v) => Ok(*v),
            None => {
                let t = self.resolve(&v.ty, c)?;
                if Self::is_ref(t) {
                    return unsup("storage references");
                }
                Ok((t, W::ZERO))
            }
        }
    }
    /// functions of this name that internal calls in `owner` may refer to, most derived first
    fn candidates(&self, owner: usize, s: Sym, kind: Kind) -> Vec<usize> {
        let line = if self.g.contracts[owner].library {
            vec![owner]
        } else {
            self.g.contracts[self.insts[self.inst].class].line.clone()
        };
        // code of a contract that this instance does not derive from (should not happen)
        let line = if line.contains(&owner) { line } else { self.g.contracts[owner].line.clone() };
        self.collect(&line, s, kind)
    }
    fn collect(&self, line: &[usize], s: Sym, kind: Kind) -> Vec<usize> {
        let mut v = vec![];
        for c in line {
            for f in &self.g.contracts[*c].functions {
                let d = &self.g.functions[*f];
                if d.name == s && d.kind == kind && d.body.is_some() {
                    v.push(*f);
                }
            }
        }
        v
    }
    fn accepts(&mut self, f: usize, args: &[Val]) -> R<bool> {
        let d = self.g.functions[f].clone();
        if d.params.len() != args.len() {
            return Ok(false);
        }
        for (p, a) in d.params.iter().zip(args) {
            let t = self.resolve(&p.ty, d.owner)?;
            if t == a.0 {
                continue;
            }
            if matches!(a.0, Ty::StrLit(_)) && matches!(t, Ty::DynBytes | Ty::String) {
                continue;
            }
            if Self::is_ref(t) || Self::is_ref(a.0) || self.coerce(*a, t).is_err() {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn choose(&mut self, c: &[usize], args: &[Val], what: &str) -> R<usize> {
        for f in c {
            if self.accepts(*f, args)? {
                return Ok(*f);
            }
        }
        unsup(format!("no function {} for these arguments", what))
    }
    // calls
    /// calls a function of a contract or library in a fresh memory, whatever its visibility; returns the results and
    /// the contents of the arguments afterwards
    pub fn call(&mut self, inst: usize, name: &str, args: &[Tree]) -> R<(Vec<Tree>, Vec<Tree>)> {
        let s = match self.sym(name) {
            Some(s) => s,
            None => return unsup(format!("no function {}", name)),
        };
        self.steps = 0;
        let line = self.g.contracts[self.insts[inst].class].line.clone();
        let c = self.collect(&line, s, Kind::Function);
        let f = match c.iter().find(|f| self.g.functions[**f].params.len() == args.len()) {
            Some(f) => *f,
            None => return unsup(format!("no function {} with {} parameters", name, args.len())),
        };
        self.call_fn(inst, f, args)
    }
    /// the type as it would be written; structures by their members
    fn type_text(&mut self, t: Ty) -> R<String> {
        Ok(match t {
            Ty::Bool => "bool".into(),
            Ty::UInt(n) => format!("uint{}", n),
            Ty::Int(n) => format!("int{}", n),
            Ty::BytesN(n) => format!("bytes{}", n),
            Ty::Address => "address".into(),
            Ty::DynBytes => "bytes".into(),
            Ty::String => "string".into(),
            Ty::Array(e) => {
                let e = self.elem(e);
                format!("{}[]", self.type_text(e)?)
            }
            Ty::Fixed(e, n) => {
                let e = self.elem(e);
                format!("{}[{}]", self.type_text(e)?, n)
            }
            Ty::Struct(s) => {
                let f = self.struct_fields(s)?;
                let mut v = vec![];
                for (n, t) in f.iter() {
                    v.push(format!("{} {}", self.type_text(*t)?, self.name(*n)));
                }
                format!("{{{}}}", v.join(", "))
            }
            _ => return unsup("type of a parameter"),
        })
    }
    /// as `call`, for the function whose parameters have these types and names, in whatever order, and whose results
    /// have these types
    pub fn call_named(&mut self, inst: usize, name: &str, ret: &[&str], args: &[(&str, &str, Tree)]) -> R<(Vec<Tree>, Vec<Tree>)> {
        let s = match self.sym(name) {
            Some(s) => s,
            None => return unsup(format!("no function {}", name)),
        };
        self.steps = 0;
        let line = self.g.contracts[self.insts[inst].class].line.clone();
        'f: for f in self.collect(&line, s, Kind::Function) {
            let d = self.g.functions[f].clone();
            if d.params.len() != args.len() || d.returns.len() != ret.len() {
                continue;
            }
            for (r, t) in d.returns.iter().zip(ret) {
                let r = self.resolve(&r.ty, d.owner)?;
                if self.type_text(r)? != *t {
                    continue 'f;
                }
            }
            let mut order = vec![];
            for p in &d.params {
                let t = self.resolve(&p.ty, d.owner)?;
                let t = self.type_text(t)?;
                let n = p.name.map_or(String::new(), |n| self.name(n));
                match args.iter().position(|a| a.0 == t && a.1 == n) {
                    Some(i) => order.push(i),
                    None => continue 'f,
                }
            }
            let given: Vec<Tree> = order.iter().map(|i| args[*i].2.clone()).collect();
            let (r, after) = self.call_fn(inst, f, &given)?;
            let mut back = vec![Tree::Seq(vec![]); args.len()];
            for (i, t) in order.into_iter().zip(after) {
                back[i] = t;
            }
            return Ok((r, back));
        }
        unsup(format!("no function {} with these parameters", name))
    }
    fn call_fn(&mut self, inst: usize, f: usize, args: &[Tree]) -> R<(Vec<Tree>, Vec<Tree>)> {
        let d = self.g.functions[f].clone();
        let old = self.fresh();
        let (oi, ocd) = (self.inst, self.calldata.take());
        self.inst = inst;
        self.depth += 1;
        let r = (|| {
            let mut v = vec![];
            for (p, a) in d.params.iter().zip(args) {
                let t = self.resolve(&p.ty, d.owner)?;
                v.push((t, self.plant(t, a)?));
            }
            let out = self.run(f, v.clone())?;
            let mut t = vec![];
            for (ty, w) in out {
                t.push(self.tree(ty, w)?);
            }
            let mut after = vec![];
            for (ty, w) in v {
                // arguments may have been left in a state that is not readable
                after.push(self.tree(ty, w).unwrap_or(Tree::Seq(vec![])));
            }
            Ok((t, after))
        })();
        self.depth -= 1;
        self.mem = old;
        self.inst = oi;
        self.calldata = ocd;
        r
    }
    /// raw call with call data
    pub fn call_raw(&mut self, inst: usize, data: &[u8]) -> R<Vec<u8>> {
        let line = self.g.contracts[self.insts[inst].class].line.clone();
        let name = match self.sym("fallback") {
            Some(s) => s,
            None => return unsup("raw call of a contract without fallback"),
        };
        let f = match self.collect(&line, name, Kind::Fallback).first() {
            Some(f) => *f,
            None => return unsup("raw call of a contract without fallback"),
        };
        if self.depth > 40 {
            return revert("call depth");
        }
        let old = self.fresh();
        let (oi, ocd) = (self.inst, self.calldata.replace(data.to_vec()));
        self.inst = inst;
        self.depth += 1;
        let r = self.run(f, vec![]);
        self.depth -= 1;
        self.mem = old;
        self.inst = oi;
        self.calldata = ocd;
        match r {
            Ok(_) => Ok(vec![]),
            Err(Stop::Halt(b)) => Ok(b),
            Err(e) => Err(e),
        }
    }
    /// new instance of a contract or library
    pub fn deploy(&mut self, class: usize, args: &[Val]) -> R<usize> {
        let g = self.g.clone();
        let id = self.insts.len();
        self.insts.push(Instance { class, state: HashMap::new() });
        let old = self.fresh();
        let oi = std::mem::replace(&mut self.inst, id);
        let r = (|| {
            let line = g.contracts[class].line.clone();
            let mut given: HashMap<usize, Vec<Val>> = HashMap::new();
            given.insert(class, args.to_vec());
            let ctor = |c: usize| g.contracts[c].functions.iter().copied().find(|f| g.functions[*f].kind == Kind::Constructor);
            for c in &line {
                for (p, a) in &g.contracts[*c].bases {
                    if let (Some(a), Some(b)) = (a, g.by_name.get(p.last().unwrap())) {
                        let mut f = Frame { owner: *c, ..Frame::default() };
                        let mut v = vec![];
                        for e in a {
                            v.push(self.eval(&mut f, e)?);
                        }
                        given.insert(*b, v);
                    }
                }
                if let Some(k) = ctor(*c) {
                    let d = g.functions[k].clone();
                    let mut f = Frame { owner: *c, ..Frame::default() };
                    let have = given.get(c).cloned().unwrap_or_default();
                    if have.len() == d.params.len() {
                        for (p, v) in d.params.iter().zip(have) {
                            let t = self.resolve(&p.ty, *c)?;
                            let w = self.coerce(v, t)?;
                            f.vars.push((p.name.unwrap_or(Sym::MAX), t, w));
                        }
                        for (p, a) in &d.modifiers {
                            if let (Some(a), Some(b)) = (a, g.by_name.get(p.last().unwrap())) {
                                let mut v = vec![];
                                for e in a {
                                    v.push(self.eval(&mut f, e)?);
                                }
                                given.insert(*b, v);
                            }
                        }
                    }
                }
            }
            for c in line.iter().rev() {
                for v in g.contracts[*c].vars.iter().filter(|v| !v.constant) {
                    let t = self.resolve(&v.ty, *c)?;
                    if let Some(e) = &v.init {
                        let mut f = Frame { owner: *c, ..Frame::default() };
                        let e = self.eval(&mut f, e)?;
                        let w = self.coerce(e, t)?;
                        self.insts[id].state.insert((*c, v.name), (t, w));
                    }
                }
                if let Some(k) = ctor(*c) {
                    let a = given.get(c).cloned().unwrap_or_default();
                    self.run(k, a)?;
                }
            }
            Ok(id)
        })();
        self.mem = old;
        self.inst = oi;
        r
    }
    pub fn address(inst: usize) -> W {
        W::u(0x10000 + inst as u64)
    }
    fn instance(&self, w: W) -> Option<usize> {
        w.small().and_then(|a| a.checked_sub(0x10000)).map(|i| i as usize).filter(|i| *i < self.insts.len())
    }
    fn run(&mut self, f: usize, args: Vec<Val>) -> R<Vec<Val>> {
        let d = self.g.functions[f].clone();
        self.tick()?;
        if self.depth > 60 {
            return revert("call depth");
        }
        if args.len() != d.params.len() {
            return unsup("number of arguments");
        }
        let mut fr = Frame { owner: d.owner, ..Frame::default() };
        for (p, a) in d.params.iter().zip(args) {
            let t = self.resolve(&p.ty, d.owner)?;
            let w = self.coerce(a, t)?;
            fr.vars.push((p.name.unwrap_or(Sym::MAX), t, w));
        }
        fr.ret = fr.vars.len();
        for p in &d.returns {
            let t = self.resolve(&p.ty, d.owner)?;
            let w = self.default(t)?;
            fr.vars.push((p.name.unwrap_or(Sym::MAX), t, w));
        }
        self.depth += 1;
        let r = self.modified(&mut fr, &d, 0);
        self.depth -= 1;
        r?;
        Ok((0..d.returns.len()).map(|i| (fr.vars[fr.ret + i].1, fr.vars[fr.ret + i].2)).collect())
    }
    /// body of a function inside its modifiers from the given one on
    fn modified(&mut self, fr: &mut Frame, d: &Rc<Function>, m: usize) -> R<()> {
        let body = match &d.body {
            Some(b) => b,
            None => return unsup("function without body"),
        };
        let mut m = m;
        while m < d.modifiers.len() {
            let (p, a) = &d.modifiers[m];
            let s = *p.last().unwrap();
            let c = self.candidates(d.owner, s, Kind::Modifier);
            match c.first() {
                None if d.kind == Kind::Constructor => m += 1,
                None => return unsup("modifier"),
                Some(k) => {
                    let md = self.g.functions[*k].clone();
                    let keep = fr.vars.len();
                    let empty = vec![];
                    let mut vals = vec![];
                    for (p, e) in md.params.iter().zip(a.as_ref().unwrap_or(&empty)) {
                        let v = self.eval(fr, e)?;
                        let t = self.resolve(&p.ty, md.owner)?;
                        let w = self.coerce(v, t)?;
                        vals.push((p.name.unwrap_or(Sym::MAX), t, w));
                    }
                    if vals.len() != md.params.len() {
                        return unsup("modifier arguments");
                    }
                    fr.vars.extend(vals);
                    fr.placeholder.push((d.clone(), m + 1, keep));
                    let owner = std::mem::replace(&mut fr.owner, md.owner);
                    let mb = md.body.as_ref().unwrap();
                    let r = self.block(fr, mb);
                    fr.owner = owner;
                    fr.placeholder.pop();
                    fr.vars.truncate(keep);
                    r?;
                    return Ok(());
                }
            }
        }
        self.block(fr, body)?;
        Ok(())
    }
    // statements
    fn block(&mut self, f: &mut Frame, b: &[Stmt]) -> R<Flow> {
        let keep = f.vars.len();
        for s in b {
            match self.stmt(f, s)? {
                Flow::Next => {}
                x => {
                    f.vars.truncate(keep);
                    return Ok(x);
                }
            }
        }
        f.vars.truncate(keep);
        Ok(Flow::Next)
    }
    fn truth(&mut self, f: &mut Frame, e: &Expr) -> R<bool> {
        let v = self.eval(f, e)?;
        if v.0 != Ty::Bool {
            return unsup("condition that is not boolean");
        }
        Ok(!v.1.is_zero())
    }
    fn stmt(&mut self, f: &mut Frame, s: &Stmt) -> R<Flow> {
        self.tick()?;
        match s {
            Stmt::Block(b) => return self.block(f, b),
            Stmt::Decl(ps, init) => {
                let mut vals = match init {
                    Some(e) => Some(self.multi(f, e)?),
                    None => None,
                };
                if let Some(v) = &vals {
                    if v.len() != ps.len() {
                        return unsup("number of values");
                    }
                }
                for (i, p) in ps.iter().enumerate() {
                    if let Some(p) = p {
                        let t = self.resolve(&p.ty, f.owner)?;
                        let w = match &mut vals {
                            Some(v) => self.coerce(v[i], t)?,
                            None => self.default(t)?,
                        };
                        f.vars.push((p.name.unwrap(), t, w));
                    }
                }
            }
            Stmt::Expr(e) => {
                self.multi(f, e)?;
            }
            Stmt::If(c, a, b) => {
                let keep = f.vars.len();
                let r = if self.truth(f, c)? {
                    self.stmt(f, a)
                } else if let Some(b) = b {
                    self.stmt(f, b)
                } else {
                    Ok(Flow::Next)
                };
                f.vars.truncate(keep);
                return r;
            }
            Stmt::For(init, cond, step, body) => {
                let keep = f.vars.len();
                if let Some(i) = init {
                    self.stmt(f, i)?;
                }
                loop {
                    self.tick()?;
                    if let Some(c) = cond {
                        if !self.truth(f, c)? {
                            break;
                        }
                    }
                    let k = f.vars.len();
                    match self.stmt(f, body)? {
                        Flow::Break => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                    f.vars.truncate(k);
                    if let Some(s) = step {
                        self.multi(f, s)?;
                    }
                }
                f.vars.truncate(keep);
            }
            Stmt::While(c, body) => {
                while self.truth(f, c)? {
                    self.tick()?;
                    let k = f.vars.len();
                    match self.stmt(f, body)? {
                        Flow::Break => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                    f.vars.truncate(k);
                }
            }
            Stmt::DoWhile(body, c) => loop {
                self.tick()?;
                match self.stmt(f, body)? {
                    Flow::Break => break,
                    Flow::Return => return Ok(Flow::Return),
                    _ => {}
                }
                if !self.truth(f, c)? {
                    break;
                }
            },
            Stmt::Return(e) => {
                if let Some(e) = e {
                    let v = self.multi(f, e)?;
                    for (i, v) in v.iter().enumerate() {
                        let at = f.ret + i;
                        if at >= f.vars.len() {
                            return unsup("number of results");
                        }
                        let t = f.vars[at].1;
                        f.vars[at].2 = self.coerce(*v, t)?;
                    }
                }
                return Ok(Flow::Return);
            }
            Stmt::Break => return Ok(Flow::Break),
            Stmt::Continue => return Ok(Flow::Continue),
            Stmt::Emit(e) => {
                if let Expr::Call(_, a) = e {
                    for x in &a.pos {
                        self.eval(f, x)?;
                    }
                }
            }
            Stmt::Asm(y) => {
                let fns = f.yfns.len();
                let r = self.yblock(f, y);
                f.yfns.truncate(fns);
                r?;
            }
            Stmt::Placeholder => {
                let (d, m, keep) = match f.placeholder.last() {
                    Some(p) => p.clone(),
                    None => return unsup("placeholder"),
                };
                // the body sees the variables of the function only
                let hidden = f.vars.split_off(keep);
                let owner = std::mem::replace(&mut f.owner, d.owner);
                let top = f.placeholder.pop().unwrap();
                let r = self.modified(f, &d, m);
                f.placeholder.push(top);
                f.owner = owner;
                f.vars.truncate(keep);
                f.vars.extend(hidden);
                r?;
            }
        }
        Ok(Flow::Next)
    }
    // expressions
    fn multi(&mut self, f: &mut Frame, e: &Expr) -> R<Vec<Val>> {
        match e {
            Expr::Call(c, a) => self.call_expr(f, c, a),
            Expr::Tuple(v) if v.len() != 1 => {
                let mut o = vec![];
                for x in v {
                    match x {
                        Some(x) => o.push(self.eval(f, x)?),
                        None => return unsup("empty tuple component"),
                    }
                }
                Ok(o)
            }
            Expr::Cond(c, a, b) => {
                if self.truth(f, c)? {
                    self.multi(f, a)
                } else {
                    self.multi(f, b)
                }
            }
            Expr::Assign(None, l, r) if matches!(&**l, Expr::Tuple(v) if v.len() != 1) => {
                let vals = self.multi(f, r)?;
                let ls = match &**l {
                    Expr::Tuple(v) => v,
                    _ => unreachable!(),
                };
                if ls.len() != vals.len() {
                    return unsup("number of values");
                }
                let mut lv = vec![];
                for l in ls {
                    lv.push(match l {
                        Some(l) => self.lvalue(f, l)?,
                        None => Lv::Skip,
                    });
                }
                for (l, v) in lv.iter().zip(&vals).rev() {
                    self.set(f, l, *v)?;
                }
                Ok(vals)
            }
            _ => Ok(vec![self.eval(f, e)?]),
        }
    }
    fn lvalue(&mut self, f: &mut Frame, e: &Expr) -> R<Lv> {
        match e {
            Expr::Tuple(v) if v.len() == 1 => match &v[0] {
                Some(e) => self.lvalue(f, e),
                None => unsup("assignment target"),
            },
            Expr::Ident(s) => {
                if let Some(i) = Self::local(f, *s) {
                    return Ok(Lv::Local(i));
                }
                if let Some((c, i)) = self.find_var(f.owner, *s) {
                    let g = self.g.clone();
                    let t = self.resolve(&g.contracts[c].vars[i].ty, c)?;
                    if Self::is_ref(t) {
                        return unsup("storage references");
                    }
                    return Ok(Lv::State(c, *s, t));
                }
                unsup(format!("name {}", self.name(*s)))
            }
            Expr::Member(b, m) => {
                let v = self.eval(f, b)?;
                match v.0 {
                    Ty::Struct(s) => {
                        let fs = self.struct_fields(s)?;
                        match fs.iter().position(|x| x.0 == *m) {
                            Some(i) => {
                                let p = self.addr(v.1)?;
                                Ok(Lv::Mem(p + 32 * i as u64, fs[i].1))
                            }
                            None => unsup(format!("member {}", self.name(*m))),
                        }
                    }
                    _ => unsup(format!("assignment to member {}", self.name(*m))),
                }
            }
            Expr::Index(b, Some(i)) => {
                let v = self.eval(f, b)?;
                let i = self.eval(f, i)?;
                self.place(v, i)
            }
            _ => unsup("assignment target"),
        }
    }
    fn place(&mut self, v: Val, i: Val) -> R<Lv> {
        if !matches!(i.0, Ty::UInt(_) | Ty::Lit) {
            return unsup("index type");
        }
        let p = self.addr(v.1)?;
        let (n, base, e) = match v.0 {
            Ty::Array(e) => {
                let n = self.load(p)?;
                (n, p + 32, self.elem(e))
            }
            Ty::Fixed(e, n) => (W::u(u64::from(n)), p, self.elem(e)),
            Ty::DynBytes => {
                let n = self.load(p)?;
                if i.1 >= n {
                    return revert("index out of bounds");
                }
                let i = self.addr(i.1)?;
                return Ok(Lv::Byte(p + 32 + i));
            }
            t => return unsup(format!("index of {:?}", t)),
        };
        if i.1 >= n {
            return revert("index out of bounds");
        }
        let i = self.addr(i.1)?;
        Ok(Lv::Mem(base + 32 * i, e))
    }
    fn get(&mut self, f: &Frame, l: &Lv) -> R<Val> {
        match l {
            Lv::Local(i) => Ok((f.vars[*i].1, self.clean(f.vars[*i].1, f.vars[*i].2))),
            Lv::Mem(a, t) => {
                let w = self.load(*a)?;
                Ok((*t, self.clean(*t, w)))
            }
            Lv::Byte(a) => {
                self.touch(*a, 1)?;
                let mut b = [0; 32];
                b[0] = self.mem[*a as usize];
                Ok((Ty::BytesN(1), W::from_be(&b)))
            }
            Lv::State(c, s, t) => Ok(self.insts[self.inst].state.get(&(*c, *s)).copied().unwrap_or((*t, W::ZERO))),
            Lv::Skip => unsup("empty target"),
        }
    }
    fn set(&mut self, f: &mut Frame, l: &Lv, v: Val) -> R<()> {
        match l {
            Lv::Local(i) => {
                let t = f.vars[*i].1;
                f.vars[*i].2 = self.coerce(v, t)?;
            }
            Lv::Mem(a, t) => {
                let w = self.coerce(v, *t)?;
                self.store(*a, w)?;
            }
            Lv::Byte(a) => {
                let w = self.coerce(v, Ty::BytesN(1))?;
                self.put(*a, &w.be()[..1])?;
            }
            Lv::State(c, s, t) => {
                let w = self.coerce(v, *t)?;
                let i = self.inst;
                self.insts[i].state.insert((*c, *s), (*t, w));
            }
            Lv::Skip => {}
        }
        Ok(())
    }
    fn eval(&mut self, f: &mut Frame, e: &Expr) -> R<Val> {
        self.steps += 1;
        match e {
            Expr::Num(w) => Ok((Ty::Lit, *w)),
            Expr::Bool(b) => Ok((Ty::Bool, W::b(*b))),
            Expr::Str(i) => Ok((Ty::StrLit(*i), W::ZERO)),
            Expr::Ident(s) => {
                if let Some(i) = Self::local(f, *s) {
                    return Ok((f.vars[i].1, self.clean(f.vars[i].1, f.vars[i].2)));
                }
                if let Some((c, i)) = self.find_var(f.owner, *s) {
                    return self.var_value(c, i);
                }
                match self.b.get(s) {
                    Some(&"now") => Ok((Ty::UInt(256), W::u(1_600_000_000))),
                    Some(&"this") => Ok((Ty::Contract(self.insts[self.inst].class as u32), Self::address(self.inst))),
                    _ => unsup(format!("name {}", self.name(*s))),
                }
            }
            Expr::Tuple(v) if v.len() == 1 => match &v[0] {
                Some(e) => self.eval(f, e),
                None => unsup("empty tuple"),
            },
            Expr::Call(..) => {
                let v = self.multi(f, e)?;
                match v.len() {
                    1 => Ok(v[0]),
                    0 => Ok((Ty::Bool, W::ZERO)),
                    _ => unsup("several values"),
                }
            }
            Expr::Member(b, m) => self.member(f, b, *m),
            Expr::Index(b, Some(i)) => {
                let v = self.eval(f, b)?;
                let i = self.eval(f, i)?;
                if let Ty::BytesN(n) = v.0 {
                    return match i.1.small().filter(|i| *i < u64::from(n)) {
                        Some(i) => Ok((Ty::BytesN(1), self.clean(Ty::BytesN(1), v.1.shl(W::u(8 * i))))),
                        None => revert("index out of bounds"),
                    };
                }
                let l = self.place(v, i)?;
                self.get(f, &l)
            }
            Expr::Slice(b, from, to) => {
                let v = self.eval(f, b)?;
                if v.0 != Ty::DynBytes {
                    return unsup("slice");
                }
                let d = self.bytes_at(v.1)?;
                let a = match from {
                    Some(e) => self.eval(f, e)?.1,
                    None => W::ZERO,
                };
                let z = match to {
                    Some(e) => self.eval(f, e)?.1,
                    None => W::u(d.len() as u64),
                };
                if a > z || z > W::u(d.len() as u64) {
                    return revert("slice out of bounds");
                }
                let w = self.new_bytes(&d[a.0[0] as usize..z.0[0] as usize])?;
                Ok((Ty::DynBytes, w))
            }
            Expr::Un(u, e) => self.unary(f, *u, e),
            Expr::Bin(Op::LAnd, a, b) => {
                if !self.truth(f, a)? {
                    return Ok((Ty::Bool, W::ZERO));
                }
                Ok((Ty::Bool, W::b(self.truth(f, b)?)))
            }
            Expr::Bin(Op::LOr, a, b) => {
                if self.truth(f, a)? {
                    return Ok((Ty::Bool, W::ONE));
                }
                Ok((Ty::Bool, W::b(self.truth(f, b)?)))
            }
            Expr::Bin(op, a, b) => {
                // the compiler evaluates the right operand first
                let y = self.eval(f, b)?;
                let x = self.eval(f, a)?;
                self.binop(*op, x, y)
            }
            Expr::Assign(op, l, r) => {
                if let (None, Expr::Tuple(v)) = (op, &**l) {
                    if v.len() != 1 {
                        self.multi(f, e)?;
                        return Ok((Ty::Bool, W::ZERO));
                    }
                }
                let v = self.eval(f, r)?;
                let l = self.lvalue(f, l)?;
                let v = match op {
                    None => v,
                    Some(op) => {
                        let old = self.get(f, &l)?;
                        let n = self.binop(*op, old, v)?;
                        (old.0, self.narrow(n, old.0)?)
                    }
                };
                self.set(f, &l, v)?;
                self.get(f, &l)
            }
            Expr::Cond(c, a, b) => {
                if self.truth(f, c)? {
                    self.eval(f, a)
                } else {
                    self.eval(f, b)
                }
            }
            Expr::Inline(v) => {
                let mut x = vec![];
                for e in v {
                    x.push(self.eval(f, e)?);
                }
                if x.is_empty() {
                    return unsup("empty array");
                }
                let mut t = Self::mobile(x[0].0, x[0].1)?;
                for y in &x[1..] {
                    t = Self::common((t, W::ZERO), *y)?;
                }
                let p = self.alloc(32 * x.len() as u64)?;
                for (i, y) in x.iter().enumerate() {
                    let w = self.coerce(*y, t)?;
                    self.store(p + 32 * i as u64, w)?;
                }
                let n = x.len() as u32;
                Ok((Ty::Fixed(self.intern_type(t), n), W::u(p)))
            }
            _ => unsup("expression"),
        }
    }
    /// result of a compound assignment
    fn narrow(&mut self, v: Val, t: Ty) -> R<W> {
        match (v.0, t) {
            (Ty::UInt(a), Ty::UInt(b)) if a > b => unsup("compound assignment that narrows"),
            _ => self.coerce(v, t),
        }
    }
    fn unary(&mut self, f: &mut Frame, u: Un, e: &Expr) -> R<Val> {
        match u {
            Un::Not => Ok((Ty::Bool, W::b(!self.truth(f, e)?))),
            Un::Plus => self.eval(f, e),
            Un::Neg => {
                let v = self.eval(f, e)?;
                match v.0 {
                    Ty::Lit if v.1.is_zero() => Ok(v),
                    Ty::Lit => Ok((Ty::NegLit, v.1.neg())),
                    Ty::NegLit => Ok((Ty::Lit, v.1.neg())),
                    Ty::UInt(_) | Ty::Int(_) => Ok((v.0, self.clean(v.0, v.1.neg()))),
                    _ => unsup("negation"),
                }
            }
            Un::BitNot => {
                let v = self.eval(f, e)?;
                match v.0 {
                    Ty::UInt(_) | Ty::Int(_) | Ty::BytesN(_) => Ok((v.0, self.clean(v.0, v.1.not()))),
                    Ty::Lit => Ok((Ty::NegLit, v.1.not())),
                    _ => unsup("complement"),
                }
            }
            Un::Delete => {
                let l = self.lvalue(f, e)?;
                let t = match &l {
                    Lv::Local(i) => f.vars[*i].1,
                    Lv::Mem(_, t) | Lv::State(_, _, t) => *t,
                    _ => return unsup("delete"),
                };
                let w = self.default(t)?;
                self.set(f, &l, (t, w))?;
                Ok((Ty::Bool, W::ZERO))
            }
            Un::PreInc | Un::PreDec | Un::PostInc | Un::PostDec => {
                let l = self.lvalue(f, e)?;
                let old = self.get(f, &l)?;
                if !matches!(old.0, Ty::UInt(_) | Ty::Int(_)) {
                    return unsup("increment");
                }
                let n = if matches!(u, Un::PreInc | Un::PostInc) { old.1.add(W::ONE) } else { old.1.sub(W::ONE) };
                let n = (old.0, self.clean(old.0, n));
                self.set(f, &l, n)?;
                Ok(if matches!(u, Un::PreInc | Un::PreDec) { n } else { old })
            }
        }
    }
    fn member(&mut self, f: &mut Frame, b: &Expr, m: Sym) -> R<Val> {
        // names of contracts, enumerations and builtin objects
        if let Expr::Ident(s) = b {
            if Self::local(f, *s).is_none() && self.find_var(f.owner, *s).is_none() {
                if let Some(c) = self.g.by_name.get(s).copied() {
                    if let Some((c, i)) = self.find_var(c, m) {
                        return self.var_value(c, i);
                    }
                    return unsup(format!("member {}", self.name(m)));
                }
                for c in self.g.contracts[f.owner].line.clone() {
                    for (e, v) in &self.g.contracts[c].enums {
                        if e == s {
                            if let Some(i) = v.iter().position(|x| *x == m) {
                                return Ok((Ty::Enum(*e), W::u(i as u64)));
                            }
                        }
                    }
                }
                match (self.b.get(s).copied(), self.b.get(&m).copied()) {
                    (Some("msg"), Some("sender")) => return Ok((Ty::Address, W::u(0xCA11))),
                    (Some("msg"), Some("value")) => return Ok((Ty::UInt(256), W::ZERO)),
                    (Some("block"), Some("timestamp" | "number")) => return Ok((Ty::UInt(256), W::u(1_600_000_000))),
                    _ => return unsup(format!("{}.{}", self.name(*s), self.name(m))),
                }
            }
        }
        // type(T).max
        if let Expr::Call(c, a) = b {
            if let (Expr::Ident(s), [Expr::Type(t)]) = (&**c, &a.pos[..]) {
                if self.b.get(s) == Some(&"type") {
                    let t = self.resolve(t, f.owner)?;
                    return match (t, self.b.get(&m).copied()) {
                        (Ty::UInt(n), Some("max")) => Ok((t, mask(n as usize))),
                        (Ty::UInt(_), Some("min")) => Ok((t, W::ZERO)),
                        _ => unsup("type information"),
                    };
                }
            }
        }
        let v = self.eval(f, b)?;
        if m == self.s_length {
            return match v.0 {
                Ty::Array(_) | Ty::DynBytes => {
                    let p = self.addr(v.1)?;
                    Ok((Ty::UInt(256), self.load(p)?))
                }
                Ty::Fixed(_, n) => Ok((Ty::UInt(256), W::u(u64::from(n)))),
                Ty::BytesN(n) => Ok((Ty::UInt(8), W::u(u64::from(n)))),
                _ => unsup("length"),
            };
        }
        if let Ty::Struct(s) = v.0 {
            let fs = self.struct_fields(s)?;
            if let Some(i) = fs.iter().position(|x| x.0 == m) {
                let p = self.addr(v.1)?;
                let w = self.load(p + 32 * i as u64)?;
                return Ok((fs[i].1, self.clean(fs[i].1, w)));
            }
        }
        unsup(format!("member {}", self.name(m)))
    }
    fn args(&mut self, f: &mut Frame, a: &Args) -> R<Vec<Val>> {
        let mut v = vec![];
        for e in &a.pos {
            v.push(self.eval(f, e)?);
        }
        Ok(v)
    }
    /// arguments in the order of the parameters
    fn ordered(&mut self, f: &mut Frame, a: &Args, names: &[Sym]) -> R<Vec<Val>> {
        let v = self.args(f, a)?;
        match &a.names {
            None => Ok(v),
            Some(n) => {
                let mut o = vec![];
                for s in names {
                    match n.iter().position(|x| x == s) {
                        Some(i) => o.push(v[i]),
                        None => return unsup("named arguments"),
                    }
                }
                if o.len() != v.len() {
                    return unsup("named arguments");
                }
                Ok(o)
            }
        }
    }
    fn as_type(&mut self, f: &Frame, e: &Expr) -> R<Option<Ty>> {
        Ok(match e {
            Expr::Type(t) => Some(self.resolve(t, f.owner)?),
            Expr::Tuple(v) if v.len() == 1 => match &v[0] {
                Some(e) => self.as_type(f, e)?,
                None => None,
            },
            Expr::Ident(s) => {
                if Self::local(f, *s).is_some() || self.find_var(f.owner, *s).is_some() {
                    None
                } else {
                    self.user_type(&[*s], f.owner).ok()
                }
            }
            Expr::Member(b, m) => match &**b {
                Expr::Ident(s) if Self::local(f, *s).is_none() => self.user_type(&[*s, *m], f.owner).ok(),
                _ => None,
            },
            Expr::Index(b, None) => match self.as_type(f, b)? {
                Some(t) => Some(Ty::Array(self.intern_type(t))),
                None => None,
            },
            _ => None,
        })
    }
    fn construct(&mut self, f: &mut Frame, s: u32, a: &Args) -> R<Val> {
        let fs = self.struct_fields(s)?;
        let names: Vec<Sym> = fs.iter().map(|x| x.0).collect();
        let v = self.ordered(f, a, &names)?;
        if v.len() != fs.len() {
            return unsup("number of members");
        }
        let p = self.alloc(32 * v.len() as u64)?;
        for (i, v) in v.iter().enumerate() {
            let w = self.coerce(*v, fs[i].1)?;
            self.store(p + 32 * i as u64, w)?;
        }
        Ok((Ty::Struct(s), W::u(p)))
    }
    fn call_expr(&mut self, f: &mut Frame, callee: &Expr, a: &Args) -> R<Vec<Val>> {
        self.tick()?;
        if let Some(t) = self.as_type(f, callee)? {
            if let Ty::Struct(s) = t {
                return Ok(vec![self.construct(f, s, a)?]);
            }
            if a.pos.len() != 1 {
                return unsup("conversion");
            }
            let v = self.eval(f, &a.pos[0])?;
            return Ok(vec![(t, self.convert(v, t)?)]);
        }
        match callee {
            Expr::Tuple(v) if v.len() == 1 && v[0].is_some() => self.call_expr(f, v[0].as_ref().unwrap(), a),
            Expr::New(t) => {
                let t = self.resolve(t, f.owner)?;
                match t {
                    Ty::Array(e) => {
                        let n = self.eval(f, &a.pos[0])?.1;
                        let e = self.elem(e);
                        Ok(vec![(t, self.new_array(e, n)?)])
                    }
                    Ty::DynBytes | Ty::String => {
                        let n = self.eval(f, &a.pos[0])?.1;
                        let n = self.addr(n)?;
                        let w = self.new_bytes(&vec![0; n as usize])?;
                        Ok(vec![(t, w)])
                    }
                    Ty::Contract(c) => {
                        let v = self.args(f, a)?;
                        let i = self.deploy(c as usize, &v)?;
                        Ok(vec![(t, Self::address(i))])
                    }
                    _ => unsup("new"),
                }
            }
            Expr::Ident(s) => {
                let c = self.candidates(f.owner, *s, Kind::Function);
                if !c.is_empty() {
                    return self.internal(f, &c, a, None);
                }
                match self.b.get(s).copied() {
                    Some(b) => self.builtin(f, b, a),
                    None => unsup(format!("function {}", self.name(*s))),
                }
            }
            Expr::Member(b, m) => {
                if let Expr::Ident(s) = &**b {
                    if Self::local(f, *s).is_none() && self.find_var(f.owner, *s).is_none() {
                        if let Some(c) = self.g.by_name.get(s).copied() {
                            // library or base contract
                            let line = self.g.contracts[c].line.clone();
                            let c = self.collect(&line, *m, Kind::Function);
                            return self.internal(f, &c, a, None);
                        }
                        match self.b.get(s).copied() {
                            Some("abi") => {
                                let w = self.name(*m);
                                return self.abi(f, &w, a);
                            }
                            Some("super") => {
                                let line = self.g.contracts[self.insts[self.inst].class].line.clone();
                                let at = line.iter().position(|c| *c == f.owner).map_or(0, |i| i + 1);
                                let c = self.collect(&line[at..], *m, Kind::Function);
                                return self.internal(f, &c, a, None);
                            }
                            Some("console") => {
                                self.args(f, a)?;
                                return Ok(vec![]);
                            }
                            _ => {}
                        }
                    }
                }
                let v = self.eval(f, b)?;
                if let Ty::Contract(_) = v.0 {
                    return self.external(f, v.1, *m, a);
                }
                // functions attached to the type
                let mut c = vec![];
                let g = self.g.clone();
                for k in &g.contracts[f.owner].line {
                    for (lib, t) in &g.contracts[*k].usings {
                        let lib = match g.by_name.get(lib.last().unwrap()) {
                            Some(l) => *l,
                            None => continue,
                        };
                        let fits = match t {
                            None => true,
                            Some(t) => {
                                let t = self.resolve(t, *k)?;
                                t == v.0 || (!Self::is_ref(t) && !Self::is_ref(v.0) && self.coerce(v, t).is_ok())
                            }
                        };
                        if fits {
                            c.extend(self.collect(&[lib], *m, Kind::Function));
                        }
                    }
                }
                if c.is_empty() {
                    return unsup(format!("function {}", self.name(*m)));
                }
                self.internal(f, &c, a, Some(v))
            }
            _ => unsup("call"),
        }
    }
    fn internal(&mut self, f: &mut Frame, c: &[usize], a: &Args, first: Option<Val>) -> R<Vec<Val>> {
        let v = if a.names.is_some() {
            if c.is_empty() {
                return unsup("function");
            }
            let d = self.g.functions[c[0]].clone();
            let names: Vec<Sym> = d.params.iter().skip(usize::from(first.is_some())).filter_map(|p| p.name).collect();
            self.ordered(f, a, &names)?
        } else {
            self.args(f, a)?
        };
        let mut all = vec![];
        all.extend(first);
        all.extend(v);
        let what = match c.first() {
            Some(k) => self.name(self.g.functions[*k].name),
            None => "of this name".into(),
        };
        let k = self.choose(c, &all, &what)?;
        self.run(k, all)
    }
    fn external(&mut self, f: &mut Frame, addr: W, m: Sym, a: &Args) -> R<Vec<Val>> {
        let v = self.args(f, a)?;
        let inst = match self.instance(addr) {
            Some(i) => i,
            None => return revert("call of an address without code"),
        };
        let line = self.g.contracts[self.insts[inst].class].line.clone();
        let c = self.collect(&line, m, Kind::Function);
        if c.is_empty() {
            // a public constant or immutable
            if let Some((k, i)) = self.find_var(self.insts[inst].class, m) {
                let oi = std::mem::replace(&mut self.inst, inst);
                let r = self.var_value(k, i);
                self.inst = oi;
                return Ok(vec![r?]);
            }
        }
        let what = self.name(m);
        let k = self.choose(&c, &v, &what)?;
        let d = self.g.functions[k].clone();
        let mut trees = vec![];
        for (p, v) in d.params.iter().zip(&v) {
            let t = self.resolve(&p.ty, d.owner)?;
            let w = self.coerce(*v, t)?;
            trees.push(self.tree(t, w)?);
        }
        if self.depth > 40 {
            return revert("call depth");
        }
        let (out, _) = self.call_fn(inst, k, &trees)?;
        let mut r = vec![];
        for (p, o) in d.returns.iter().zip(&out) {
            let t = self.resolve(&p.ty, d.owner)?;
            r.push((t, self.plant(t, o)?));
        }
        Ok(r)
    }
    fn builtin(&mut self, f: &mut Frame, b: &str, a: &Args) -> R<Vec<Val>> {
        match b {
            "require" | "assert" => {
                // the message is only computed for its effects
                let v = self.args(f, a)?;
                if v.is_empty() || v[0].0 != Ty::Bool {
                    return unsup("condition");
                }
                if v[0].1.is_zero() {
                    let msg = match v.get(1) {
                        Some((Ty::StrLit(i), _)) => String::from_utf8_lossy(&self.g.lits[*i as usize]).into_owned(),
                        _ => b.to_string(),
                    };
                    return revert(&msg);
                }
                Ok(vec![])
            }
            "revert" => {
                self.args(f, a)?;
                revert("revert")
            }
            "keccak256" => {
                let v = self.args(f, a)?;
                let d = match v.first() {
                    Some((Ty::DynBytes, w)) => self.bytes_at(*w)?,
                    Some((Ty::StrLit(i), _)) => self.g.lits[*i as usize].clone(),
                    _ => return unsup("hash argument"),
                };
                Ok(vec![(Ty::BytesN(32), W::from_be(&keccak256(&d)))])
            }
            "addmod" | "mulmod" => {
                let v = self.args(f, a)?;
                if v.len() != 3 {
                    return unsup("arguments");
                }
                let mut w = vec![];
                for x in &v {
                    w.push(self.coerce(*x, Ty::UInt(256))?);
                }
                if w[2].is_zero() {
                    return revert("modulus zero");
                }
                Ok(vec![(Ty::UInt(256), if b == "addmod" { w[0].addmod(w[1], w[2]) } else { w[0].mulmod(w[1], w[2]) })])
            }
            "gasleft" => Ok(vec![(Ty::UInt(256), W::u(1_000_000_000_u64.saturating_sub(self.steps)))]),
            _ => unsup(format!("function {}", b)),
        }
    }
    fn packed(&mut self, v: Val, out: &mut Vec<u8>) -> R<()> {
        let b = v.1.be();
        match v.0 {
            Ty::UInt(n) | Ty::Int(n) => out.extend(&b[32 - n as usize / 8..]),
            Ty::BytesN(n) => out.extend(&b[..n as usize]),
            Ty::Bool => out.push(b[31]),
            Ty::Address | Ty::Contract(_) => out.extend(&b[12..]),
            Ty::DynBytes | Ty::String => out.extend(self.bytes_at(v.1)?),
            Ty::StrLit(i) => out.extend(&self.g.lits[i as usize]),
            Ty::Array(e) if !Self::is_ref(self.elem(e)) => {
                let p = self.addr(v.1)?;
                let n = self.load(p)?;
                let n = self.addr(n)?;
                out.extend(self.range(p + 32, 32 * n)?);
            }
            Ty::Fixed(e, n) if !Self::is_ref(self.elem(e)) => {
                let p = self.addr(v.1)?;
                out.extend(self.range(p, 32 * u64::from(n))?);
            }
            t => return unsup(format!("packed encoding of {:?}", t)),
        }
        Ok(())
    }
    fn dynamic(&mut self, t: Ty) -> R<bool> {
        Ok(match t {
            Ty::DynBytes | Ty::String | Ty::Array(_) => true,
            Ty::Fixed(e, _) => {
                let e = self.elem(e);
                self.dynamic(e)?
            }
            Ty::Struct(s) => {
                for (_, t) in self.struct_fields(s)?.iter() {
                    if self.dynamic(*t)? {
                        return Ok(true);
                    }
                }
                false
            }
            _ => false,
        })
    }
    fn encode_all(&mut self, ts: &[Ty], vs: &[Tree]) -> R<Vec<u8>> {
        let mut heads = vec![];
        for (t, v) in ts.iter().zip(vs) {
            let e = self.encode(*t, v)?;
            heads.push((self.dynamic(*t)?, e));
        }
        let size: usize = heads.iter().map(|(d, e)| if *d { 32 } else { e.len() }).sum();
        let (mut out, mut tail) = (vec![], vec![]);
        for (d, e) in heads {
            if d {
                out.extend(W::u((size + tail.len()) as u64).be());
                tail.extend(e);
            } else {
                out.extend(e);
            }
        }
        out.extend(tail);
        Ok(out)
    }
    fn encode(&mut self, t: Ty, v: &Tree) -> R<Vec<u8>> {
        Ok(match (t, v) {
            (Ty::DynBytes | Ty::String, Tree::Bytes(b)) => {
                let mut o = W::u(b.len() as u64).be().to_vec();
                o.extend(b);
                o.resize((o.len() + 31) / 32 * 32, 0);
                o
            }
            (Ty::Array(e), Tree::Seq(s)) => {
                let e = self.elem(e);
                let mut o = W::u(s.len() as u64).be().to_vec();
                o.extend(self.encode_all(&vec![e; s.len()], s)?);
                o
            }
            (Ty::Fixed(e, _), Tree::Seq(s)) => {
                let e = self.elem(e);
                self.encode_all(&vec![e; s.len()], s)?
            }
            (Ty::Struct(i), Tree::Seq(s)) => {
                let ts: Vec<Ty> = self.struct_fields(i)?.iter().map(|x| x.1).collect();
                self.encode_all(&ts, s)?
            }
            (_, Tree::Word(w)) => w.be().to_vec(),
            _ => return unsup("encoding"),
        })
    }
    fn decode(&mut self, t: Ty, d: &[u8], at: &mut usize) -> R<Tree> {
        if self.dynamic(t)? {
            return unsup("decoding of dynamic types");
        }
        Ok(match t {
            Ty::Struct(s) => {
                let fs = self.struct_fields(s)?;
                let mut v = vec![];
                for (_, t) in fs.iter() {
                    v.push(self.decode(*t, d, at)?);
                }
                Tree::Seq(v)
            }
            Ty::Fixed(e, n) => {
                let e = self.elem(e);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.decode(e, d, at)?);
                }
                Tree::Seq(v)
            }
            t => {
                if *at + 32 > d.len() {
                    return revert("data too short");
                }
                let w = W::from_be(&d[*at..*at + 32]);
                *at += 32;
                let c = if t == Ty::Bool { W::b(w == W::ONE) } else { self.clean(t, w) };
                if c != w {
                    return revert("invalid data");
                }
                Tree::Word(w)
            }
        })
    }
    fn abi(&mut self, f: &mut Frame, what: &str, a: &Args) -> R<Vec<Val>> {
        match what {
            "encodePacked" => {
                let v = self.args(f, a)?;
                let mut out = vec![];
                for x in v {
                    self.packed(x, &mut out)?;
                }
                Ok(vec![(Ty::DynBytes, self.new_bytes(&out)?)])
            }
            "encode" => {
                let v = self.args(f, a)?;
                let (mut ts, mut vs) = (vec![], vec![]);
                for x in v {
                    let t = Self::mobile(x.0, x.1)?;
                    ts.push(t);
                    vs.push(self.tree(x.0, x.1)?);
                }
                let out = self.encode_all(&ts, &vs)?;
                Ok(vec![(Ty::DynBytes, self.new_bytes(&out)?)])
            }
            "decode" => {
                if a.pos.len() != 2 {
                    return unsup("arguments");
                }
                let v = self.eval(f, &a.pos[0])?;
                if v.0 != Ty::DynBytes {
                    return unsup("decode");
                }
                let d = self.bytes_at(v.1)?;
                let ts = match &a.pos[1] {
                    Expr::Tuple(ts) => ts.clone(),
                    _ => return unsup("types to decode"),
                };
                let mut out = vec![];
                let mut at = 0;
                for t in &ts {
                    let t = match t {
                        Some(t) => self.as_type(f, t)?,
                        None => None,
                    };
                    let t = match t {
                        Some(t) => t,
                        None => return unsup("types to decode"),
                    };
                    let c = self.decode(t, &d, &mut at)?;
                    out.push((t, self.plant(t, &c)?));
                }
                Ok(out)
            }
            _ => unsup(format!("abi.{}", what)),
        }
    }
    // inline assembly
    fn yblock(&mut self, f: &mut Frame, b: &[Y]) -> R<Flow> {
        let (keep, fns) = (f.vars.len(), f.yfns.len());
        for s in b {
            if let Y::Fn(d) = s {
                f.yfns.push(d.clone());
            }
        }
        let mut out = Flow::Next;
        for s in b {
            match self.ystmt(f, s)? {
                Flow::Next => {}
                x => {
                    out = x;
                    break;
                }
            }
        }
        f.vars.truncate(keep);
        f.yfns.truncate(fns);
        Ok(out)
    }
    fn yassign(&mut self, f: &mut Frame, n: &[Sym], v: Vec<W>) -> R<()> {
        if n.len() != v.len() {
            return unsup("number of values");
        }
        for (s, w) in n.iter().zip(v) {
            match Self::local(f, *s) {
                Some(i) => f.vars[i].2 = w,
                None => return unsup(format!("assembly assignment to {}", self.name(*s))),
            }
        }
        Ok(())
    }
    fn ystmt(&mut self, f: &mut Frame, s: &Y) -> R<Flow> {
        self.tick()?;
        match s {
            Y::Block(b) => return self.yblock(f, b),
            Y::Let(n, e) => {
                let v = match e {
                    Some(e) => self.ymulti(f, e)?,
                    None => vec![W::ZERO; n.len()],
                };
                if n.len() != v.len() {
                    return unsup("number of values");
                }
                for (s, w) in n.iter().zip(v) {
                    f.vars.push((*s, Ty::UInt(256), w));
                }
            }
            Y::Assign(n, e) => {
                let v = self.ymulti(f, e)?;
                self.yassign(f, n, v)?;
            }
            Y::Expr(e) => {
                self.ymulti(f, e)?;
            }
            Y::If(c, b) => {
                if !self.yeval(f, c)?.is_zero() {
                    return self.yblock(f, b);
                }
            }
            Y::Switch(c, cases, def) => {
                let v = self.yeval(f, c)?;
                for (k, b) in cases {
                    if *k == v {
                        return self.yblock(f, b);
                    }
                }
                if let Some(b) = def {
                    return self.yblock(f, b);
                }
            }
            Y::For(init, c, step, body) => {
                let (keep, fns) = (f.vars.len(), f.yfns.len());
                for s in init {
                    self.ystmt(f, s)?;
                }
                let mut out = Flow::Next;
                while !self.yeval(f, c)?.is_zero() {
                    match self.yblock(f, body)? {
                        Flow::Break => break,
                        Flow::Return => {
                            out = Flow::Return;
                            break;
                        }
                        _ => {}
                    }
                    self.yblock(f, step)?;
                }
                f.vars.truncate(keep);
                f.yfns.truncate(fns);
                return Ok(out);
            }
            Y::Fn(_) => {}
            Y::Break => return Ok(Flow::Break),
            Y::Continue => return Ok(Flow::Continue),
            Y::Leave => return Ok(Flow::Return),
        }
        Ok(Flow::Next)
    }
    fn yeval(&mut self, f: &mut Frame, e: &YE) -> R<W> {
        match e {
            YE::Num(w) => Ok(*w),
            YE::Id(s) => {
                if let Some(i) = Self::local(f, *s) {
                    return Ok(f.vars[i].2);
                }
                if let Some((c, i)) = self.find_var(f.owner, *s) {
                    if self.g.contracts[c].vars[i].constant {
                        return Ok(self.var_value(c, i)?.1);
                    }
                }
                unsup(format!("assembly name {}", self.name(*s)))
            }
            YE::Call(..) => {
                let v = self.ymulti(f, e)?;
                if v.len() != 1 {
                    return unsup("number of values");
                }
                Ok(v[0])
            }
        }
    }
    fn ymulti(&mut self, f: &mut Frame, e: &YE) -> R<Vec<W>> {
        let (s, args) = match e {
            YE::Call(s, a) => (*s, a),
            _ => return Ok(vec![self.yeval(f, e)?]),
        };
        self.tick()?;
        // arguments are evaluated from the last to the first
        let mut a = [W::ZERO; 16];
        if args.len() > 16 {
            return unsup("arguments");
        }
        for (i, x) in args.iter().enumerate().rev() {
            a[i] = self.yeval(f, x)?;
        }
        if let Some(d) = f.yfns.iter().rev().find(|d| d.name == s).cloned() {
            if d.params.len() != args.len() {
                return unsup("arguments");
            }
            if self.depth > 200 {
                return revert("stack");
            }
            let mut fr = Frame { owner: f.owner, yfns: f.yfns.clone(), ..Frame::default() };
            for (p, w) in d.params.iter().zip(a) {
                fr.vars.push((*p, Ty::UInt(256), w));
            }
            let at = fr.vars.len();
            for r in &d.rets {
                fr.vars.push((*r, Ty::UInt(256), W::ZERO));
            }
            self.depth += 1;
            let r = self.yblock(&mut fr, &d.body);
            self.depth -= 1;
            r?;
            return Ok((0..d.rets.len()).map(|i| fr.vars[at + i].2).collect());
        }
        let b = match self.b.get(&s).copied() {
            Some(b) => b,
            None => return unsup(format!("assembly function {}", self.name(s))),
        };
        let n = args.len();
        let one = |w: W| Ok(vec![w]);
        match (b, n) {
            ("add", 2) => one(a[0].add(a[1])),
            ("sub", 2) => one(a[0].sub(a[1])),
            ("mul", 2) => one(a[0].mul(a[1])),
            ("div", 2) => one(a[0].divrem(a[1]).0),
            ("mod", 2) => one(a[0].divrem(a[1]).1),
            ("sdiv", 2) => one(sdiv(a[0], a[1]).0),
            ("smod", 2) => one(sdiv(a[0], a[1]).1),
            ("exp", 2) => one(a[0].pow(a[1])),
            ("not", 1) => one(a[0].not()),
            ("lt", 2) => one(W::b(a[0] < a[1])),
            ("gt", 2) => one(W::b(a[0] > a[1])),
            ("slt", 2) => one(W::b(signed_lt(a[0], a[1]))),
            ("sgt", 2) => one(W::b(signed_lt(a[1], a[0]))),
            ("eq", 2) => one(W::b(a[0] == a[1])),
            ("iszero", 1) => one(W::b(a[0].is_zero())),
            ("and", 2) => one(a[0].and(a[1])),
            ("or", 2) => one(a[0].or(a[1])),
            ("xor", 2) => one(a[0].xor(a[1])),
            ("byte", 2) => one(match a[0].small().filter(|i| *i < 32) {
                Some(i) => W::u(u64::from(a[1].be()[i as usize])),
                None => W::ZERO,
            }),
            ("shl", 2) => one(a[1].shl(a[0])),
            ("shr", 2) => one(a[1].shr(a[0])),
            ("sar", 2) => one(sar(a[1], a[0])),
            ("addmod", 3) => one(a[0].addmod(a[1], a[2])),
            ("mulmod", 3) => one(a[0].mulmod(a[1], a[2])),
            ("signextend", 2) => one(match a[0].small().filter(|i| *i < 31) {
                Some(i) => sext(a[1], 8 * (i as usize + 1)),
                None => a[1],
            }),
            ("keccak256", 2) => {
                let (p, l) = self.span(a[0], a[1])?;
                let d = self.range(p, l)?;
                one(W::from_be(&keccak256(&d)))
            }
            ("pop", 1) => Ok(vec![]),
            ("mload", 1) => {
                let p = self.addr(a[0])?;
                one(self.load(p)?)
            }
            ("mstore", 2) => {
                let p = self.addr(a[0])?;
                self.store(p, a[1])?;
                Ok(vec![])
            }
            ("mstore8", 2) => {
                let p = self.addr(a[0])?;
                self.put(p, &[a[1].be()[31]])?;
                Ok(vec![])
            }
            ("msize", 0) => one(W::u(self.mem.len() as u64)),
            ("gas", 0) => one(W::u(1_000_000_000_u64.saturating_sub(self.steps))),
            ("address", 0) => one(Self::address(self.inst)),
            ("caller", 0) => one(W::u(0xCA11)),
            ("callvalue", 0) => one(W::ZERO),
            ("calldataload" | "calldatasize" | "calldatacopy", _) => {
                let d = match &self.calldata {
                    Some(d) => d.clone(),
                    None => return unsup("call data"),
                };
                let byte = |i: W| i.small().and_then(|i| d.get(i as usize)).copied().unwrap_or(0);
                match n {
                    0 => one(W::u(d.len() as u64)),
                    1 => one(W::from_be(&(0..32).map(|i| byte(a[0].add(W::u(i)))).collect::<Vec<_>>())),
                    _ => {
                        let (p, l) = self.span(a[0], a[2])?;
                        let v: Vec<u8> = (0..l).map(|i| byte(a[1].add(W::u(i)))).collect();
                        self.put(p, &v)?;
                        Ok(vec![])
                    }
                }
            }
            ("returndatasize", 0) => one(W::u(self.returndata.len() as u64)),
            ("returndatacopy", 3) => {
                let (p, l) = self.span(a[0], a[2])?;
                let from = a[1].small().unwrap_or(u64::MAX);
                if from.checked_add(l).map_or(true, |e| e > self.returndata.len() as u64) {
                    return revert("return data out of bounds");
                }
                let v = self.returndata[from as usize..(from + l) as usize].to_vec();
                self.put(p, &v)?;
                Ok(vec![])
            }
            ("call", 7) => self.ycall(a[1], a[3], a[4], a[5], a[6]).map(|w| vec![w]),
            ("staticcall", 6) => self.ycall(a[1], a[2], a[3], a[4], a[5]).map(|w| vec![w]),
            ("return", 2) => {
                let (p, l) = self.span(a[0], a[1])?;
                let d = self.range(p, l)?;
                Err(Stop::Halt(d))
            }
            ("revert", 2) => revert("revert"),
            ("invalid", 0) => revert("invalid"),
            ("stop", 0) => Err(Stop::Halt(vec![])),
            ("log0" | "log1" | "log2" | "log3" | "log4", _) => Ok(vec![]),
            _ => unsup(format!("assembly function {}", b)),
        }
    }
    fn span(&mut self, p: W, l: W) -> R<(u64, u64)> {
        if l.is_zero() {
            return Ok((0, 0));
        }
        let (p, l) = (self.addr(p)?, self.addr(l)?);
        self.touch(p, l)?;
        Ok((p, l))
    }
    fn ycall(&mut self, to: W, p: W, l: W, q: W, m: W) -> R<W> {
        let (p, l) = self.span(p, l)?;
        let data = self.range(p, l)?;
        let (q, m) = self.span(q, m)?;
        let out = if to == W::u(5) {
            modexp(&data)
        } else if to == W::u(4) {
            data
        } else if let Some(i) = self.instance(to) {
            match self.call_raw(i, &data) {
                Ok(b) => b,
                Err(Stop::Revert(_)) => {
                    self.returndata = vec![];
                    return Ok(W::ZERO);
                }
                Err(e) => return Err(e),
            }
        } else {
            return unsup("call of an unknown address");
        };
        let k = (m as usize).min(out.len());
        self.put(q, &out[..k])?;
        self.returndata = out;
        Ok(W::ONE)
    }
}
