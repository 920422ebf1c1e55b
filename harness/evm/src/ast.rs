//! Lexer, syntax tree and parser for the subset of Solidity 0.6 (with inline assembly) the contracts use.
use crate::word::W;
use std::collections::HashMap;

pub type Sym = u32;
pub type Res<T> = Result<T, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    /// integer literal (value as written, two's complement if negative)
    Lit,
    NegLit,
    /// string or hex literal, index in the literal table
    StrLit(u32),
    Bool,
    UInt(u16),
    Int(u16),
    BytesN(u8),
    Address,
    DynBytes,
    String,
    /// element type (index in the type table)
    Array(u32),
    Fixed(u32, u32),
    Struct(u32),
    Contract(u32),
    Enum(u32),
}
#[derive(Clone, Debug)]
pub enum TypeName {
    Elem(Ty),
    User(Vec<Sym>),
    Array(Box<TypeName>, Option<Box<Expr>>),
    Other(String),
}
#[derive(Clone, Debug)]
pub struct Param {
    pub ty: TypeName,
    pub name: Option<Sym>,
}
#[derive(Clone, Debug)]
pub struct Args {
    pub pos: Vec<Expr>,
    pub names: Option<Vec<Sym>>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Pow,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
    LAnd,
    LOr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Un {
    Neg,
    Not,
    BitNot,
    Plus,
    Delete,
    PreInc,
    PreDec,
    PostInc,
    PostDec,
}
#[derive(Clone, Debug)]
pub enum Expr {
    Num(W),
    Bool(bool),
    Str(u32),
    Ident(Sym),
    Type(TypeName),
    Member(Box<Expr>, Sym),
    Index(Box<Expr>, Option<Box<Expr>>),
    Slice(Box<Expr>, Option<Box<Expr>>, Option<Box<Expr>>),
    Call(Box<Expr>, Args),
    New(TypeName),
    Un(Un, Box<Expr>),
    Bin(Op, Box<Expr>, Box<Expr>),
    Assign(Option<Op>, Box<Expr>, Box<Expr>),
    Cond(Box<Expr>, Box<Expr>, Box<Expr>),
    Tuple(Vec<Option<Expr>>),
    Inline(Vec<Expr>),
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Block(Vec<Stmt>),
    Decl(Vec<Option<Param>>, Option<Expr>),
    Expr(Expr),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    For(Option<Box<Stmt>>, Option<Expr>, Option<Expr>, Box<Stmt>),
    While(Expr, Box<Stmt>),
    DoWhile(Box<Stmt>, Expr),
    Return(Option<Expr>),
    Break,
    Continue,
    Emit(Expr),
    Asm(Vec<Y>),
    Placeholder,
}
#[derive(Clone, Debug)]
pub enum YE {
    Num(W),
    Id(Sym),
    Call(Sym, Vec<YE>),
}
#[derive(Clone, Debug)]
pub struct YFn {
    pub name: Sym,
    pub params: Vec<Sym>,
    pub rets: Vec<Sym>,
    pub body: Vec<Y>,
}
#[derive(Clone, Debug)]
pub enum Y {
    Block(Vec<Y>),
    Let(Vec<Sym>, Option<YE>),
    Assign(Vec<Sym>, YE),
    Expr(YE),
    If(YE, Vec<Y>),
    Switch(YE, Vec<(W, Vec<Y>)>, Option<Vec<Y>>),
    For(Vec<Y>, YE, Vec<Y>, Vec<Y>),
    Fn(std::rc::Rc<YFn>),
    Break,
    Continue,
    Leave,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Function,
    Constructor,
    Fallback,
    Receive,
    Modifier,
}
#[derive(Clone, Debug)]
pub struct Function {
    pub name: Sym,
    pub kind: Kind,
    pub params: Vec<Param>,
    pub returns: Vec<Param>,
    pub modifiers: Vec<(Vec<Sym>, Option<Vec<Expr>>)>,
    pub body: Option<Vec<Stmt>>,
    /// contract that declares it
    pub owner: usize,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: Sym,
    pub ty: TypeName,
    pub constant: bool,
    pub init: Option<Expr>,
}
#[derive(Clone, Debug)]
pub struct StructDef {
    pub name: Sym,
    pub owner: usize,
    pub fields: Vec<(Sym, TypeName)>,
}
#[derive(Clone, Debug)]
pub struct Contract {
    pub name: Sym,
    pub library: bool,
    pub bases: Vec<(Vec<Sym>, Option<Vec<Expr>>)>,
    pub functions: Vec<usize>,
    pub structs: Vec<usize>,
    pub enums: Vec<(Sym, Vec<Sym>)>,
    pub vars: Vec<Var>,
    pub usings: Vec<(Vec<Sym>, Option<TypeName>)>,
    /// linearization, most derived first (filled in by the linker)
    pub line: Vec<usize>,
}
#[derive(Default)]
pub struct Program {
    pub names: Vec<String>,
    pub sym: HashMap<String, Sym>,
    pub lits: Vec<Vec<u8>>,
    pub contracts: Vec<Contract>,
    pub functions: Vec<std::rc::Rc<Function>>,
    pub structs: Vec<StructDef>,
    pub by_name: HashMap<Sym, usize>,
}
#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Id(String),
    Num(W),
    Str(Vec<u8>),
    P(&'static str),
    End,
}
const PUNCT: [&str; 55] = [
    ">>>=", "<<=", ">>=", ">>>", "**", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "==", "!=", "<=", ">=", "&&", "||",
    "<<", ">>", "=>", ":=", "->", "(", ")", "{", "}", "[", "]", ";", ",", ".", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<",
    ">", "=", "?", ":", "@", "#", "$", "\\", "`",
];
fn unescape(s: &[u8], hexa: bool) -> Res<Vec<u8>> {
    if hexa {
        let t: String = s.iter().map(|c| *c as char).filter(|c| *c != '_').collect();
        return hex::decode(t).map_err(|e| e.to_string());
    }
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            i += 1;
            match s.get(i) {
                Some(b'n') => o.push(b'\n'),
                Some(b't') => o.push(b'\t'),
                Some(b'r') => o.push(b'\r'),
                Some(b'x') => {
                    let h = std::str::from_utf8(&s[i + 1..i + 3]).map_err(|e| e.to_string())?;
                    o.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    i += 2;
                }
                Some(c) => o.push(*c),
                None => return Err("escape".into()),
            }
        } else {
            o.push(s[i]);
        }
        i += 1;
    }
    Ok(o)
}
fn lex(src: &str) -> Res<Vec<Tok>> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'next: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() || c >= 0x80 {
            i += 1;
            continue;
        }
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if b[i..].starts_with(b"/*") {
            i += 2;
            while i < b.len() && !b[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == b'"' || c == b'\'' {
            let start = i + 1;
            i += 1;
            while i < b.len() && b[i] != c {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            if i >= b.len() {
                return Err("string not closed".into());
            }
            let hexa = matches!(out.last(), Some(Tok::Id(s)) if s == "hex");
            if hexa {
                out.pop();
            }
            let s = unescape(&b[start..i], hexa)?;
            // adjacent literals are joined
            if let Some(Tok::Str(p)) = out.last_mut() {
                p.extend(s);
            } else {
                out.push(Tok::Str(s));
            }
            i += 1;
            continue;
        }
        if c.is_ascii_digit() {
            let start = i;
            if b[i..].starts_with(b"0x") || b[i..].starts_with(b"0X") {
                i += 2;
                while i < b.len() && (b[i].is_ascii_hexdigit() || b[i] == b'_') {
                    i += 1;
                }
                let s: String = src[start + 2..i].chars().filter(|c| *c != '_').collect();
                if s.trim_start_matches('0').len() > 64 {
                    return Err("literal too long".into());
                }
                out.push(Tok::Num(W::hex(if s.len() > 64 { s.trim_start_matches('0') } else { &s })));
            } else {
                let mut v = W::ZERO;
                let mut exp = None;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_' || ((b[i] == b'e' || b[i] == b'E') && exp.is_none())) {
                    match (b[i], &mut exp) {
                        (b'_', _) => {}
                        (b'e', _) | (b'E', _) => exp = Some(0_u32),
                        (d, Some(e)) => *e = *e * 10 + u32::from(d - b'0'),
                        (d, None) => v = v.mul(W::u(10)).add(W::u(u64::from(d - b'0'))),
                    }
                    i += 1;
                }
                for _ in 0..exp.unwrap_or(0) {
                    v = v.mul(W::u(10));
                }
                out.push(Tok::Num(v));
            }
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let start = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push(Tok::Id(src[start..i].into()));
            continue;
        }
        for p in PUNCT {
            if b[i..].starts_with(p.as_bytes()) {
                out.push(Tok::P(p));
                i += p.len();
                continue 'next;
            }
        }
        return Err(format!("character {:?}", c as char));
    }
    out.push(Tok::End);
    Ok(out)
}
pub fn elementary(s: &str) -> Option<Ty> {
    let num = |p: &str| s.strip_prefix(p).and_then(|n| if n.is_empty() { Some(256) } else { n.parse::<u16>().ok() });
    match s {
        "bool" => return Some(Ty::Bool),
        "address" => return Some(Ty::Address),
        "bytes" => return Some(Ty::DynBytes),
        "string" => return Some(Ty::String),
        "byte" => return Some(Ty::BytesN(1)),
        _ => {}
    }
    if let Some(n) = num("uint") {
        return (n % 8 == 0 && n <= 256 && n > 0).then_some(Ty::UInt(n));
    }
    if let Some(n) = num("int") {
        return (n % 8 == 0 && n <= 256 && n > 0).then_some(Ty::Int(n));
    }
    if let Some(n) = s.strip_prefix("bytes").and_then(|n| n.parse::<u8>().ok()) {
        return (n > 0 && n <= 32).then_some(Ty::BytesN(n));
    }
    None
}
struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    g: &'a mut Program,
}
impl Program {
    pub fn intern(&mut self, s: &str) -> Sym {
        if let Some(i) = self.sym.get(s) {
            return *i;
        }
        self.names.push(s.into());
        self.sym.insert(s.into(), self.names.len() as Sym - 1);
        self.names.len() as Sym - 1
    }
    pub fn name(&self, s: Sym) -> &str {
        &self.names[s as usize]
    }
    pub fn parse(sources: &[String]) -> Res<Program> {
        let mut g = Program::default();
        for s in sources {
            let t = lex(s)?;
            let mut p = P { t, i: 0, g: &mut g };
            p.file().map_err(|e| {
                let at: Vec<_> = p.t[p.i.saturating_sub(6)..(p.i + 4).min(p.t.len())].iter().map(|t| format!("{:?}", t)).collect();
                format!("{} near {}", e, at.join(" "))
            })?;
        }
        for i in 0..g.contracts.len() {
            g.linearize(i)?;
        }
        Ok(g)
    }
    fn linearize(&mut self, i: usize) -> Res<Vec<usize>> {
        if !self.contracts[i].line.is_empty() {
            return Ok(self.contracts[i].line.clone());
        }
        // C3; bases are written from most basic to most derived
        let mut bases = vec![];
        for (path, _) in self.contracts[i].bases.clone() {
            let last = *path.last().unwrap();
            bases.push(*self.by_name.get(&last).ok_or_else(|| format!("base {} not found", self.names[last as usize]))?);
        }
        bases.reverse();
        let mut seqs = vec![];
        for b in &bases {
            seqs.push(self.linearize(*b)?);
        }
        seqs.push(bases);
        let mut out = vec![i];
        loop {
            seqs.retain(|s| !s.is_empty());
            if seqs.is_empty() {
                break;
            }
            let pick = seqs.iter().map(|s| s[0]).find(|c| !seqs.iter().any(|s| s[1..].contains(c)));
            let c = pick.ok_or("inheritance cannot be linearized")?;
            out.push(c);
            for s in &mut seqs {
                if s[0] == c {
                    s.remove(0);
                }
            }
        }
        self.contracts[i].line = out.clone();
        Ok(out)
    }
}
impl<'a> P<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn at(&self, k: usize) -> &Tok {
        &self.t[(self.i + k).min(self.t.len() - 1)]
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::P(q) if *q == p)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(q) if q == s)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p);
        self.i += usize::from(r);
        r
    }
    fn eat_id(&mut self, s: &str) -> bool {
        let r = self.is_id(s);
        self.i += usize::from(r);
        r
    }
    fn want(&mut self, p: &str) -> Res<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(format!("expected {}", p))
        }
    }
    fn ident(&mut self) -> Res<Sym> {
        match self.peek().clone() {
            Tok::Id(s) => {
                self.i += 1;
                Ok(self.g.intern(&s))
            }
            _ => Err("expected a name".into()),
        }
    }
    fn file(&mut self) -> Res<()> {
        loop {
            if *self.peek() == Tok::End {
                return Ok(());
            }
            if self.is_id("pragma") || self.is_id("import") {
                while !self.eat(";") {
                    if *self.peek() == Tok::End {
                        return Err("end of file".into());
                    }
                    self.i += 1;
                }
                continue;
            }
            self.contract()?;
        }
    }
    fn contract(&mut self) -> Res<()> {
        self.eat_id("abstract");
        let library = self.is_id("library");
        if !library && !self.is_id("contract") && !self.is_id("interface") {
            return Err("expected a contract".into());
        }
        self.i += 1;
        let name = self.ident()?;
        let me = self.g.contracts.len();
        if self.g.by_name.insert(name, me).is_some() {
            return Err(format!("contract {} defined twice", self.g.name(name)));
        }
        let mut c = Contract {
            name,
            library,
            bases: vec![],
            functions: vec![],
            structs: vec![],
            enums: vec![],
            vars: vec![],
            usings: vec![],
            line: vec![],
        };
        // reserve the place
        self.g.contracts.push(c.clone());
        if self.eat_id("is") {
            loop {
                let p = self.path()?;
                let a = if self.is("(") { Some(self.args()?.pos) } else { None };
                c.bases.push((p, a));
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.want("{")?;
        while !self.eat("}") {
            self.item(me, &mut c)?;
        }
        self.g.contracts[me] = c;
        Ok(())
    }
    fn path(&mut self) -> Res<Vec<Sym>> {
        let mut v = vec![self.ident()?];
        while self.eat(".") {
            v.push(self.ident()?);
        }
        Ok(v)
    }
    fn skip_to(&mut self, p: &str) -> Res<()> {
        while !self.eat(p) {
            if *self.peek() == Tok::End {
                return Err("end of file".into());
            }
            self.i += 1;
        }
        Ok(())
    }
    fn item(&mut self, me: usize, c: &mut Contract) -> Res<()> {
        let word = match self.peek() {
            Tok::Id(s) => s.clone(),
            _ => return Err("expected a declaration".into()),
        };
        match word.as_str() {
            "using" => {
                self.i += 1;
                let lib = self.path()?;
                if !self.eat_id("for") {
                    return Err("expected for".into());
                }
                let ty = if self.eat("*") { None } else { Some(self.type_name()?) };
                self.want(";")?;
                c.usings.push((lib, ty));
            }
            "event" => self.skip_to(";")?,
            "struct" => {
                self.i += 1;
                let name = self.ident()?;
                self.want("{")?;
                let mut fields = vec![];
                while !self.eat("}") {
                    let t = self.type_name()?;
                    let n = self.ident()?;
                    self.want(";")?;
                    fields.push((n, t));
                }
                c.structs.push(self.g.structs.len());
                self.g.structs.push(StructDef { name, owner: me, fields });
            }
            "enum" => {
                self.i += 1;
                let name = self.ident()?;
                self.want("{")?;
                let mut v = vec![];
                while !self.eat("}") {
                    v.push(self.ident()?);
                    self.eat(",");
                }
                c.enums.push((name, v));
            }
            "function" | "constructor" | "modifier" | "fallback" | "receive"
                if !matches!(self.at(1), Tok::P(".")) =>
            {
                self.i += 1;
                let kind = match word.as_str() {
                    "function" => Kind::Function,
                    "constructor" => Kind::Constructor,
                    "modifier" => Kind::Modifier,
                    "fallback" => Kind::Fallback,
                    _ => Kind::Receive,
                };
                let name = if matches!(kind, Kind::Function | Kind::Modifier) { self.ident()? } else { self.g.intern(&word) };
                let params = if self.is("(") { self.params()? } else { vec![] };
                let mut modifiers = vec![];
                let mut returns = vec![];
                loop {
                    if self.is("{") || self.is(";") {
                        break;
                    }
                    let w = match self.peek() {
                        Tok::Id(s) => s.clone(),
                        _ => return Err("function header".into()),
                    };
                    match w.as_str() {
                        "public" | "private" | "internal" | "external" | "pure" | "view" | "payable" | "virtual" => self.i += 1,
                        "override" => {
                            self.i += 1;
                            if self.is("(") {
                                self.skip_to(")")?;
                            }
                        }
                        "returns" => {
                            self.i += 1;
                            returns = self.params()?;
                        }
                        _ => {
                            let p = self.path()?;
                            let a = if self.is("(") { Some(self.args()?.pos) } else { None };
                            modifiers.push((p, a));
                        }
                    }
                }
                let body = if self.eat(";") { None } else { Some(self.block()?) };
                c.functions.push(self.g.functions.len());
                self.g.functions.push(std::rc::Rc::new(Function { name, kind, params, returns, modifiers, body, owner: me }));
            }
            _ => {
                let ty = self.type_name()?;
                let mut constant = false;
                loop {
                    if self.eat_id("constant") {
                        constant = true;
                    } else if self.is_id("override") && matches!(self.at(1), Tok::P("(")) {
                        self.skip_to(")")?;
                    } else if ["public", "private", "internal", "immutable", "override"].iter().any(|w| self.is_id(w)) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                let name = self.ident()?;
                let init = if self.eat("=") { Some(self.expr()?) } else { None };
                self.want(";")?;
                c.vars.push(Var { name, ty, constant, init });
            }
        }
        Ok(())
    }
    fn loc(&mut self) {
        while ["memory", "storage", "calldata", "payable", "indexed"].iter().any(|w| self.is_id(w)) {
            self.i += 1;
        }
    }
    fn params(&mut self) -> Res<Vec<Param>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            let ty = self.type_name()?;
            self.loc();
            let name = if matches!(self.peek(), Tok::Id(_)) { Some(self.ident()?) } else { None };
            v.push(Param { ty, name });
            if !self.eat(",") && !self.is(")") {
                return Err("expected , or )".into());
            }
        }
        Ok(v)
    }
    fn type_name(&mut self) -> Res<TypeName> {
        let w = match self.peek() {
            Tok::Id(s) => s.clone(),
            _ => return Err("expected a type".into()),
        };
        let mut t = if let Some(t) = elementary(&w) {
            self.i += 1;
            if t == Ty::Address {
                self.eat_id("payable");
            }
            TypeName::Elem(t)
        } else if w == "mapping" {
            self.i += 1;
            self.skip_to(")")?;
            TypeName::Other("mapping".into())
        } else if w == "function" {
            return Err("function types are not supported".into());
        } else {
            TypeName::User(self.path()?)
        };
        while self.is("[") {
            self.i += 1;
            let n = if self.is("]") { None } else { Some(Box::new(self.expr()?)) };
            self.want("]")?;
            t = TypeName::Array(Box::new(t), n);
        }
        Ok(t)
    }
    fn args(&mut self) -> Res<Args> {
        self.want("(")?;
        if self.eat("{") {
            let (mut pos, mut names) = (vec![], vec![]);
            while !self.eat("}") {
                names.push(self.ident()?);
                self.want(":")?;
                pos.push(self.expr()?);
                self.eat(",");
            }
            self.want(")")?;
            return Ok(Args { pos, names: Some(names) });
        }
        let mut pos = vec![];
        while !self.eat(")") {
            pos.push(self.expr()?);
            if !self.eat(",") && !self.is(")") {
                return Err("expected , or )".into());
            }
        }
        Ok(Args { pos, names: None })
    }
    fn block(&mut self) -> Res<Vec<Stmt>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.stmt()?);
        }
        Ok(v)
    }
    /// a declaration, if one starts here
    fn decl(&mut self) -> Option<Stmt> {
        let save = self.i;
        let r = self.try_decl();
        if r.is_none() {
            self.i = save;
        }
        r
    }
    fn try_decl(&mut self) -> Option<Stmt> {
        if self.eat("(") {
            let mut v = vec![];
            loop {
                if self.is(",") || self.is(")") {
                    v.push(None);
                } else {
                    let ty = self.type_name().ok()?;
                    self.loc();
                    let name = self.ident().ok()?;
                    v.push(Some(Param { ty, name: Some(name) }));
                }
                if self.eat(")") {
                    break;
                }
                if !self.eat(",") {
                    return None;
                }
            }
            if !self.eat("=") || v.iter().all(|p| p.is_none()) {
                return None;
            }
            let e = self.expr().ok()?;
            return Some(Stmt::Decl(v, Some(e)));
        }
        let ty = self.type_name().ok()?;
        self.loc();
        if !matches!(self.peek(), Tok::Id(_)) {
            return None;
        }
        let name = self.ident().ok()?;
        let init = if self.eat("=") { Some(self.expr().ok()?) } else { None };
        if !self.is(";") {
            return None;
        }
        Some(Stmt::Decl(vec![Some(Param { ty, name: Some(name) })], init))
    }
    fn simple(&mut self) -> Res<Stmt> {
        if !matches!(self.peek(), Tok::Id(s) if s == "delete" || s == "new") {
            if let Some(d) = self.decl() {
                return Ok(d);
            }
        }
        Ok(Stmt::Expr(self.expr()?))
    }
    fn stmt(&mut self) -> Res<Stmt> {
        if self.is("{") {
            return Ok(Stmt::Block(self.block()?));
        }
        let w = match self.peek() {
            Tok::Id(s) => s.clone(),
            _ => String::new(),
        };
        match w.as_str() {
            "if" => {
                self.i += 1;
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                let a = Box::new(self.stmt()?);
                let b = if self.eat_id("else") { Some(Box::new(self.stmt()?)) } else { None };
                return Ok(Stmt::If(c, a, b));
            }
            "for" => {
                self.i += 1;
                self.want("(")?;
                let init = if self.is(";") { None } else { Some(Box::new(self.simple()?)) };
                self.want(";")?;
                let cond = if self.is(";") { None } else { Some(self.expr()?) };
                self.want(";")?;
                let step = if self.is(")") { None } else { Some(self.expr()?) };
                self.want(")")?;
                return Ok(Stmt::For(init, cond, step, Box::new(self.stmt()?)));
            }
            "while" => {
                self.i += 1;
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                return Ok(Stmt::While(c, Box::new(self.stmt()?)));
            }
            "do" => {
                self.i += 1;
                let b = Box::new(self.stmt()?);
                if !self.eat_id("while") {
                    return Err("expected while".into());
                }
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                self.want(";")?;
                return Ok(Stmt::DoWhile(b, c));
            }
            "return" => {
                self.i += 1;
                let e = if self.is(";") { None } else { Some(self.expr()?) };
                self.want(";")?;
                return Ok(Stmt::Return(e));
            }
            "break" | "continue" => {
                self.i += 1;
                self.want(";")?;
                return Ok(if w == "break" { Stmt::Break } else { Stmt::Continue });
            }
            "emit" => {
                self.i += 1;
                let e = self.expr()?;
                self.want(";")?;
                return Ok(Stmt::Emit(e));
            }
            "assembly" => {
                self.i += 1;
                if matches!(self.peek(), Tok::Str(_)) {
                    self.i += 1;
                }
                return Ok(Stmt::Asm(self.yblock()?));
            }
            "_" if matches!(self.at(1), Tok::P(";")) => {
                self.i += 2;
                return Ok(Stmt::Placeholder);
            }
            "try" => return Err("try statements are not supported".into()),
            _ => {}
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }
    pub fn expr(&mut self) -> Res<Expr> {
        let a = self.cond()?;
        let op = match self.peek() {
            Tok::P(p) => match *p {
                "=" => Some(None),
                "+=" => Some(Some(Op::Add)),
                "-=" => Some(Some(Op::Sub)),
                "*=" => Some(Some(Op::Mul)),
                "/=" => Some(Some(Op::Div)),
                "%=" => Some(Some(Op::Mod)),
                "|=" => Some(Some(Op::Or)),
                "&=" => Some(Some(Op::And)),
                "^=" => Some(Some(Op::Xor)),
                "<<=" => Some(Some(Op::Shl)),
                ">>=" => Some(Some(Op::Shr)),
                _ => None,
            },
            _ => None,
        };
        match op {
            Some(o) => {
                self.i += 1;
                let b = self.expr()?;
                Ok(Expr::Assign(o, Box::new(a), Box::new(b)))
            }
            None => Ok(a),
        }
    }
    fn cond(&mut self) -> Res<Expr> {
        let c = self.binary(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(Expr::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn op(&self) -> Option<(Op, u8)> {
        if let Tok::P(p) = self.peek() {
            Some(match *p {
                "||" => (Op::LOr, 1),
                "&&" => (Op::LAnd, 2),
                "==" => (Op::Eq, 3),
                "!=" => (Op::Ne, 3),
                "<" => (Op::Lt, 4),
                ">" => (Op::Gt, 4),
                "<=" => (Op::Le, 4),
                ">=" => (Op::Ge, 4),
                "|" => (Op::Or, 5),
                "^" => (Op::Xor, 6),
                "&" => (Op::And, 7),
                "<<" => (Op::Shl, 8),
                ">>" => (Op::Shr, 8),
                "+" => (Op::Add, 9),
                "-" => (Op::Sub, 9),
                "*" => (Op::Mul, 10),
                "/" => (Op::Div, 10),
                "%" => (Op::Mod, 10),
                "**" => (Op::Pow, 11),
                _ => return None,
            })
        } else {
            None
        }
    }
    fn binary(&mut self, min: u8) -> Res<Expr> {
        let mut a = self.unary()?;
        while let Some((op, prec)) = self.op() {
            if prec < min.max(1) {
                break;
            }
            self.i += 1;
            // ** associates to the right from 0.8 on, to the left before
            let b = self.binary(prec + 1)?;
            a = Expr::Bin(op, Box::new(a), Box::new(b));
        }
        Ok(a)
    }
    fn unary(&mut self) -> Res<Expr> {
        let u = match self.peek() {
            Tok::P("-") => Some(Un::Neg),
            Tok::P("+") => Some(Un::Plus),
            Tok::P("!") => Some(Un::Not),
            Tok::P("~") => Some(Un::BitNot),
            Tok::P("++") => Some(Un::PreInc),
            Tok::P("--") => Some(Un::PreDec),
            Tok::Id(s) if s == "delete" => Some(Un::Delete),
            _ => None,
        };
        if let Some(u) = u {
            self.i += 1;
            return Ok(Expr::Un(u, Box::new(self.unary()?)));
        }
        let mut e = self.primary()?;
        loop {
            if self.eat(".") {
                e = Expr::Member(Box::new(e), self.ident()?);
            } else if self.is("(") {
                let a = self.args()?;
                e = Expr::Call(Box::new(e), a);
            } else if self.is("{") && matches!(self.at(1), Tok::Id(_)) && matches!(self.at(2), Tok::P(":")) {
                // call options
                self.skip_to("}")?;
            } else if self.eat("[") {
                if self.eat("]") {
                    e = Expr::Index(Box::new(e), None);
                    continue;
                }
                let a = if self.is(":") { None } else { Some(Box::new(self.expr()?)) };
                if self.eat(":") {
                    let b = if self.is("]") { None } else { Some(Box::new(self.expr()?)) };
                    self.want("]")?;
                    e = Expr::Slice(Box::new(e), a, b);
                } else {
                    self.want("]")?;
                    e = Expr::Index(Box::new(e), a);
                }
            } else if self.eat("++") {
                e = Expr::Un(Un::PostInc, Box::new(e));
            } else if self.eat("--") {
                e = Expr::Un(Un::PostDec, Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
    fn primary(&mut self) -> Res<Expr> {
        match self.peek().clone() {
            Tok::Num(w) => {
                self.i += 1;
                // time and ether units
                let unit = match self.peek() {
                    Tok::Id(s) => match s.as_str() {
                        "wei" | "seconds" => 1,
                        "minutes" => 60,
                        "hours" => 3600,
                        "days" => 86400,
                        "weeks" => 604800,
                        "ether" => 1_000_000_000_000_000_000,
                        _ => 0,
                    },
                    _ => 0,
                };
                if unit != 0 {
                    self.i += 1;
                    return Ok(Expr::Num(w.mul(W::u(unit))));
                }
                Ok(Expr::Num(w))
            }
            Tok::Str(s) => {
                self.i += 1;
                self.g.lits.push(s);
                Ok(Expr::Str(self.g.lits.len() as u32 - 1))
            }
            Tok::P("(") => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    if self.is(",") || self.is(")") {
                        v.push(None);
                    } else {
                        v.push(Some(self.expr()?));
                    }
                    if self.eat(")") {
                        break;
                    }
                    self.want(",")?;
                }
                Ok(Expr::Tuple(v))
            }
            Tok::P("[") => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat("]") {
                    v.push(self.expr()?);
                    if !self.eat(",") && !self.is("]") {
                        return Err("expected , or ]".into());
                    }
                }
                Ok(Expr::Inline(v))
            }
            Tok::Id(s) => match s.as_str() {
                "true" | "false" => {
                    self.i += 1;
                    Ok(Expr::Bool(s == "true"))
                }
                "new" => {
                    self.i += 1;
                    Ok(Expr::New(self.type_name()?))
                }
                "payable" => {
                    self.i += 1;
                    Ok(Expr::Type(TypeName::Elem(Ty::Address)))
                }
                _ => {
                    if let Some(t) = elementary(&s) {
                        self.i += 1;
                        return Ok(Expr::Type(TypeName::Elem(t)));
                    }
                    Ok(Expr::Ident(self.ident()?))
                }
            },
            t => Err(format!("expression starts with {:?}", t)),
        }
    }
    // inline assembly
    fn yblock(&mut self) -> Res<Vec<Y>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.ystmt()?);
        }
        Ok(v)
    }
    fn ynames(&mut self) -> Res<Vec<Sym>> {
        let mut v = vec![self.ident()?];
        while self.eat(",") {
            v.push(self.ident()?);
        }
        Ok(v)
    }
    fn ystmt(&mut self) -> Res<Y> {
        if self.is("{") {
            return Ok(Y::Block(self.yblock()?));
        }
        if self.eat_id("let") {
            let n = self.ynames()?;
            let e = if self.eat(":=") { Some(self.yexpr()?) } else { None };
            return Ok(Y::Let(n, e));
        }
        if self.eat_id("if") {
            let c = self.yexpr()?;
            return Ok(Y::If(c, self.yblock()?));
        }
        if self.eat_id("switch") {
            let c = self.yexpr()?;
            let (mut cases, mut def) = (vec![], None);
            loop {
                if self.eat_id("case") {
                    let k = match self.yexpr()? {
                        YE::Num(w) => w,
                        _ => return Err("case of a value that is not a literal".into()),
                    };
                    cases.push((k, self.yblock()?));
                } else if self.eat_id("default") {
                    def = Some(self.yblock()?);
                } else {
                    break;
                }
            }
            return Ok(Y::Switch(c, cases, def));
        }
        if self.eat_id("for") {
            let a = self.yblock()?;
            let c = self.yexpr()?;
            let s = self.yblock()?;
            let b = self.yblock()?;
            return Ok(Y::For(a, c, s, b));
        }
        if self.eat_id("function") {
            let name = self.ident()?;
            self.want("(")?;
            let params = if self.is(")") { vec![] } else { self.ynames()? };
            self.want(")")?;
            let rets = if self.eat("->") { self.ynames()? } else { vec![] };
            let body = self.yblock()?;
            return Ok(Y::Fn(std::rc::Rc::new(YFn { name, params, rets, body })));
        }
        if self.eat_id("break") {
            return Ok(Y::Break);
        }
        if self.eat_id("continue") {
            return Ok(Y::Continue);
        }
        if self.eat_id("leave") {
            return Ok(Y::Leave);
        }
        let save = self.i;
        if let Ok(n) = self.ynames() {
            if self.eat(":=") {
                return Ok(Y::Assign(n, self.yexpr()?));
            }
        }
        self.i = save;
        Ok(Y::Expr(self.yexpr()?))
    }
    fn yexpr(&mut self) -> Res<YE> {
        match self.peek().clone() {
            Tok::Num(w) => {
                self.i += 1;
                Ok(YE::Num(w))
            }
            Tok::Str(s) => {
                self.i += 1;
                let mut b = [0; 32];
                if s.len() > 32 {
                    return Err("string too long".into());
                }
                b[..s.len()].copy_from_slice(&s);
                Ok(YE::Num(W::from_be(&b)))
            }
            Tok::Id(s) if s == "true" || s == "false" => {
                self.i += 1;
                Ok(YE::Num(W::b(s == "true")))
            }
            Tok::Id(_) => {
                let n = self.ident()?;
                if self.eat("(") {
                    let mut a = vec![];
                    while !self.eat(")") {
                        a.push(self.yexpr()?);
                        if !self.eat(",") && !self.is(")") {
                            return Err("expected , or )".into());
                        }
                    }
                    return Ok(YE::Call(n, a));
                }
                Ok(YE::Id(n))
            }
            t => Err(format!("assembly expression starts with {:?}", t)),
        }
    }
}
