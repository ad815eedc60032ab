//! A small Solidity 0.6 interpreter with byte-addressed memory and the BN254 precompiles: the
//! platform on which the generated verifier contracts are executed.
use num::bigint::BigUint;
use num::{One, ToPrimitive, Zero};
use pairing::bn256::{Bn256, Fr, G1Affine, G1Uncompressed, G2Affine, G2Uncompressed};
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};
use std::collections::HashMap;

pub type U = BigUint;
/// why an execution has no result
#[derive(Debug, Clone)]
pub enum Stop {
    /// the text is not a program of the language
    Bad(String),
    /// the execution reverted (or ran an invalid opcode)
    Revert(String),
}
type Res<T> = Result<T, Stop>;
fn bad<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Bad(s.into()))
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(U),
    Str(String),
    Sym(&'static str),
    End,
}
const SYMS: [&str; 46] = [
    ">>=", "<<=", "**", "=>", ":=", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<", ">>",
    "{", "}", "(", ")", "[", "]", ";", ",", ".", "=", "<", ">", "+", "-", "*", "/", "%", "!", "&", "|", "^", "?", ":",
];
fn lex(s: &str) -> Res<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    'next: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if s[i..].starts_with("/*") {
            match s[i + 2..].find("*/") {
                Some(k) => i += k + 4,
                None => return bad("unterminated comment"),
            }
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let j = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            v.push(Tok::Id(s[j..i].to_string()));
            continue;
        }
        if c.is_ascii_digit() {
            let j = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t = s[j..i].replace('_', "");
            let n = if t.starts_with("0x") { U::parse_bytes(t[2..].as_bytes(), 16) } else { U::parse_bytes(t.as_bytes(), 10) };
            match n {
                // a decimal literal other than 0 may not start with 0
                Some(n) if t == "0" || t.starts_with("0x") || !t.starts_with('0') => v.push(Tok::Num(n)),
                _ => return bad(format!("number {}", t)),
            }
            continue;
        }
        if c == b'"' || c == b'\'' {
            let j = i + 1;
            i += 1;
            while i < b.len() && b[i] != c {
                if b[i] == b'\n' {
                    return bad("string");
                }
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            if i >= b.len() {
                return bad("string");
            }
            v.push(Tok::Str(s[j..i].to_string()));
            i += 1;
            continue;
        }
        for t in SYMS.iter() {
            if s[i..].starts_with(t) {
                v.push(Tok::Sym(t));
                i += t.len();
                continue 'next;
            }
        }
        return bad(format!("character {:?}", &s[i..(i + 10).min(s.len())]));
    }
    v.push(Tok::End);
    Ok(v)
}

// ---------------------------------------------------------------- syntax
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(usize),
    Bool,
    Named(String, String),
    Arr(Box<Ty>, usize),
    Dyn(Box<Ty>),
    Lit,
    Text,
    Void,
}
#[derive(Clone, Debug)]
enum E {
    Num(U),
    Str(String),
    Bool(bool),
    Id(String),
    Bin(&'static str, Box<E>, Box<E>),
    Not(Box<E>),
    Inc(bool, bool, Box<E>), // increment?, prefix?
    Set(&'static str, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Call(Box<E>, Vec<E>),
    Dot(Box<E>, String),
    At(Box<E>, Box<E>),
    Lits(Vec<E>),
    New(TyE, Box<E>),
    Cast(TyE, Box<E>),
}
/// unresolved type
#[derive(Clone, Debug)]
enum TyE {
    Base(String),
    Path(Option<String>, String),
    Arr(Box<TyE>, Option<Box<E>>),
}
#[derive(Clone, Debug)]
enum St {
    Decl(TyE, String, Option<E>),
    Ex(E),
    If(E, Vec<St>, Vec<St>),
    For(Vec<St>, Option<E>, Option<E>, Vec<St>),
    While(E, Vec<St>),
    Ret(Option<E>),
    Block(Vec<St>),
    Asm(Vec<A>),
    Break,
    Continue,
}
#[derive(Clone, Debug)]
enum A {
    Set(String, AE),
    Let(String, AE),
    Ex(AE),
    If(AE, Vec<A>),
    Switch(AE, Vec<(U, Vec<A>)>, Option<Vec<A>>),
    Block(Vec<A>),
}
#[derive(Clone, Debug)]
enum AE {
    Num(U),
    Id(String),
    Call(String, Vec<AE>),
}
#[derive(Clone, Debug)]
struct Fun {
    name: String,
    args: Vec<(TyE, String)>,
    rets: Vec<(TyE, String)>,
    body: Vec<St>,
    public: bool,
}
#[derive(Clone, Debug, Default)]
struct Unit {
    name: String,
    structs: HashMap<String, Vec<(TyE, String)>>,
    consts: HashMap<String, (TyE, E)>,
    funs: Vec<Fun>,
}
pub struct Program {
    units: Vec<Unit>,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
const BASES: [&str; 2] = ["bool", "string"];
fn is_base(s: &str) -> bool {
    BASES.contains(&s) || (s.starts_with("uint") && s[4..].chars().all(|c| c.is_ascii_digit()))
}
impl P {
    fn peek(&self) -> &Tok {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is(&self, s: &str) -> bool {
        match self.peek() {
            Tok::Sym(x) => *x == s,
            Tok::Id(x) => x == s,
            _ => false,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.is(s);
        if r {
            self.i += 1;
        }
        r
    }
    fn want(&mut self, s: &str) -> Res<()> {
        if self.eat(s) {
            Ok(())
        } else {
            bad(format!("expected {} before {:?}", s, self.peek()))
        }
    }
    fn id(&mut self) -> Res<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            t => bad(format!("expected a name, got {:?}", t)),
        }
    }
    fn program(&mut self) -> Res<Program> {
        let mut units = vec![];
        while *self.peek() != Tok::End {
            if self.eat("pragma") {
                while !self.eat(";") {
                    if self.next() == Tok::End {
                        return bad("pragma");
                    }
                }
            } else if self.eat("library") || self.eat("contract") {
                units.push(self.unit()?);
            } else {
                return bad(format!("top level {:?}", self.peek()));
            }
        }
        Ok(Program { units })
    }
    fn unit(&mut self) -> Res<Unit> {
        let mut u = Unit { name: self.id()?, ..Default::default() };
        self.want("{")?;
        while !self.eat("}") {
            if self.eat("using") {
                self.id()?;
                self.want("for")?;
                if !self.eat("*") {
                    self.ty()?;
                }
                self.want(";")?;
            } else if self.eat("struct") {
                let n = self.id()?;
                self.want("{")?;
                let mut f = vec![];
                while !self.eat("}") {
                    let t = self.ty()?;
                    f.push((t, self.id()?));
                    self.want(";")?;
                }
                if u.structs.insert(n, f).is_some() {
                    return bad("struct declared twice");
                }
            } else if self.eat("function") {
                let f = self.fun()?;
                if u.funs.iter().any(|g| g.name == f.name && g.args.len() == f.args.len()) {
                    return bad("function declared twice");
                }
                u.funs.push(f);
            } else {
                let t = self.ty()?;
                let mut constant = false;
                while self.is("constant") || self.is("public") || self.is("internal") || self.is("private") {
                    constant |= self.is("constant");
                    self.i += 1;
                }
                let n = self.id()?;
                if !constant {
                    return bad("state variable");
                }
                self.want("=")?;
                let e = self.expr()?;
                self.want(";")?;
                if u.consts.insert(n, (t, e)).is_some() {
                    return bad("constant declared twice");
                }
            }
        }
        Ok(u)
    }
    fn params(&mut self) -> Res<Vec<(TyE, String)>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            let t = self.ty()?;
            while self.eat("memory") || self.eat("calldata") {}
            let n = if let Tok::Id(s) = self.peek().clone() {
                self.i += 1;
                s
            } else {
                String::new()
            };
            v.push((t, n));
            if !self.is(")") {
                self.want(",")?;
            }
        }
        Ok(v)
    }
    fn fun(&mut self) -> Res<Fun> {
        let name = self.id()?;
        let args = self.params()?;
        let mut rets = vec![];
        let mut public = false;
        while !self.is("{") {
            if self.eat("returns") {
                rets = self.params()?;
            } else {
                match self.id()?.as_str() {
                    "public" | "external" => public = true,
                    "internal" | "private" | "pure" | "view" => {}
                    s => return bad(format!("modifier {}", s)),
                }
            }
        }
        Ok(Fun { name, args, rets, body: self.block()?, public })
    }
    fn ty(&mut self) -> Res<TyE> {
        let n = self.id()?;
        let mut t = if is_base(&n) {
            TyE::Base(n)
        } else if self.eat(".") {
            TyE::Path(Some(n), self.id()?)
        } else {
            TyE::Path(None, n)
        };
        while self.eat("[") {
            if self.eat("]") {
                t = TyE::Arr(Box::new(t), None);
            } else {
                let e = self.expr()?;
                self.want("]")?;
                t = TyE::Arr(Box::new(t), Some(Box::new(e)));
            }
        }
        Ok(t)
    }
    fn block(&mut self) -> Res<Vec<St>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.stmt()?);
        }
        Ok(v)
    }
    fn body(&mut self) -> Res<Vec<St>> {
        if self.is("{") {
            self.block()
        } else {
            Ok(vec![self.stmt()?])
        }
    }
    fn simple(&mut self) -> Res<St> {
        let k = self.i;
        if let Tok::Id(_) = self.peek() {
            if let Ok(t) = self.ty() {
                let mem = self.eat("memory") || self.eat("calldata");
                if let Tok::Id(n) = self.peek().clone() {
                    self.i += 1;
                    let e = if self.eat("=") { Some(self.expr()?) } else { None };
                    return Ok(St::Decl(t, n, e));
                }
                if mem {
                    return bad("declaration");
                }
            }
            self.i = k;
        }
        Ok(St::Ex(self.expr()?))
    }
    fn stmt(&mut self) -> Res<St> {
        if self.is("{") {
            return Ok(St::Block(self.block()?));
        }
        if self.eat("if") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            let a = self.body()?;
            let b = if self.eat("else") { self.body()? } else { vec![] };
            return Ok(St::If(c, a, b));
        }
        if self.eat("for") {
            self.want("(")?;
            let init = if self.is(";") { vec![] } else { vec![self.simple()?] };
            self.want(";")?;
            let c = if self.is(";") { None } else { Some(self.expr()?) };
            self.want(";")?;
            let n = if self.is(")") { None } else { Some(self.expr()?) };
            self.want(")")?;
            return Ok(St::For(init, c, n, self.body()?));
        }
        if self.eat("while") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            return Ok(St::While(c, self.body()?));
        }
        if self.eat("assembly") {
            return Ok(St::Asm(self.ablock()?));
        }
        let s = if self.eat("return") {
            St::Ret(if self.is(";") { None } else { Some(self.expr()?) })
        } else if self.eat("break") {
            St::Break
        } else if self.eat("continue") {
            St::Continue
        } else {
            self.simple()?
        };
        self.want(";")?;
        Ok(s)
    }
    // assembly
    fn ablock(&mut self) -> Res<Vec<A>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.astmt()?);
        }
        Ok(v)
    }
    fn astmt(&mut self) -> Res<A> {
        if self.is("{") {
            return Ok(A::Block(self.ablock()?));
        }
        if self.eat("let") {
            let n = self.id()?;
            self.want(":=")?;
            return Ok(A::Let(n, self.aexpr()?));
        }
        if self.eat("if") {
            let c = self.aexpr()?;
            return Ok(A::If(c, self.ablock()?));
        }
        if self.eat("switch") {
            let c = self.aexpr()?;
            let mut cs = vec![];
            let mut d = None;
            loop {
                if self.eat("case") {
                    match self.next() {
                        Tok::Num(n) => cs.push((n, self.ablock()?)),
                        t => return bad(format!("case {:?}", t)),
                    }
                } else if self.eat("default") {
                    d = Some(self.ablock()?);
                } else {
                    break;
                }
            }
            return Ok(A::Switch(c, cs, d));
        }
        if let (Tok::Id(n), Tok::Sym(":=")) = (self.peek().clone(), self.t[(self.i + 1).min(self.t.len() - 1)].clone()) {
            self.i += 2;
            return Ok(A::Set(n, self.aexpr()?));
        }
        Ok(A::Ex(self.aexpr()?))
    }
    fn aexpr(&mut self) -> Res<AE> {
        match self.next() {
            Tok::Num(n) => Ok(AE::Num(n)),
            Tok::Id(n) => {
                if self.eat("(") {
                    let mut v = vec![];
                    while !self.eat(")") {
                        v.push(self.aexpr()?);
                        if !self.is(")") {
                            self.want(",")?;
                        }
                    }
                    Ok(AE::Call(n, v))
                } else {
                    Ok(AE::Id(n))
                }
            }
            t => bad(format!("assembly {:?}", t)),
        }
    }
    // expressions
    fn expr(&mut self) -> Res<E> {
        let l = self.cond()?;
        for op in ["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="].iter() {
            if self.eat(op) {
                return Ok(E::Set(op, Box::new(l), Box::new(self.expr()?)));
            }
        }
        Ok(l)
    }
    fn cond(&mut self) -> Res<E> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(E::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> Res<E> {
        const L: [&[&str]; 11] =
            [&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"], &["**"]];
        if lvl == L.len() {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        'l: loop {
            for op in L[lvl] {
                if self.eat(op) {
                    let r = self.bin(lvl + 1)?;
                    l = E::Bin(op, Box::new(l), Box::new(r));
                    continue 'l;
                }
            }
            return Ok(l);
        }
    }
    fn unary(&mut self) -> Res<E> {
        if self.eat("!") {
            return Ok(E::Not(Box::new(self.unary()?)));
        }
        if self.eat("++") {
            return Ok(E::Inc(true, true, Box::new(self.unary()?)));
        }
        if self.eat("--") {
            return Ok(E::Inc(false, true, Box::new(self.unary()?)));
        }
        self.postfix()
    }
    fn args(&mut self, close: &str) -> Res<Vec<E>> {
        let mut v = vec![];
        while !self.eat(close) {
            v.push(self.expr()?);
            if !self.is(close) {
                self.want(",")?;
                if self.is(close) {
                    return bad("trailing comma");
                }
            }
        }
        Ok(v)
    }
    fn postfix(&mut self) -> Res<E> {
        let mut e = match self.next() {
            Tok::Num(n) => E::Num(n),
            Tok::Str(s) => E::Str(s),
            Tok::Sym("(") => {
                let e = self.expr()?;
                self.want(")")?;
                e
            }
            Tok::Sym("[") => E::Lits(self.args("]")?),
            Tok::Id(s) if s == "true" || s == "false" => E::Bool(s == "true"),
            Tok::Id(s) if s == "new" => {
                let t = self.ty()?;
                self.want("(")?;
                let n = self.expr()?;
                self.want(")")?;
                E::New(t, Box::new(n))
            }
            Tok::Id(s) if is_base(&s) => {
                self.want("(")?;
                let a = self.expr()?;
                self.want(")")?;
                E::Cast(TyE::Base(s), Box::new(a))
            }
            Tok::Id(s) => E::Id(s),
            t => return bad(format!("expression {:?}", t)),
        };
        loop {
            if self.eat("(") {
                e = E::Call(Box::new(e), self.args(")")?);
            } else if self.eat(".") {
                e = E::Dot(Box::new(e), self.id()?);
            } else if self.eat("[") {
                let i = self.expr()?;
                self.want("]")?;
                e = E::At(Box::new(e), Box::new(i));
            } else if self.eat("++") {
                e = E::Inc(true, false, Box::new(e));
            } else if self.eat("--") {
                e = E::Inc(false, false, Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
}
pub fn parse(text: &str) -> Res<Program> {
    P { t: lex(text)?, i: 0 }.program()
}

// ---------------------------------------------------------------- execution
type Val = (Ty, U);
enum Flow {
    Go,
    Break,
    Continue,
    Ret(Option<Val>),
}
struct Vm<'a> {
    p: &'a Program,
    mem: Vec<u8>,
    free: usize,
    steps: usize,
}
struct Frame {
    unit: usize,
    scopes: Vec<HashMap<String, Val>>,
}
enum Place {
    Local(String),
    Mem(usize, Ty),
}
fn two256() -> U {
    U::one() << 256
}
fn width(n: &U) -> usize {
    // the smallest integer type that holds a literal
    ((n.bits() + 7) / 8 * 8).max(8)
}
fn by_ref(t: &Ty) -> bool {
    matches!(t, Ty::Named(..) | Ty::Arr(..) | Ty::Dyn(..))
}
impl<'a> Vm<'a> {
    fn tick(&mut self) -> Res<()> {
        self.steps += 1;
        if self.steps > 400_000 {
            return Err(Stop::Revert("out of gas".into()));
        }
        Ok(())
    }
    fn unit(&self, n: &str) -> Option<usize> {
        self.p.units.iter().position(|u| u.name == n)
    }
    fn ty(&mut self, u: usize, t: &TyE) -> Res<Ty> {
        Ok(match t {
            TyE::Base(s) if s == "bool" => Ty::Bool,
            TyE::Base(s) if s == "string" => Ty::Text,
            TyE::Base(s) => {
                let n = if s == "uint" { 256 } else { s[4..].parse().unwrap_or(0) };
                if n == 0 || n > 256 || n % 8 != 0 {
                    return bad(format!("type {}", s));
                }
                Ty::Int(n)
            }
            TyE::Path(q, n) => {
                let k = match q {
                    Some(q) => match self.unit(q) {
                        Some(k) => k,
                        None => return bad(format!("no library {}", q)),
                    },
                    None => u,
                };
                if !self.p.units[k].structs.contains_key(n) {
                    return bad(format!("no struct {}", n));
                }
                Ty::Named(self.p.units[k].name.clone(), n.clone())
            }
            TyE::Arr(e, None) => Ty::Dyn(Box::new(self.ty(u, e)?)),
            TyE::Arr(e, Some(n)) => {
                let mut f = Frame { unit: u, scopes: vec![] };
                let n = self.eval(&mut f, n)?.1.to_usize().unwrap_or(0);
                if n == 0 {
                    return bad("array of length zero");
                }
                Ty::Arr(Box::new(self.ty(u, e)?), n)
            }
        })
    }
    fn fields(&mut self, t: &Ty) -> Res<Vec<(Ty, String)>> {
        if let Ty::Named(u, n) = t {
            let k = self.unit(u).unwrap();
            let fs = self.p.units[k].structs[n].clone();
            fs.iter().map(|(t, n)| Ok((self.ty(k, t)?, n.clone()))).collect()
        } else {
            bad("fields")
        }
    }
    fn grow(&mut self, n: usize) -> Res<()> {
        if n > 1 << 22 {
            return Err(Stop::Revert("out of gas".into()));
        }
        if self.mem.len() < n {
            self.mem.resize(n, 0);
        }
        Ok(())
    }
    fn alloc(&mut self, words: usize) -> Res<usize> {
        let a = self.free;
        self.free += 32 * words;
        self.grow(self.free)?;
        for b in &mut self.mem[a..a + 32 * words] {
            *b = 0;
        }
        Ok(a)
    }
    fn load(&mut self, a: usize) -> Res<U> {
        self.grow(a + 32)?;
        Ok(U::from_bytes_be(&self.mem[a..a + 32]))
    }
    fn store(&mut self, a: usize, v: &U) -> Res<()> {
        self.grow(a + 32)?;
        let b = v.to_bytes_be();
        for x in &mut self.mem[a..a + 32] {
            *x = 0;
        }
        let k = a + 32 - b.len().min(32);
        self.mem[k..a + 32].copy_from_slice(&b[b.len() - b.len().min(32)..]);
        Ok(())
    }
    /// the default value of a type
    fn zero(&mut self, t: &Ty) -> Res<U> {
        Ok(match t {
            Ty::Named(..) => {
                let fs = self.fields(t)?;
                let a = self.alloc(fs.len())?;
                for (i, (t, _)) in fs.iter().enumerate() {
                    let z = self.zero(t)?;
                    self.store(a + 32 * i, &z)?;
                }
                U::from(a)
            }
            Ty::Arr(e, n) => {
                let a = self.alloc(*n)?;
                if by_ref(e) {
                    for i in 0..*n {
                        let z = self.zero(e)?;
                        self.store(a + 32 * i, &z)?;
                    }
                }
                U::from(a)
            }
            Ty::Dyn(_) => U::from(self.alloc(1)?),
            _ => U::zero(),
        })
    }
    /// implicit conversion
    fn conv(&self, v: Val, t: &Ty) -> Res<U> {
        match (&v.0, t) {
            (Ty::Lit, Ty::Int(n)) if v.1.bits() <= *n => Ok(v.1),
            (Ty::Int(m), Ty::Int(n)) if m <= n => Ok(v.1),
            (a, b) if a == b => Ok(v.1),
            (a, b) => bad(format!("no implicit conversion from {:?} to {:?}", a, b)),
        }
    }
    fn find(&mut self, f: &Frame, n: &str) -> Res<Option<Val>> {
        for s in f.scopes.iter().rev() {
            if let Some(v) = s.get(n) {
                return Ok(Some(v.clone()));
            }
        }
        let k = f.unit;
        if let Some((t, e)) = self.p.units[k].consts.get(n).cloned() {
            let t = self.ty(k, &t)?;
            let mut g = Frame { unit: k, scopes: vec![] };
            let v = self.eval(&mut g, &e)?;
            let v = self.conv(v, &t)?;
            return Ok(Some((t, v)));
        }
        Ok(None)
    }
    fn place(&mut self, f: &mut Frame, e: &E) -> Res<Place> {
        match e {
            E::Id(n) => Ok(Place::Local(n.clone())),
            E::Dot(b, n) => {
                let (t, a) = self.eval(f, b)?;
                let fs = self.fields(&t)?;
                match fs.iter().position(|x| x.1 == *n) {
                    Some(i) => Ok(Place::Mem(a.to_usize().unwrap() + 32 * i, fs[i].0.clone())),
                    None => bad(format!("no member {}", n)),
                }
            }
            E::At(b, i) => {
                let (t, a) = self.eval(f, b)?;
                let i = self.eval(f, i)?;
                let i = self.conv(i, &Ty::Int(256))?.to_usize().unwrap_or(usize::max_value());
                let a = a.to_usize().unwrap();
                match t {
                    Ty::Arr(e, n) if i < n => Ok(Place::Mem(a + 32 * i, *e)),
                    Ty::Dyn(e) => {
                        let n = self.load(a)?.to_usize().unwrap();
                        if i < n {
                            Ok(Place::Mem(a + 32 + 32 * i, *e))
                        } else {
                            Err(Stop::Revert("index".into()))
                        }
                    }
                    Ty::Arr(..) => Err(Stop::Revert("index".into())),
                    t => bad(format!("index into {:?}", t)),
                }
            }
            _ => bad("not assignable"),
        }
    }
    fn get(&mut self, f: &Frame, p: &Place) -> Res<Val> {
        match p {
            Place::Local(n) => match self.find(f, n)? {
                Some(v) => Ok(v),
                None => bad(format!("undeclared {}", n)),
            },
            Place::Mem(a, t) => Ok((t.clone(), self.load(*a)?)),
        }
    }
    fn put(&mut self, f: &mut Frame, p: &Place, v: Val) -> Res<Val> {
        match p {
            Place::Local(n) => {
                for s in f.scopes.iter_mut().rev() {
                    if let Some(x) = s.get_mut(n) {
                        let t = x.0.clone();
                        let v = match (&v.0, &t) {
                            (Ty::Lit, Ty::Int(k)) if v.1.bits() <= *k => v.1,
                            (Ty::Int(m), Ty::Int(k)) if m <= k => v.1,
                            (a, b) if a == b => v.1,
                            (a, b) => return bad(format!("assignment of {:?} to {:?}", a, b)),
                        };
                        x.1 = v.clone();
                        return Ok((t, v));
                    }
                }
                bad(format!("assignment to {}", n))
            }
            Place::Mem(a, t) => {
                let v = self.conv(v, t)?;
                self.store(*a, &v)?;
                Ok((t.clone(), v))
            }
        }
    }
    fn arith(&self, op: &str, a: Val, b: Val) -> Res<Val> {
        let t = match (&a.0, &b.0) {
            (Ty::Bool, Ty::Bool) => Ty::Bool,
            (Ty::Lit, Ty::Lit) => Ty::Lit,
            (Ty::Int(n), Ty::Lit) if b.1.bits() <= *n => Ty::Int(*n),
            (Ty::Lit, Ty::Int(n)) if a.1.bits() <= *n => Ty::Int(*n),
            (Ty::Int(n), Ty::Lit) => Ty::Int((*n).max(width(&b.1))),
            (Ty::Lit, Ty::Int(n)) => Ty::Int((*n).max(width(&a.1))),
            (Ty::Int(m), Ty::Int(n)) => Ty::Int((*m).max(*n)),
            (x, y) => return bad(format!("operator {} on {:?} and {:?}", op, x, y)),
        };
        let (x, y) = (a.1, b.1);
        let cmp = |r: bool| Ok((Ty::Bool, if r { U::one() } else { U::zero() }));
        match op {
            "==" => return cmp(x == y),
            "!=" => return cmp(x != y),
            _ => {}
        }
        if t == Ty::Bool {
            return bad(format!("operator {} on booleans", op));
        }
        let m = match t {
            Ty::Int(n) => U::one() << n,
            _ => two256(),
        };
        let r = match op {
            "<" => return cmp(x < y),
            ">" => return cmp(x > y),
            "<=" => return cmp(x <= y),
            ">=" => return cmp(x >= y),
            "+" => x + y,
            "-" => {
                if t == Ty::Lit && x < y {
                    return bad("negative literal");
                }
                x + &m - y
            }
            "*" => x * y,
            "/" | "%" if y.is_zero() => return Err(Stop::Revert("division by zero".into())),
            "/" => x / y,
            "%" => x % y,
            "&" | "|" | "^" => {
                let (mut a, mut b) = (x.to_bytes_le(), y.to_bytes_le());
                a.resize(40, 0);
                b.resize(40, 0);
                let v: Vec<u8> = a
                    .iter()
                    .zip(b.iter())
                    .map(|(p, q)| match op {
                        "&" => p & q,
                        "|" => p | q,
                        _ => p ^ q,
                    })
                    .collect();
                U::from_bytes_le(&v)
            }
            "<<" | ">>" => match y.to_usize() {
                Some(k) if k < 256 => {
                    if op == "<<" {
                        x << k
                    } else {
                        x >> k
                    }
                }
                _ => U::zero(),
            },
            "**" => {
                let mut r = U::one();
                let k = y.to_usize().unwrap_or(1 << 20).min(1 << 12);
                for _ in 0..k {
                    r = r * &x % &m;
                }
                r
            }
            _ => return bad(format!("operator {}", op)),
        };
        Ok((t, r % m))
    }
    fn truth(&self, v: Val) -> Res<bool> {
        if v.0 == Ty::Bool {
            Ok(!v.1.is_zero())
        } else {
            bad("condition is not a boolean")
        }
    }
    fn build(&mut self, f: &mut Frame, t: Ty, args: &[E]) -> Res<Val> {
        let fs = self.fields(&t)?;
        if fs.len() != args.len() {
            return bad("struct constructor arguments");
        }
        let mut vs = vec![];
        for (a, (t, _)) in args.iter().zip(fs.iter()) {
            let v = self.eval(f, a)?;
            vs.push(self.conv(v, t)?);
        }
        let a = self.alloc(vs.len())?;
        for (i, v) in vs.iter().enumerate() {
            self.store(a + 32 * i, v)?;
        }
        Ok((t, U::from(a)))
    }
    fn eval(&mut self, f: &mut Frame, e: &E) -> Res<Val> {
        self.tick()?;
        match e {
            E::Num(n) => {
                if n.bits() > 256 {
                    return bad("number too large");
                }
                Ok((Ty::Lit, n.clone()))
            }
            E::Str(_) => Ok((Ty::Text, U::zero())),
            E::Bool(b) => Ok((Ty::Bool, U::from(*b as u32))),
            E::Id(_) | E::At(..) => {
                let p = self.place(f, e)?;
                self.get(f, &p)
            }
            E::Dot(b, n) => {
                // Library.CONSTANT, array length, member
                if let E::Id(l) = &**b {
                    if self.find(f, l)?.is_none() {
                        if let Some(k) = self.unit(l) {
                            let g = Frame { unit: k, scopes: vec![] };
                            return match self.find(&g, n)? {
                                Some(v) => Ok(v),
                                None => bad(format!("no {}.{}", l, n)),
                            };
                        }
                    }
                }
                if n == "length" {
                    let (t, a) = self.eval(f, b)?;
                    return match t {
                        Ty::Arr(_, n) => Ok((Ty::Int(256), U::from(n))),
                        Ty::Dyn(_) => Ok((Ty::Int(256), self.load(a.to_usize().unwrap())?)),
                        _ => bad("length"),
                    };
                }
                let p = self.place(f, e)?;
                self.get(f, &p)
            }
            E::Bin("&&", a, b) => {
                let x = self.eval(f, a)?;
                if !self.truth(x)? {
                    return Ok((Ty::Bool, U::zero()));
                }
                let y = self.eval(f, b)?;
                let y = self.truth(y)?;
                Ok((Ty::Bool, U::from(y as u32)))
            }
            E::Bin("||", a, b) => {
                let x = self.eval(f, a)?;
                if self.truth(x)? {
                    return Ok((Ty::Bool, U::one()));
                }
                let y = self.eval(f, b)?;
                let y = self.truth(y)?;
                Ok((Ty::Bool, U::from(y as u32)))
            }
            E::Bin(op, a, b) => {
                let x = self.eval(f, a)?;
                let y = self.eval(f, b)?;
                self.arith(op, x, y)
            }
            E::Not(a) => {
                let x = self.eval(f, a)?;
                let x = self.truth(x)?;
                Ok((Ty::Bool, U::from(!x as u32)))
            }
            E::Inc(up, pre, a) => {
                let p = self.place(f, a)?;
                let v = self.get(f, &p)?;
                let w = self.arith(if *up { "+" } else { "-" }, v.clone(), (Ty::Lit, U::one()))?;
                let w = self.put(f, &p, w)?;
                Ok(if *pre { w } else { v })
            }
            E::Set("=", l, r) => {
                let v = self.eval(f, r)?;
                let p = self.place(f, l)?;
                self.put(f, &p, v)
            }
            E::Set(op, l, r) => {
                let v = self.eval(f, r)?;
                let p = self.place(f, l)?;
                let o = self.get(f, &p)?;
                let w = self.arith(&op[..op.len() - 1], o, v)?;
                self.put(f, &p, w)
            }
            E::Cond(c, a, b) => {
                let c = self.eval(f, c)?;
                if self.truth(c)? {
                    self.eval(f, a)
                } else {
                    self.eval(f, b)
                }
            }
            E::Lits(v) => {
                let vs = v.iter().map(|e| self.eval(f, e)).collect::<Res<Vec<_>>>()?;
                // the element type is the common type of the elements, a literal having its smallest type
                let mut t: Option<Ty> = None;
                for x in vs.iter() {
                    let u = if x.0 == Ty::Lit { Ty::Int(width(&x.1)) } else { x.0.clone() };
                    t = Some(match (t, u) {
                        (None, u) => u,
                        (Some(Ty::Int(m)), Ty::Int(n)) => Ty::Int(m.max(n)),
                        (Some(a), b) if a == b => a,
                        _ => return bad("array literal"),
                    });
                }
                match t {
                    None => bad("empty array literal"),
                    Some(t) => {
                        let a = self.alloc(vs.len())?;
                        for (i, x) in vs.iter().enumerate() {
                            self.store(a + 32 * i, &x.1)?;
                        }
                        Ok((Ty::Arr(Box::new(t), vs.len()), U::from(a)))
                    }
                }
            }
            E::New(t, n) => {
                let t = self.ty(f.unit, t)?;
                let n = self.eval(f, n)?;
                let n = self.conv(n, &Ty::Int(256))?.to_usize().unwrap_or(1 << 40);
                match &t {
                    Ty::Dyn(e) => {
                        if n > 1 << 16 {
                            return Err(Stop::Revert("out of gas".into()));
                        }
                        let a = self.alloc(n + 1)?;
                        self.store(a, &U::from(n))?;
                        if by_ref(e) {
                            for i in 0..n {
                                let z = self.zero(e)?;
                                self.store(a + 32 + 32 * i, &z)?;
                            }
                        }
                        Ok((t, U::from(a)))
                    }
                    _ => bad("new"),
                }
            }
            E::Cast(t, e) => {
                let t = self.ty(f.unit, t)?;
                let v = self.eval(f, e)?;
                match (&v.0, &t) {
                    (Ty::Lit, Ty::Int(n)) if v.1.bits() <= *n => Ok((t, v.1)),
                    (Ty::Int(_), Ty::Int(n)) => Ok((Ty::Int(*n), v.1 % (U::one() << *n))),
                    (Ty::Bool, Ty::Bool) => Ok(v),
                    (a, b) => bad(format!("cast of {:?} to {:?}", a, b)),
                }
            }
            E::Call(c, args) => self.call(f, c, args),
        }
    }
    fn call(&mut self, f: &mut Frame, c: &E, args: &[E]) -> Res<Val> {
        let mut argv = vec![];
        let (k, n): (usize, String) = match c {
            E::Id(n) => match n.as_str() {
                "require" | "assert" => {
                    if args.is_empty() || args.len() > 2 {
                        return bad("require");
                    }
                    let v = self.eval(f, &args[0])?;
                    if !self.truth(v)? {
                        return Err(Stop::Revert(format!("{:?}", args.get(1))));
                    }
                    return Ok((Ty::Void, U::zero()));
                }
                "revert" => return Err(Stop::Revert("revert".into())),
                "addmod" | "mulmod" => {
                    let mut v = vec![];
                    for a in args {
                        let x = self.eval(f, a)?;
                        v.push(self.conv(x, &Ty::Int(256))?);
                    }
                    if v.len() != 3 {
                        return bad("arguments");
                    }
                    if v[2].is_zero() {
                        return Err(Stop::Revert("modulo zero".into()));
                    }
                    return Ok((Ty::Int(256), if n == "addmod" { (&v[0] + &v[1]) % &v[2] } else { (&v[0] * &v[1]) % &v[2] }));
                }
                _ => {
                    if self.p.units[f.unit].structs.contains_key(n) {
                        let t = Ty::Named(self.p.units[f.unit].name.clone(), n.clone());
                        return self.build(f, t, args);
                    }
                    (f.unit, n.clone())
                }
            },
            E::Dot(b, n) => {
                let lib = match &**b {
                    E::Id(l) if self.find(f, l)?.is_none() => self.unit(l),
                    _ => None,
                };
                match lib {
                    Some(k) => {
                        if self.p.units[k].structs.contains_key(n) {
                            let t = Ty::Named(self.p.units[k].name.clone(), n.clone());
                            return self.build(f, t, args);
                        }
                        (k, n.clone())
                    }
                    // value.function(..) through "using"
                    None => {
                        let v = self.eval(f, b)?;
                        argv.push(v);
                        match self.p.units.iter().position(|u| u.funs.iter().any(|g| g.name == *n)) {
                            Some(k) => (k, n.clone()),
                            None => return bad(format!("no function {}", n)),
                        }
                    }
                }
            }
            _ => return bad("call"),
        };
        for a in args {
            argv.push(self.eval(f, a)?);
        }
        self.invoke(k, &n, argv)
    }
    fn invoke(&mut self, k: usize, n: &str, argv: Vec<Val>) -> Res<Val> {
        let fun = match self.p.units[k].funs.iter().find(|g| g.name == n && g.args.len() == argv.len()) {
            Some(g) => g,
            None => return bad(format!("no function {}/{}", n, argv.len())),
        };
        let mut sc = HashMap::new();
        for (v, (t, n)) in argv.into_iter().zip(fun.args.iter()) {
            let t = self.ty(k, t)?;
            let v = self.conv(v, &t)?;
            sc.insert(n.clone(), (t, v));
        }
        for (t, n) in fun.rets.iter() {
            let t = self.ty(k, t)?;
            let z = self.zero(&t)?;
            sc.insert(if n.is_empty() { "$ret".to_string() } else { n.clone() }, (t, z));
        }
        if fun.rets.len() > 1 {
            return bad("several results");
        }
        let mut f = Frame { unit: k, scopes: vec![sc] };
        if self.steps > 300_000 {
            return Err(Stop::Revert("out of gas".into()));
        }
        let flow = self.run(&mut f, &fun.body)?;
        match (fun.rets.get(0), flow) {
            (None, Flow::Ret(Some(_))) => bad("result of a function without one"),
            (None, _) => Ok((Ty::Void, U::zero())),
            (Some((t, _)), Flow::Ret(Some(v))) => {
                let t = self.ty(k, t)?;
                let v = self.conv(v, &t)?;
                Ok((t, v))
            }
            (Some((_, n)), _) => Ok(f.scopes[0][if n.is_empty() { "$ret" } else { n }].clone()),
        }
    }
    fn block(&mut self, f: &mut Frame, b: &[St]) -> Res<Flow> {
        f.scopes.push(HashMap::new());
        let r = self.run(f, b);
        f.scopes.pop();
        r
    }
    fn run(&mut self, f: &mut Frame, b: &[St]) -> Res<Flow> {
        for s in b {
            self.tick()?;
            match s {
                St::Decl(t, n, e) => {
                    let t = self.ty(f.unit, t)?;
                    let v = match e {
                        Some(e) => {
                            let v = self.eval(f, e)?;
                            self.conv(v, &t)?
                        }
                        None => self.zero(&t)?,
                    };
                    if f.scopes.last().unwrap().contains_key(n) {
                        return bad(format!("{} declared twice", n));
                    }
                    f.scopes.last_mut().unwrap().insert(n.clone(), (t, v));
                }
                St::Ex(e) => {
                    self.eval(f, e)?;
                }
                St::If(c, x, y) => {
                    let c = self.eval(f, c)?;
                    let b = if self.truth(c)? { x } else { y };
                    match self.block(f, b)? {
                        Flow::Go => {}
                        r => return Ok(r),
                    }
                }
                St::For(i, c, n, b) => {
                    f.scopes.push(HashMap::new());
                    let r = self.forloop(f, i, c, n, b);
                    f.scopes.pop();
                    match r? {
                        Flow::Go => {}
                        r => return Ok(r),
                    }
                }
                St::While(c, b) => match self.forloop(f, &[], &Some(c.clone()), &None, b)? {
                    Flow::Go => {}
                    r => return Ok(r),
                },
                St::Ret(None) => return Ok(Flow::Ret(None)),
                St::Ret(Some(e)) => {
                    let v = self.eval(f, e)?;
                    return Ok(Flow::Ret(Some(v)));
                }
                St::Block(b) => match self.block(f, b)? {
                    Flow::Go => {}
                    r => return Ok(r),
                },
                St::Asm(b) => self.asm(f, b)?,
                St::Break => return Ok(Flow::Break),
                St::Continue => return Ok(Flow::Continue),
            }
        }
        Ok(Flow::Go)
    }
    fn forloop(&mut self, f: &mut Frame, i: &[St], c: &Option<E>, n: &Option<E>, b: &[St]) -> Res<Flow> {
        self.run(f, i)?;
        loop {
            if let Some(c) = c {
                let c = self.eval(f, c)?;
                if !self.truth(c)? {
                    return Ok(Flow::Go);
                }
            }
            match self.block(f, b)? {
                Flow::Break => return Ok(Flow::Go),
                Flow::Ret(v) => return Ok(Flow::Ret(v)),
                _ => {}
            }
            if let Some(n) = n {
                self.eval(f, n)?;
            }
        }
    }
    // assembly: every variable is a word
    fn asm(&mut self, f: &mut Frame, b: &[A]) -> Res<()> {
        f.scopes.push(HashMap::new());
        let r = self.asm_in(f, b);
        f.scopes.pop();
        r
    }
    fn asm_in(&mut self, f: &mut Frame, b: &[A]) -> Res<()> {
        for s in b {
            self.tick()?;
            match s {
                A::Let(n, e) => {
                    let v = self.aeval(f, e)?;
                    f.scopes.last_mut().unwrap().insert(n.clone(), (Ty::Int(256), v));
                }
                A::Set(n, e) => {
                    let v = self.aeval(f, e)?;
                    let mut done = false;
                    for s in f.scopes.iter_mut().rev() {
                        if let Some(x) = s.get_mut(n) {
                            x.1 = v.clone();
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        return bad(format!("assembly assignment to {}", n));
                    }
                }
                A::Ex(e) => {
                    self.aeval(f, e)?;
                }
                A::If(c, b) => {
                    if !self.aeval(f, c)?.is_zero() {
                        self.asm(f, b)?;
                    }
                }
                A::Switch(c, cs, d) => {
                    let v = self.aeval(f, c)?;
                    match cs.iter().find(|x| x.0 == v) {
                        Some((_, b)) => self.asm(f, b)?,
                        None => {
                            if let Some(b) = d {
                                self.asm(f, b)?
                            }
                        }
                    }
                }
                A::Block(b) => self.asm(f, b)?,
            }
        }
        Ok(())
    }
    fn aeval(&mut self, f: &mut Frame, e: &AE) -> Res<U> {
        self.tick()?;
        match e {
            AE::Num(n) => Ok(n % two256()),
            AE::Id(n) => match self.find(f, n)? {
                Some(v) => Ok(v.1),
                None => bad(format!("undeclared {}", n)),
            },
            AE::Call(n, args) => {
                // arguments are evaluated right to left
                let mut v = vec![];
                for a in args.iter().rev() {
                    v.push(self.aeval(f, a)?);
                }
                v.reverse();
                let m = two256();
                let us = |x: &U| x.to_usize().filter(|n| *n < 1 << 22).ok_or(Stop::Revert("out of gas".into()));
                let flag = |b: bool| Ok(U::from(b as u32));
                match (n.as_str(), v.len()) {
                    ("gas", 0) => Ok(U::from(10_000_000u32)),
                    ("add", 2) => Ok((&v[0] + &v[1]) % m),
                    ("sub", 2) => Ok((&v[0] + &m - &v[1]) % m),
                    ("mul", 2) => Ok((&v[0] * &v[1]) % m),
                    ("div", 2) => Ok(if v[1].is_zero() { U::zero() } else { &v[0] / &v[1] }),
                    ("mod", 2) => Ok(if v[1].is_zero() { U::zero() } else { &v[0] % &v[1] }),
                    ("addmod", 3) => Ok(if v[2].is_zero() { U::zero() } else { (&v[0] + &v[1]) % &v[2] }),
                    ("mulmod", 3) => Ok(if v[2].is_zero() { U::zero() } else { (&v[0] * &v[1]) % &v[2] }),
                    ("iszero", 1) => flag(v[0].is_zero()),
                    ("eq", 2) => flag(v[0] == v[1]),
                    ("lt", 2) => flag(v[0] < v[1]),
                    ("gt", 2) => flag(v[0] > v[1]),
                    ("mload", 1) => {
                        let a = us(&v[0])?;
                        self.load(a)
                    }
                    ("mstore", 2) => {
                        let a = us(&v[0])?;
                        self.store(a, &v[1])?;
                        Ok(U::zero())
                    }
                    ("invalid", 0) => Err(Stop::Revert("invalid".into())),
                    ("revert", 2) => Err(Stop::Revert("revert".into())),
                    ("staticcall", 6) | ("call", 7) => {
                        let v = if v.len() == 7 { vec![v[0].clone(), v[1].clone(), v[3].clone(), v[4].clone(), v[5].clone(), v[6].clone()] } else { v };
                        let (a, n, o, k) = (us(&v[2])?, us(&v[3])?, us(&v[4])?, us(&v[5])?);
                        self.grow((a + n).max(o + k))?;
                        let out = match v[1].to_u32() {
                            Some(6) => ec_add(&self.mem[a..a + n]),
                            Some(7) => ec_mul(&self.mem[a..a + n]),
                            Some(8) => ec_pairing(&self.mem[a..a + n]),
                            // an account without code succeeds and returns nothing
                            Some(x) if x > 10 => Some(vec![]),
                            _ => return bad("precompile"),
                        };
                        match out {
                            Some(b) => {
                                let l = b.len().min(k);
                                self.mem[o..o + l].copy_from_slice(&b[..l]);
                                Ok(U::one())
                            }
                            None => Ok(U::zero()),
                        }
                    }
                    (n, k) => bad(format!("assembly {}/{}", n, k)),
                }
            }
        }
    }
}

// ---------------------------------------------------------------- precompiles
fn q() -> U {
    crate::enc::modulus::<pairing::bn256::Fq>()
}
fn words(b: &[u8], n: usize) -> Vec<U> {
    let mut v = b.to_vec();
    v.resize(32 * n, 0);
    v.chunks(32).map(U::from_bytes_be).collect()
}
fn be32(x: &U) -> Vec<u8> {
    let b = x.to_bytes_be();
    let mut v = vec![0; 32 - b.len()];
    v.extend(b);
    v
}
pub fn g1(w: &[U]) -> Option<G1Affine> {
    if w.iter().any(|x| *x >= q()) {
        return None;
    }
    if w.iter().all(|x| x.is_zero()) {
        return Some(G1Affine::zero());
    }
    let mut e = G1Uncompressed::empty();
    let b: Vec<u8> = w.iter().flat_map(be32).collect();
    e.as_mut().copy_from_slice(&b);
    e.into_affine().ok()
}
pub fn g2(w: &[U]) -> Option<G2Affine> {
    if w.iter().any(|x| *x >= q()) {
        return None;
    }
    if w.iter().all(|x| x.is_zero()) {
        return Some(G2Affine::zero());
    }
    let mut e = G2Uncompressed::empty();
    let b: Vec<u8> = w.iter().flat_map(be32).collect();
    e.as_mut().copy_from_slice(&b);
    let p = e.into_affine().ok()?;
    if p.mul(<Fr as ff::PrimeField>::char()).is_zero() {
        Some(p)
    } else {
        None
    }
}
fn enc1(p: &G1Affine) -> Vec<u8> {
    if p.is_zero() {
        return vec![0; 64];
    }
    p.into_uncompressed().as_ref().to_vec()
}
fn ec_add(b: &[u8]) -> Option<Vec<u8>> {
    let w = words(&b[..b.len().min(128)], 4);
    let (x, y) = (g1(&w[..2])?, g1(&w[2..])?);
    let mut r = x.into_projective();
    r.add_assign(&y.into_projective());
    Some(enc1(&r.into_affine()))
}
fn ec_mul(b: &[u8]) -> Option<Vec<u8>> {
    let w = words(&b[..b.len().min(96)], 3);
    let x = g1(&w[..2])?;
    let s = crate::enc::of_big::<Fr>(&w[2]).0;
    Some(enc1(&x.mul(ff::PrimeField::into_repr(&s)).into_affine()))
}
fn ec_pairing(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() % 192 != 0 {
        return None;
    }
    let mut ps = vec![];
    for c in b.chunks(192) {
        let w = words(c, 6);
        let (x, y) = (g1(&w[..2])?, g2(&w[2..])?);
        if !x.is_zero() && !y.is_zero() {
            ps.push((x.prepare(), y.prepare()));
        }
    }
    let refs: Vec<_> = ps.iter().map(|(x, y)| (x, y)).collect();
    let one = match Bn256::final_exponentiation(&Bn256::miller_loop(refs.iter())) {
        Some(z) => z == <pairing::bn256::Fq12 as ff::Field>::one(),
        None => false,
    };
    Some(be32(&U::from(one as u32)))
}

/// calls a public function of the last contract with word-array arguments; Ok(result word)
pub fn call(p: &Program, fun: &str, args: &[Vec<U>]) -> Res<U> {
    let k = match p.units.iter().rposition(|u| u.funs.iter().any(|g| g.name == fun && g.public)) {
        Some(k) => k,
        None => return bad(format!("no public function {}", fun)),
    };
    let mut vm = Vm { p, mem: vec![0; 0x80], free: 0x80, steps: 0 };
    let f = p.units[k].funs.iter().find(|g| g.name == fun && g.public).unwrap().clone();
    if f.args.len() != args.len() {
        return bad("arguments");
    }
    let mut argv = vec![];
    for (a, (t, _)) in args.iter().zip(f.args.iter()) {
        let t = vm.ty(k, t)?;
        let n = match &t {
            Ty::Arr(e, n) if **e == Ty::Int(256) => *n,
            _ => return bad(format!("parameter type {:?}", t)),
        };
        // the calldata decoder wants exactly the declared words
        if n != a.len() {
            return Err(Stop::Revert("calldata".into()));
        }
        let m = vm.alloc(n)?;
        for (i, x) in a.iter().enumerate() {
            vm.store(m + 32 * i, x)?;
        }
        argv.push((t, U::from(m)));
    }
    vm.invoke(k, fun, argv).map(|v| v.1)
}
