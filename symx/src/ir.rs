//! LLVM textual IR -> compact in-memory program.
use crate::expr::{mask, Pool, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),
    X(E), // symbolic, or any integer wider than 64 bits
    A(Rc<Vec<Val>>),
}

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, TyId),
    Struct(bool, Vec<TyId>),
    Vector(u32, TyId),
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    K(u32),
}
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Asm(String),
}
#[derive(Clone, Debug)]
pub struct CallInfo {
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub argtys: Vec<TyId>,
    pub ret: TyId,
    pub normal: u32, // NONE for call
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(B, u32, u32, Opd, Opd),
    Icmp(P, u32, u32, Opd, Opd),
    Trunc(u32, u32, u32, Opd),
    Zext(u32, u32, u32, Opd),
    Sext(u32, u32, u32, Opd),
    Bitcast(TyId, TyId, Opd),
    Copy(Opd),
    Select(TyId, bool, Opd, Opd, Opd),
    Load(TyId, Opd),
    Store(TyId, Opd, Opd),
    Gep(Opd, i64, Box<[(Opd, u32, i64)]>),
    Call(Box<CallInfo>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Box<[(u128, u32)]>),
    Ret(Option<Opd>),
    Unreachable,
    Alloca(u32),
    ExtractValue(Opd, Box<[u32]>),
    InsertValue(Opd, Opd, Box<[u32]>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(u32, TyId, Opd, Opd, Box<[i32]>),
    AtomicRmw(String, TyId, Opd, Opd),
    CmpXchg(TyId, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub i: I,
    pub dst: u32,
    pub dbg: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub ret: TyId,
    pub nregs: u32,
    pub frame: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub blk_base: u32,
}
#[derive(Clone, Debug)]
pub struct GlobalInfo {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub mutable: bool,
}
pub struct Module {
    pub types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub gmap: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub consts: Vec<Val>,
    pub gconst: Vec<u8>, // object 1
    pub gmut: Vec<u8>,   // object 2
    pub nblocks: u32,
    pub meta: HashMap<u32, String>,
    aliases: HashMap<String, String>,
    named: HashMap<String, TyId>,
}
pub const OBJ_CONST: u64 = 1;
pub const OBJ_MUT: u64 = 2;
pub const OBJ_FUNC: u64 = 3;

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),
    Local(String),
    Global(String),
    Int(String),
    Str(Vec<u8>),
    P(u8),
    Bang(String),
    Hash(String),
    NL,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    peek: Option<(T, usize)>,
}
fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn new(s: &'a [u8], p: usize) -> Lex<'a> {
        Lex { s, p, peek: None }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        let mut v = vec![];
        self.p += 1;
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && isid(self.s[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn lex(&mut self) -> T {
        loop {
            if self.p >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => {
                    self.p += 1;
                    return T::NL;
                }
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'%' => {
                    self.p += 1;
                    return T::Local(self.name());
                }
                b'@' => {
                    self.p += 1;
                    return T::Global(self.name());
                }
                b'#' => {
                    self.p += 1;
                    return T::Hash(self.name());
                }
                b'!' => {
                    self.p += 1;
                    let st = self.p;
                    while self.p < self.s.len() && isid(self.s[self.p]) {
                        self.p += 1;
                    }
                    return T::Bang(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
                }
                b'"' => return T::Str(self.quoted()),
                b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                    self.p += 1;
                    return T::Str(self.quoted());
                }
                b'-' | b'0'..=b'9' => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < self.s.len() && isid(self.s[self.p]) && self.s[self.p] != b'-'
                        || (self.p < self.s.len()
                            && self.s[self.p] == b'+'
                            && self.s[self.p - 1] == b'e')
                    {
                        self.p += 1;
                    }
                    return T::Int(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
                }
                _ if isid(c) => return T::Word(self.name()),
                _ => {
                    self.p += 1;
                    return T::P(c);
                }
            }
        }
    }
    fn next(&mut self) -> T {
        if let Some((t, e)) = self.peek.take() {
            self.p = e;
            return t;
        }
        self.lex()
    }
    fn peek(&mut self) -> T {
        if let Some((t, _)) = &self.peek {
            return t.clone();
        }
        let st = self.p;
        let t = self.lex();
        let e = self.p;
        self.p = st;
        self.peek = Some((t.clone(), e));
        t
    }
    fn is(&mut self, c: u8) -> bool {
        self.peek() == T::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let T::Word(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') | T::P(b'[') | T::P(b'{') | T::P(b'<') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') | T::P(b'>') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn eol(&mut self) {
        self.peek = None;
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
        self.p += 1;
    }
}
fn parse_int(s: &str, w: u32) -> Option<u128> {
    let v = if let Some(n) = s.strip_prefix('-') {
        (n.parse::<u128>().ok()?).wrapping_neg()
    } else {
        s.parse::<u128>().ok()?
    };
    Some(v & mask(w))
}
type R<X> = Result<X, String>;

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    frame: u32,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
}

impl Module {
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.types[t as usize]
    }
    fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, e) => self.align(*e),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, es) => es.iter().map(|e| self.align(*e)).max().unwrap_or(1),
            Ty::Vector(..) => self.size(t).next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Struct(..) => {
                let n = self.nelems(t);
                self.field(t, n).0
            }
            Ty::Vector(n, e) => match self.ty(*e) {
                Ty::Int(w) => ((*n as u64 * *w as u64) + 7) / 8,
                _ => *n as u64 * self.size(*e),
            },
            _ => 0,
        }
    }
    pub fn nelems(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Struct(_, e) => e.len() as u64,
            Ty::Array(n, _) => *n,
            Ty::Vector(n, _) => *n as u64,
            _ => 0,
        }
    }
    /// (offset, type) of element i; for structs i == len gives total size
    pub fn field(&self, t: TyId, i: u64) -> (u64, TyId) {
        match self.ty(t) {
            Ty::Struct(packed, es) => {
                let mut off = 0u64;
                for (j, e) in es.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align(*e) };
                    off = (off + a - 1) / a * a;
                    if j as u64 == i {
                        return (off, *e);
                    }
                    off += self.size(*e);
                }
                let a = self.align(t);
                ((off + a - 1) / a * a, 0)
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (i * self.size(*e), *e),
            _ => panic!("field of scalar"),
        }
    }
    pub fn int_w(&self, t: TyId) -> Option<u32> {
        match self.ty(t) {
            Ty::Int(w) => Some(*w),
            Ty::Ptr => Some(64),
            _ => None,
        }
    }
    /// scalar width and lane count (0 = scalar)
    fn lanes(&self, t: TyId) -> R<(u32, u32)> {
        match self.ty(t) {
            Ty::Vector(n, e) => Ok((self.int_w(*e).ok_or("float vector")?, *n)),
            _ => Ok((self.int_w(t).ok_or("non-integer operand")?, 0)),
        }
    }
    pub fn zero(&self, p: &mut Pool, t: TyId) -> Val {
        match self.ty(t) {
            Ty::Int(w) if *w > 64 => Val::X(p.konst(*w, 0)),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = self.nelems(t);
                let mut v = vec![];
                for i in 0..n {
                    let e = match self.ty(t) {
                        Ty::Struct(_, es) => es[i as usize],
                        Ty::Array(_, e) | Ty::Vector(_, e) => *e,
                        _ => 0,
                    };
                    v.push(self.zero(p, e));
                }
                Val::A(Rc::new(v))
            }
            _ => Val::C(0),
        }
    }
    fn is_type_word(w: &str) -> bool {
        matches!(
            w,
            "void" | "ptr" | "half" | "float" | "double" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "opaque" | "bfloat"
        ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    fn starts_type(&self, l: &mut Lex) -> bool {
        match l.peek() {
            T::Word(w) => Self::is_type_word(&w),
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::Local(n) => self.named.contains_key(&n),
            _ => false,
        }
    }
    fn parse_ty(&mut self, l: &mut Lex) -> R<TyId> {
        let t = match l.next() {
            T::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if l.eatw("addrspace") {
                        l.balanced();
                    }
                    Ty::Ptr
                }
                "half" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "fp128" | "x86_fp80" => Ty::Float(128),
                "label" | "metadata" | "token" | "opaque" | "bfloat" => Ty::Other,
                _ if w.starts_with('i') => {
                    Ty::Int(w[1..].parse().map_err(|_| format!("bad type {}", w))?)
                }
                _ => return Err(format!("bad type {}", w)),
            },
            T::Local(n) => {
                return self.named.get(&n).copied().ok_or(format!("unknown type {}", n))
            }
            T::P(b'[') => {
                let n = match l.next() {
                    T::Int(s) => s.parse::<u64>().map_err(|e| e.to_string())?,
                    t => return Err(format!("array len {:?}", t)),
                };
                l.next(); // x
                let e = self.parse_ty(l)?;
                if !l.eat(b']') {
                    return Err("array ]".into());
                }
                Ty::Array(n, e)
            }
            T::P(b'<') => {
                if l.is(b'{') {
                    l.next();
                    let es = self.parse_tys(l, b'}')?;
                    if !l.eat(b'>') {
                        return Err("packed >".into());
                    }
                    Ty::Struct(true, es)
                } else {
                    let n = match l.next() {
                        T::Int(s) => s.parse::<u32>().map_err(|e| e.to_string())?,
                        t => return Err(format!("vec len {:?}", t)),
                    };
                    l.next();
                    let e = self.parse_ty(l)?;
                    if !l.eat(b'>') {
                        return Err("vec >".into());
                    }
                    Ty::Vector(n, e)
                }
            }
            T::P(b'{') => {
                let es = self.parse_tys(l, b'}')?;
                Ty::Struct(false, es)
            }
            t => return Err(format!("bad type token {:?}", t)),
        };
        Ok(self.intern(t))
    }
    fn parse_tys(&mut self, l: &mut Lex, end: u8) -> R<Vec<TyId>> {
        let mut v = vec![];
        if l.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.parse_ty(l)?);
            if l.eat(end) {
                return Ok(v);
            }
            if !l.eat(b',') {
                return Err("type list".into());
            }
        }
    }
    fn gaddr(&self, n: &str) -> R<u64> {
        let mut n = n;
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        if let Some(g) = self.gmap.get(n) {
            return Ok(self.globals[*g as usize].addr);
        }
        if let Some(f) = self.fmap.get(n) {
            return Ok((OBJ_FUNC << 32) + (*f as u64 + 1) * 16);
        }
        Err(format!("unknown global {}", n))
    }
    fn parse_const(&mut self, p: &mut Pool, l: &mut Lex, t: TyId) -> R<Val> {
        let ty = self.ty(t).clone();
        match l.next() {
            T::Int(s) => match ty {
                Ty::Int(w) => {
                    let v = parse_int(&s, w).ok_or(format!("int {}", s))?;
                    Ok(if w > 64 { Val::X(p.konst(w, v)) } else { Val::C(v as u64) })
                }
                Ty::Float(32) | Ty::Float(64) => {
                    let bits = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                    } else {
                        s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()
                    };
                    Ok(Val::C(if ty == Ty::Float(32) {
                        (f64::from_bits(bits) as f32).to_bits() as u64
                    } else {
                        bits
                    }))
                }
                _ => Err(format!("int const {} for {:?}", s, ty)),
            },
            T::Word(w) => match w.as_str() {
                "true" => Ok(Val::C(1)),
                "false" | "null" => Ok(Val::C(0)),
                "zeroinitializer" | "undef" | "poison" | "none" => Ok(self.zero(p, t)),
                "splat" => {
                    l.eat(b'(');
                    let et = self.parse_ty(l)?;
                    let v = self.parse_const(p, l, et)?;
                    l.eat(b')');
                    let n = self.nelems(t) as usize;
                    Ok(Val::A(Rc::new(vec![v; n])))
                }
                "getelementptr" => {
                    while let T::Word(w) = l.peek() {
                        l.next();
                        if w == "inrange" {
                            l.balanced();
                        }
                    }
                    l.eat(b'(');
                    let et = self.parse_ty(l)?;
                    l.eat(b',');
                    let pt = self.parse_ty(l)?;
                    let base = self.parse_const(p, l, pt)?;
                    let mut idx = vec![];
                    while l.eat(b',') {
                        let it = self.parse_ty(l)?;
                        let v = self.parse_const(p, l, it)?;
                        let w = self.int_w(it).unwrap_or(64);
                        match v {
                            Val::C(c) => {
                                idx.push(crate::expr::sext128(c as u128, w) as i64);
                            }
                            _ => return Err("gep const idx".into()),
                        }
                    }
                    l.eat(b')');
                    let mut off = idx[0].wrapping_mul(self.size(et) as i64);
                    let mut cur = et;
                    for i in &idx[1..] {
                        let (o, e) = self.field(cur, *i as u64);
                        off = off.wrapping_add(o as i64);
                        cur = e;
                    }
                    match base {
                        Val::C(b) => Ok(Val::C(b.wrapping_add(off as u64))),
                        _ => Err("gep base".into()),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" | "zext" => {
                    l.eat(b'(');
                    let ft = self.parse_ty(l)?;
                    let v = self.parse_const(p, l, ft)?;
                    if !l.eatw("to") {
                        return Err("cast to".into());
                    }
                    let tt = self.parse_ty(l)?;
                    l.eat(b')');
                    match v {
                        Val::C(c) => {
                            Ok(Val::C(c & mask(self.int_w(tt).unwrap_or(64).min(64)) as u64))
                        }
                        _ => Err("cast const".into()),
                    }
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                    while let T::Word(_) = l.peek() {
                        l.next();
                    }
                    l.eat(b'(');
                    let at = self.parse_ty(l)?;
                    let a = self.parse_const(p, l, at)?;
                    l.eat(b',');
                    let bt = self.parse_ty(l)?;
                    let b = self.parse_const(p, l, bt)?;
                    l.eat(b')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => {
                            let r = match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "xor" => a ^ b,
                                "and" => a & b,
                                "or" => a | b,
                                "mul" => a.wrapping_mul(b),
                                _ => a << b,
                            };
                            Ok(Val::C(r & mask(self.int_w(at).unwrap_or(64).min(64)) as u64))
                        }
                        _ => Err("const arith".into()),
                    }
                }
                _ => Err(format!("const word {}", w)),
            },
            T::Global(n) => Ok(Val::C(self.gaddr(&n)?)),
            T::Str(b) => Ok(Val::A(Rc::new(b.into_iter().map(|c| Val::C(c as u64)).collect()))),
            T::P(b'[') => self.parse_agg(p, l, &[b']']),
            T::P(b'{') => self.parse_agg(p, l, &[b'}']),
            T::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.parse_agg(p, l, &[b'}'])?;
                    l.eat(b'>');
                    Ok(v)
                } else {
                    self.parse_agg(p, l, &[b'>'])
                }
            }
            t => Err(format!("const {:?}", t)),
        }
    }
    fn parse_agg(&mut self, p: &mut Pool, l: &mut Lex, end: &[u8]) -> R<Val> {
        let mut v = vec![];
        if l.eat(end[0]) {
            return Ok(Val::A(Rc::new(v)));
        }
        loop {
            let t = self.parse_ty(l)?;
            v.push(self.parse_const(p, l, t)?);
            if l.eat(end[0]) {
                return Ok(Val::A(Rc::new(v)));
            }
            if !l.eat(b',') {
                return Err(format!("agg sep {:?}", l.peek()));
            }
        }
    }
    fn opd(&mut self, p: &mut Pool, l: &mut Lex, fx: &mut FnCtx, t: TyId) -> R<Opd> {
        if let T::Local(n) = l.peek() {
            l.next();
            return Ok(Opd::R(fx.reg(&n)));
        }
        let v = self.parse_const(p, l, t)?;
        Ok(self.kopd(v))
    }
    fn kopd(&mut self, v: Val) -> Opd {
        self.consts.push(v);
        Opd::K(self.consts.len() as u32 - 1)
    }
    fn skip_attrs(&self, l: &mut Lex) {
        loop {
            match l.peek() {
                T::Word(w) if !Self::is_type_word(&w) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                            | "getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "add" | "trunc" | "asm"
                            | "xor" | "bitcast" | "none"
                    ) {
                        return;
                    }
                    l.next();
                    if l.is(b'(') {
                        l.balanced();
                    } else if let T::Int(_) = l.peek() {
                        if w == "align" || w == "dereferenceable" || w == "alignstack" || w == "cc" {
                            l.next();
                        }
                    }
                }
                T::Hash(_) => {
                    l.next();
                }
                T::Str(_) => {
                    l.next();
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                _ => return,
            }
        }
    }
    fn typed(&mut self, p: &mut Pool, l: &mut Lex, fx: &mut FnCtx) -> R<(TyId, Opd)> {
        let t = self.parse_ty(l)?;
        let o = self.opd(p, l, fx, t)?;
        Ok((t, o))
    }
    fn label(&mut self, l: &mut Lex, fx: &mut FnCtx) -> R<u32> {
        if !l.eatw("label") {
            return Err("label".into());
        }
        match l.next() {
            T::Local(n) => Ok(fx.blk(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn comma(&self, l: &mut Lex) -> R<()> {
        if l.eat(b',') {
            Ok(())
        } else {
            Err(format!("expected , got {:?}", l.peek()))
        }
    }
    fn inst(&mut self, p: &mut Pool, l: &mut Lex, fx: &mut FnCtx, op: &str) -> R<I> {
        let bop = |s: &str| -> Option<B> {
            Some(match s {
                "add" => B::Add,
                "sub" => B::Sub,
                "mul" => B::Mul,
                "udiv" => B::UDiv,
                "sdiv" => B::SDiv,
                "urem" => B::URem,
                "srem" => B::SRem,
                "shl" => B::Shl,
                "lshr" => B::LShr,
                "ashr" => B::AShr,
                "and" => B::And,
                "or" => B::Or,
                "xor" => B::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bop(op) {
            while let T::Word(w) = l.peek() {
                if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint") {
                    l.next();
                } else {
                    break;
                }
            }
            let (t, a) = self.typed(p, l, fx)?;
            self.comma(l)?;
            let c = self.opd(p, l, fx, t)?;
            let (w, n) = self.lanes(t)?;
            return Ok(I::Bin(b, w, n, a, c));
        }
        match op {
            "icmp" => {
                l.eatw("samesign");
                let pr = match l.next() {
                    T::Word(w) => match w.as_str() {
                        "eq" => P::Eq,
                        "ne" => P::Ne,
                        "ugt" => P::Ugt,
                        "uge" => P::Uge,
                        "ult" => P::Ult,
                        "ule" => P::Ule,
                        "sgt" => P::Sgt,
                        "sge" => P::Sge,
                        "slt" => P::Slt,
                        "sle" => P::Sle,
                        _ => return Err(w),
                    },
                    t => return Err(format!("{:?}", t)),
                };
                let (t, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let c = self.opd(p, l, fx, t)?;
                let (w, n) = self.lanes(t)?;
                Ok(I::Icmp(pr, w, n, a, c))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while let T::Word(w) = l.peek() {
                    if matches!(w.as_str(), "nuw" | "nsw" | "nneg") {
                        l.next();
                    } else {
                        break;
                    }
                }
                let (ft, a) = self.typed(p, l, fx)?;
                if !l.eatw("to") {
                    return Err("to".into());
                }
                let tt = self.parse_ty(l)?;
                if op == "bitcast" {
                    return Ok(I::Bitcast(ft, tt, a));
                }
                let (fw, n) = self.lanes(ft)?;
                let (tw, _) = self.lanes(tt)?;
                Ok(match op {
                    "trunc" => I::Trunc(fw, tw, n, a),
                    "zext" => I::Zext(fw, tw, n, a),
                    "sext" => I::Sext(fw, tw, n, a),
                    _ => {
                        if fw == tw {
                            I::Copy(a)
                        } else if fw > tw {
                            I::Trunc(fw, tw, n, a)
                        } else {
                            I::Zext(fw, tw, n, a)
                        }
                    }
                })
            }
            "freeze" => {
                let (_, a) = self.typed(p, l, fx)?;
                Ok(I::Copy(a))
            }
            "select" => {
                let (ct, c) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (t, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, b) = self.typed(p, l, fx)?;
                let v = matches!(self.ty(ct), Ty::Vector(..));
                Ok(I::Select(t, v, c, a, b))
            }
            "load" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let t = self.parse_ty(l)?;
                self.comma(l)?;
                let (_, a) = self.typed(p, l, fx)?;
                Ok(I::Load(t, a))
            }
            "store" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let (t, v) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, a) = self.typed(p, l, fx)?;
                Ok(I::Store(t, v, a))
            }
            "getelementptr" => {
                while let T::Word(w) = l.peek() {
                    if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") {
                        l.next();
                    } else if w == "inrange" {
                        l.next();
                        l.balanced();
                    } else {
                        break;
                    }
                }
                let et = self.parse_ty(l)?;
                self.comma(l)?;
                let (bt, base) = self.typed(p, l, fx)?;
                if !matches!(self.ty(bt), Ty::Ptr) {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = et;
                let mut first = true;
                while l.eat(b',') {
                    if let T::Bang(_) = l.peek() {
                        break;
                    }
                    let (it, o) = self.typed(p, l, fx)?;
                    let w = self.int_w(it).ok_or("gep idx type")?;
                    let kc = match o {
                        Opd::K(k) => match &self.consts[k as usize] {
                            Val::C(c) => Some(crate::expr::sext128(*c as u128, w) as i64),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        let sz = self.size(et) as i64;
                        match kc {
                            Some(k) => off = off.wrapping_add(k.wrapping_mul(sz)),
                            None => dynv.push((o, w, sz)),
                        }
                    } else {
                        match kc {
                            Some(k) => {
                                let (fo, e) = self.field(cur, k as u64);
                                off = off.wrapping_add(fo as i64);
                                cur = e;
                            }
                            None => {
                                let (_, e) = self.field(cur, 0);
                                dynv.push((o, w, self.size(e) as i64));
                                cur = e;
                            }
                        }
                    }
                }
                Ok(I::Gep(base, off, dynv.into_boxed_slice()))
            }
            "tail" | "musttail" | "notail" => {
                l.next();
                self.call(p, l, fx, false)
            }
            "call" => self.call(p, l, fx, false),
            "invoke" => self.call(p, l, fx, true),
            "br" => {
                if let T::Word(w) = l.peek() {
                    if w == "label" {
                        return Ok(I::Br(self.label(l, fx)?));
                    }
                }
                let (_, c) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let a = self.label(l, fx)?;
                self.comma(l)?;
                let b = self.label(l, fx)?;
                Ok(I::CondBr(c, a, b))
            }
            "switch" => {
                let (t, v) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let d = self.label(l, fx)?;
                let w = self.int_w(t).ok_or("switch ty")?;
                if !l.eat(b'[') {
                    return Err("switch [".into());
                }
                let mut cs = vec![];
                loop {
                    while l.peek() == T::NL {
                        l.next();
                    }
                    if l.eat(b']') {
                        break;
                    }
                    self.parse_ty(l)?;
                    let k = match l.next() {
                        T::Int(s) => parse_int(&s, w).ok_or("switch int")?,
                        T::Word(s) => (s == "true") as u128,
                        t => return Err(format!("switch {:?}", t)),
                    };
                    self.comma(l)?;
                    let b = self.label(l, fx)?;
                    cs.push((k, b));
                }
                Ok(I::Switch(w, v, d, cs.into_boxed_slice()))
            }
            "ret" => {
                if l.eatw("void") {
                    return Ok(I::Ret(None));
                }
                let (_, v) = self.typed(p, l, fx)?;
                Ok(I::Ret(Some(v)))
            }
            "unreachable" => Ok(I::Unreachable),
            "alloca" => {
                let t = self.parse_ty(l)?;
                let mut align = self.align(t) as u32;
                while l.eat(b',') {
                    if l.eatw("align") {
                        if let T::Int(s) = l.next() {
                            align = align.max(s.parse().unwrap());
                        }
                    } else if let T::Bang(_) = l.peek() {
                        break;
                    } else {
                        return Err("dynamic alloca".into());
                    }
                }
                let a = align.max(1);
                fx.frame = (fx.frame + a - 1) / a * a;
                let off = fx.frame;
                fx.frame += self.size(t) as u32 + 8;
                Ok(I::Alloca(off))
            }
            "extractvalue" => {
                let (_, a) = self.typed(p, l, fx)?;
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        T::Int(s) => ix.push(s.parse::<u32>().unwrap()),
                        _ => break,
                    }
                }
                Ok(I::ExtractValue(a, ix.into_boxed_slice()))
            }
            "insertvalue" => {
                let (_, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, v) = self.typed(p, l, fx)?;
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        T::Int(s) => ix.push(s.parse::<u32>().unwrap()),
                        _ => break,
                    }
                }
                Ok(I::InsertValue(a, v, ix.into_boxed_slice()))
            }
            "extractelement" => {
                let (_, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, i) = self.typed(p, l, fx)?;
                Ok(I::ExtractElement(a, i))
            }
            "insertelement" => {
                let (_, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, v) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, i) = self.typed(p, l, fx)?;
                Ok(I::InsertElement(a, v, i))
            }
            "shufflevector" => {
                let (t, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, b) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let mt = self.parse_ty(l)?;
                let m = self.parse_const(p, l, mt)?;
                let mut mv = vec![];
                if let Val::A(v) = m {
                    for x in v.iter() {
                        if let Val::C(c) = x {
                            mv.push(*c as u32 as i32);
                        }
                    }
                }
                let n = self.nelems(t) as u32;
                Ok(I::Shuffle(n, t, a, b, mv.into_boxed_slice()))
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let o = match l.next() {
                    T::Word(w) => w,
                    t => return Err(format!("{:?}", t)),
                };
                let (_, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (t, v) = self.typed(p, l, fx)?;
                Ok(I::AtomicRmw(o, t, a, v))
            }
            "cmpxchg" => {
                l.eatw("weak");
                l.eatw("volatile");
                let (_, a) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (t, c) = self.typed(p, l, fx)?;
                self.comma(l)?;
                let (_, n) = self.typed(p, l, fx)?;
                Ok(I::CmpXchg(t, a, c, n))
            }
            "fence" => Ok(I::Nop),
            _ => Err(format!("opcode {}", op)),
        }
    }
    fn call(&mut self, p: &mut Pool, l: &mut Lex, fx: &mut FnCtx, invoke: bool) -> R<I> {
        self.skip_attrs(l);
        let ret = self.parse_ty(l)?;
        if l.is(b'(') {
            l.balanced(); // function type
        }
        let callee = match l.next() {
            T::Global(n) => {
                let mut n = n;
                while let Some(a) = self.aliases.get(&n) {
                    n = a.clone();
                }
                match self.fmap.get(&n) {
                    Some(f) => Callee::Direct(*f),
                    None => return Err(format!("callee {}", n)),
                }
            }
            T::Local(n) => Callee::Indirect(Opd::R(fx.reg(&n))),
            T::Word(w) if w == "asm" => {
                while let T::Word(_) = l.peek() {
                    l.next();
                }
                let s = match l.next() {
                    T::Str(b) => String::from_utf8_lossy(&b).into_owned(),
                    _ => String::new(),
                };
                l.eat(b',');
                l.next(); // constraints
                Callee::Asm(s)
            }
            T::Word(w) => return Err(format!("callee {}", w)),
            t => return Err(format!("callee {:?}", t)),
        };
        if !l.eat(b'(') {
            return Err("call (".into());
        }
        let mut args = vec![];
        let mut argtys = vec![];
        if !l.eat(b')') {
            loop {
                if let T::Word(w) = l.peek() {
                    if w == "metadata" {
                        // debug/aliasing intrinsics: drop the operand
                        l.next();
                        match l.next() {
                            T::Bang(_) => {
                                if l.is(b'(') || l.is(b'{') {
                                    l.balanced();
                                }
                            }
                            _ => {}
                        }
                        if l.eat(b')') {
                            break;
                        }
                        self.comma(l)?;
                        continue;
                    }
                }
                let t = self.parse_ty(l)?;
                self.skip_attrs(l);
                let o = self.opd(p, l, fx, t)?;
                args.push(o);
                argtys.push(t);
                if l.eat(b')') {
                    break;
                }
                self.comma(l)?;
            }
        }
        let mut normal = NONE;
        if invoke {
            // skip to "to label %x unwind label %y"
            loop {
                match l.next() {
                    T::Word(w) if w == "to" => {
                        normal = self.label(l, fx)?;
                        break;
                    }
                    T::P(b'[') | T::P(b'(') => return Err("invoke bundle".into()),
                    T::Eof => return Err("invoke eof".into()),
                    _ => {}
                }
            }
        }
        Ok(I::Call(Box::new(CallInfo { callee, args, argtys, ret, normal })))
    }
    fn parse_body(&mut self, p: &mut Pool, src: &[u8], pos: usize, fi: u32) -> R<()> {
        let mut l = Lex::new(src, pos);
        let mut fx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), frame: 0 };
        // header: params
        l.next(); // define
        loop {
            if self.starts_type(&mut l) {
                break;
            }
            match l.next() {
                T::Word(_) => {
                    if l.is(b'(') {
                        l.balanced();
                    }
                }
                T::Int(_) => {}
                t => return Err(format!("define {:?}", t)),
            }
        }
        let ret = self.parse_ty(&mut l)?;
        l.next(); // name
        l.eat(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !l.eat(b')') {
            loop {
                if l.eat(b'.') {
                    l.eol();
                    break;
                }
                if let T::Word(w) = l.peek() {
                    if w == "..." {
                        l.next();
                        l.eat(b')');
                        break;
                    }
                }
                self.parse_ty(&mut l)?;
                self.skip_attrs(&mut l);
                match l.next() {
                    T::Local(n) => {
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(fx.reg(&n))
                    }
                    t => return Err(format!("param {:?}", t)),
                }
                if l.eat(b')') {
                    break;
                }
                self.comma(&mut l)?;
            }
        }
        l.eol();
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        loop {
            let st = l.p;
            match l.next() {
                T::NL => continue,
                T::P(b'}') | T::Eof => break,
                T::Hash(_) => {
                    l.eol();
                    continue;
                }
                T::Word(w) | T::Int(w) if l.is(b':') => {
                    l.next();
                    let b = fx.blk(&w);
                    blocks.insert(b, Block::default());
                    cur = Some(b);
                    l.eol();
                    continue;
                }
                T::Str(w) if l.is(b':') => {
                    let b = fx.blk(&String::from_utf8_lossy(&w));
                    blocks.insert(b, Block::default());
                    cur = Some(b);
                    l.eol();
                    continue;
                }
                first => {
                    let cb = match cur {
                        Some(b) => b,
                        None => {
                            let b = fx.blk(&unnamed.to_string());
                            blocks.insert(b, Block::default());
                            cur = Some(b);
                            b
                        }
                    };
                    let (dst, op) = match first {
                        T::Local(n) => {
                            l.eat(b'=');
                            let d = fx.reg(&n);
                            match l.next() {
                                T::Word(o) => (d, o),
                                t => return Err(format!("op {:?}", t)),
                            }
                        }
                        T::Word(o) => (NONE, o),
                        t => return Err(format!("stmt {:?}", t)),
                    };
                    if matches!(op.as_str(), "cleanup" | "catch" | "filter") {
                        l.eol();
                        continue;
                    }
                    if op == "phi" {
                        let t = self.parse_ty(&mut l)?;
                        let mut inc = vec![];
                        loop {
                            if !l.eat(b'[') {
                                break;
                            }
                            let v = self.opd(p, &mut l, &mut fx, t)?;
                            self.comma(&mut l)?;
                            let b = match l.next() {
                                T::Local(n) => fx.blk(&n),
                                t => return Err(format!("phi {:?}", t)),
                            };
                            l.eat(b']');
                            inc.push((b, v));
                            if !l.eat(b',') {
                                break;
                            }
                            if !l.is(b'[') {
                                break;
                            }
                        }
                        blocks.get_mut(&cb).unwrap().phis.push((dst, inc));
                        l.eol();
                        continue;
                    }
                    let r = if op == "landingpad" || op == "resume" {
                        Err(op.clone())
                    } else {
                        self.inst(p, &mut l, &mut fx, &op)
                    };
                    let i = match r {
                        Ok(i) => i,
                        Err(e) => {
                            let mut en = st;
                            while en < src.len() && src[en] != b'\n' {
                                en += 1;
                            }
                            let txt = String::from_utf8_lossy(&src[st..en]).trim().to_string();
                            I::Unsupported(format!("{} :: {}", e, txt))
                        }
                    };
                    // trailing metadata: find !dbg
                    let mut dbg = 0;
                    l.peek = None;
                    let s0 = l.p;
                    let mut e0 = s0;
                    while e0 < src.len() && src[e0] != b'\n' {
                        e0 += 1;
                    }
                    if let Some(ix) = find(&src[s0..e0], b"!dbg !") {
                        let mut q = s0 + ix + 6;
                        while q < e0 && src[q].is_ascii_digit() {
                            dbg = dbg * 10 + (src[q] - b'0') as u32;
                            q += 1;
                        }
                    }
                    l.p = e0 + 1;
                    // keep an unparsed switch from spilling into the next lines
                    if let I::Unsupported(_) = &i {
                        if op == "switch" {
                            while l.p < src.len() && !src[l.p..].starts_with(b"  ]") {
                                l.eol();
                            }
                            l.eol();
                        }
                    }
                    blocks.get_mut(&cb).unwrap().insts.push(Inst { i, dst, dbg });
                }
            }
        }
        let nb = fx.blocks.len() as u32;
        let mut bv = vec![Block::default(); nb as usize];
        for (k, b) in blocks {
            bv[k as usize] = b;
        }
        let f = &mut self.funcs[fi as usize];
        f.params = params;
        f.ret = ret;
        f.nregs = fx.regs.len() as u32;
        f.frame = fx.frame;
        f.blocks = bv;
        f.defined = true;
        f.blk_base = self.nblocks;
        self.nblocks += nb;
        Ok(())
    }
    fn put(&mut self, addr: u64, t: TyId, v: &Val) {
        match v {
            Val::C(c) => {
                let sz = self.size(t) as usize;
                let off = (addr & 0xffff_ffff) as usize;
                let buf = if addr >> 32 == OBJ_CONST { &mut self.gconst } else { &mut self.gmut };
                let b = c.to_le_bytes();
                for i in 0..sz.min(8) {
                    buf[off + i] = b[i];
                }
            }
            Val::X(_) => panic!("wide constant in global must be handled by caller"),
            Val::A(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, e) = self.field(t, i as u64);
                    self.put(addr + o, e, x);
                }
            }
        }
    }
    fn put_wide(&mut self, p: &Pool, addr: u64, t: TyId, v: &Val) {
        match v {
            Val::X(e) => {
                let k = p.is_const(*e).unwrap();
                let sz = self.size(t) as usize;
                let off = (addr & 0xffff_ffff) as usize;
                let buf = if addr >> 32 == OBJ_CONST { &mut self.gconst } else { &mut self.gmut };
                let b = k.to_le_bytes();
                buf[off..off + sz.min(16)].copy_from_slice(&b[..sz.min(16)]);
            }
            Val::A(vs) => {
                let vs = vs.clone();
                for (i, x) in vs.iter().enumerate() {
                    let (o, e) = self.field(t, i as u64);
                    self.put_wide(p, addr + o, e, x);
                }
            }
            Val::C(_) => self.put(addr, t, v),
        }
    }
    pub fn load(p: &mut Pool, src: &[u8]) -> R<Module> {
        let mut m = Module {
            types: vec![],
            tymap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            gmap: HashMap::new(),
            globals: vec![],
            consts: vec![],
            gconst: vec![0; 64],
            gmut: vec![0; 64],
            nblocks: 0,
            meta: HashMap::new(),
            aliases: HashMap::new(),
            named: HashMap::new(),
        };
        m.intern(Ty::Void);
        // index lines
        let mut pos = 0;
        let mut ginit: Vec<(u32, TyId, usize)> = vec![];
        let mut bodies: Vec<(usize, u32)> = vec![];
        let mut infn = false;
        let mut lines = vec![];
        while pos < src.len() {
            let mut e = pos;
            while e < src.len() && src[e] != b'\n' {
                e += 1;
            }
            lines.push((pos, e));
            pos = e + 1;
        }
        // named types first
        for &(a, b) in &lines {
            let s = &src[a..b];
            if s.starts_with(b"%") && find(s, b" = type ").is_some() {
                let mut l = Lex::new(src, a);
                if let T::Local(n) = l.next() {
                    l.eat(b'=');
                    l.next();
                    let t = m.parse_ty(&mut l)?;
                    m.named.insert(n, t);
                }
            }
        }
        for &(a, b) in &lines {
            let s = &src[a..b];
            if infn {
                if s == b"}" {
                    infn = false;
                }
                continue;
            }
            if s.starts_with(b"define ") || s.starts_with(b"declare ") {
                let at = s.iter().position(|&c| c == b'@').unwrap();
                let mut l = Lex::new(src, a + at);
                let name = match l.next() {
                    T::Global(n) => n,
                    _ => return Err("fn name".into()),
                };
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(Func {
                    name,
                    params: vec![],
                    ret: 0,
                    nregs: 0,
                    frame: 0,
                    blocks: vec![],
                    defined: false,
                    blk_base: 0,
                });
                if s.starts_with(b"define ") {
                    bodies.push((a, id));
                    infn = true;
                }
            } else if s.starts_with(b"@") {
                let mut l = Lex::new(src, a);
                let name = match l.next() {
                    T::Global(n) => n,
                    _ => return Err("global name".into()),
                };
                l.eat(b'=');
                let mut mutable = None;
                let mut external = false;
                loop {
                    match l.next() {
                        T::Word(w) => match w.as_str() {
                            "global" => {
                                mutable = Some(true);
                                break;
                            }
                            "constant" => {
                                mutable = Some(false);
                                break;
                            }
                            "alias" => break,
                            "external" | "extern_weak" => external = true,
                            _ => {
                                if l.is(b'(') {
                                    l.balanced();
                                }
                            }
                        },
                        t => return Err(format!("global {} {:?}", name, t)),
                    }
                }
                match mutable {
                    None => {
                        m.parse_ty(&mut l)?;
                        l.eat(b',');
                        l.next();
                        if let T::Global(n) = l.next() {
                            m.aliases.insert(name, n);
                        }
                    }
                    Some(mu) => {
                        let t = m.parse_ty(&mut l)?;
                        let size = m.size(t);
                        let buf = if mu { &mut m.gmut } else { &mut m.gconst };
                        // leave a gap between globals so that ranges are distinct
                        let off = (buf.len() + 31) / 16 * 16;
                        buf.resize(off + size as usize, 0);
                        let addr = ((if mu { OBJ_MUT } else { OBJ_CONST }) << 32) + off as u64;
                        let gi = m.globals.len() as u32;
                        m.gmap.insert(name.clone(), gi);
                        m.globals.push(GlobalInfo { name, addr, size, mutable: mu });
                        if !external {
                            ginit.push((gi, t, l.p));
                        }
                    }
                }
            } else if s.starts_with(b"!") {
                let mut i = 1;
                let mut id = 0u32;
                let mut ok = false;
                while i < s.len() && s[i].is_ascii_digit() {
                    id = id * 10 + (s[i] - b'0') as u32;
                    i += 1;
                    ok = true;
                }
                if ok
                    && (find(s, b"!DILocation(").is_some()
                        || find(s, b"!DISubprogram(").is_some()
                        || find(s, b"!DILexicalBlock").is_some()
                        || find(s, b"!DIFile(").is_some())
                {
                    m.meta.insert(id, String::from_utf8_lossy(&s[i..]).into_owned());
                }
            }
        }
        m.gconst.extend_from_slice(&[0; 64]);
        m.gmut.extend_from_slice(&[0; 64]);
        for (gi, t, p0) in ginit {
            let mut l = Lex::new(src, p0);
            let addr = m.globals[gi as usize].addr;
            match m.parse_const(p, &mut l, t) {
                Ok(v) => m.put_wide(p, addr, t, &v),
                Err(e) => return Err(format!("init of {}: {}", m.globals[gi as usize].name, e)),
            }
        }
        for (a, id) in bodies {
            let n = m.funcs[id as usize].name.clone();
            m.parse_body(p, src, a, id).map_err(|e| format!("{}: {}", n, e))?;
        }
        Ok(m)
    }
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn meta_field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("{}: ", key);
    let mut from = 0;
    while let Some(i) = s[from..].find(&k) {
        let p = from + i;
        let prev = s[..p].chars().last().unwrap_or(' ');
        if prev == '(' || prev == ' ' {
            let r = &s[p + k.len()..];
            if let Some(q) = r.strip_prefix('"') {
                return q.split('"').next();
            }
            return Some(r.split(|c| c == ',' || c == ')').next().unwrap_or(""));
        }
        from = p + k.len();
    }
    None
}
impl Module {
    fn mref(s: &str) -> Option<u32> {
        s.strip_prefix('!')?.parse().ok()
    }
    /// (file, line, function) of a debug location, innermost inlined frame.
    pub fn locate(&self, dbg: u32) -> Option<(String, u32, String)> {
        let d = self.meta.get(&dbg)?;
        let line: u32 = meta_field(d, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut scope = Self::mref(meta_field(d, "scope")?)?;
        let mut file = None;
        for _ in 0..64 {
            let s = self.meta.get(&scope)?;
            if file.is_none() {
                if let Some(f) = meta_field(s, "file").and_then(Self::mref) {
                    if let Some(fd) = self.meta.get(&f) {
                        let n = meta_field(fd, "filename").unwrap_or("");
                        let dir = meta_field(fd, "directory").unwrap_or("");
                        file = Some(if n.starts_with('/') { n.to_string() } else { format!("{}/{}", dir, n) });
                    }
                }
            }
            if s.contains("!DISubprogram(") {
                return Some((
                    file.unwrap_or_default(),
                    line,
                    meta_field(s, "linkageName").or(meta_field(s, "name")).unwrap_or("").to_string(),
                ));
            }
            scope = Self::mref(meta_field(s, "scope")?)?;
        }
        None
    }
    /// The call chain of a debug location through inlining.
    pub fn chain(&self, dbg: u32) -> Vec<u32> {
        let mut v = vec![dbg];
        let mut cur = dbg;
        for _ in 0..64 {
            let n = self.meta.get(&cur).and_then(|d| meta_field(d, "inlinedAt")).and_then(Self::mref);
            match n {
                Some(x) => {
                    v.push(x);
                    cur = x;
                }
                None => break,
            }
        }
        v
    }
}
