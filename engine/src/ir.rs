//! Parser for the textual LLVM IR that `opt -S` prints.
use crate::expr::*;
use crate::fx::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Other(String), Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>), Struct(Rc<[Ty]>, bool), Label, Meta }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => { let b = ((*n + 7) / 8) as u64; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => { let bits = *n as u64 * t.bits() as u64; let b = (bits + 7) / 8; b.next_power_of_two() }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => { let mut o = 0; let mut al = 1; for t in f.iter() { let a = if *p { 1 } else { t.align() }; al = al.max(a); o = (o + a - 1) / a * a + t.size(); } (o + al - 1) / al * al }
            _ => 0,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 { match self { Ty::Int(n) => ((*n + 7) / 8) as u64, Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8, _ => self.size() } }
    pub fn bits(&self) -> u32 { match self { Ty::Int(n) => *n, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => n * t.bits(), _ => 0 } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match (*n + 7) / 8 { 0 | 1 => 1, 2 => 2, 3 | 4 => 4, 5..=8 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => { let mut o = 0; for (k, t) in f.iter().enumerate() { let a = if *p { 1 } else { t.align() }; o = (o + a - 1) / a * a; if k == i { return o; } o += t.size(); } o }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn field(&self, i: usize) -> Ty { match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("field of {:?}", self) } }
    pub fn nfields(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
}

/// byte of memory: expression id, or UNDEF
pub const UNDEF: Id = u32::MAX;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    E(Id),
    A(Rc<[V]>),
    /// undefined or poison
    U,
    /// integer some of whose bytes are undefined (least significant first)
    B(Rc<[Id]>),
}

#[derive(Clone, Debug)]
pub enum Op { Reg(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { ZExt, SExt, Trunc, PtrToInt, IntToPtr, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, Other }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(Rc<str>), Ind(Op), Asm(Rc<str>) }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bop, Ty, Op, Op, u8),
    Icmp(Pred, Ty, Op, Op),
    Fcmp(Rc<str>, Ty, Op, Op),
    FNeg(Ty, Op),
    FBin(Rc<str>, Ty, Op, Op),
    Cast(CastK, Ty, Op, Ty),
    Gep(Op, i64, Vec<(u64, Ty, Op)>, bool),
    /// the last field: 0 plain, 1 relaxed, 2 acquire or release, 3 sequentially consistent
    Load(Ty, Op, u64, u8),
    Store(Ty, Op, Op, u64, u8),
    Alloca(u64, u64, Option<Op>),
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, inv: Option<(u32, u32)> },
    Phi(Ty, Vec<(Op, u32)>),
    Select(Ty, Op, Op, Op, Ty),
    ExtractValue(Op, Vec<u32>),
    InsertValue(Ty, Op, Op, Vec<u32>),
    ExtractElement(Op, Op),
    InsertElement(Ty, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i64>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    LandingPad(bool),
    Resume(Op),
    Freeze(Ty, Op),
    Fence,
    Rmw(Rc<str>, Ty, Op, Op, u8),
    CmpXchg(Ty, Op, Op, Op, u8),
    Unsupported(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct Inst { pub dst: Option<u32>, pub ins: Ins }

pub struct Block { pub ins: Vec<Inst>, pub name: String, pub preds: u32 }
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub attr: Option<u32>,
    /// live-in registers per block (including nothing for phis, which read on the edge)
    pub live: Vec<Rc<[u32]>>,
    pub features: Rc<str>,
    pub src: String,
}
pub struct Global { pub name: Rc<str>, pub ty: Ty, pub init: Option<V>, pub constant: bool, pub align: u64 }

pub struct Module {
    pub funcs: Vec<Func>,
    pub fn_ids: HashMap<Rc<str>, u32>,
    pub globals: Vec<Global>,
    pub gl_ids: HashMap<Rc<str>, u32>,
    pub ext_ids: HashMap<Rc<str>, u32>,
    pub ext_names: Vec<Rc<str>>,
}

pub const FN_BASE: u64 = 0x0100_0000;   // object numbers (address >> 32)
pub const EXT_BASE: u64 = 0x0180_0000;
pub const GL_BASE: u64 = 0x0200_0000;
pub fn fn_addr(i: u32) -> u64 { (FN_BASE + i as u64) << 32 | 16 }
pub fn ext_addr(i: u32) -> u64 { (EXT_BASE + i as u64) << 32 | 16 }
pub fn gl_addr(i: u32) -> u64 { (GL_BASE + i as u64) << 32 | 0x1000 }

#[derive(Clone, PartialEq, Debug)]
enum T { Id(String), Loc(String), Glob(String), Meta(String), Attr(u32), Num(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), Lab(String), NL, Eof }

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        let mut v = vec![];
        *i += 1;
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' { v.push(b'\\'); *i += 2; continue; }
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            } else { v.push(b[*i]); *i += 1; }
        }
        *i += 1;
        v
    };
    let mut line_start = true;
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => { out.push(T::NL); i += 1; line_start = true; continue; }
            b' ' | b'\t' | b'\r' => { i += 1; continue; }
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
            b'%' | b'@' => {
                i += 1;
                let n = if b[i] == b'"' { String::from_utf8_lossy(&quoted(&mut i)).into_owned() } else { let st = i; while i < b.len() && idc(b[i]) { i += 1; } s[st..i].to_string() };
                out.push(if c == b'%' { T::Loc(n) } else { T::Glob(n) });
            }
            b'!' => { let st = i; i += 1; while i < b.len() && (idc(b[i])) { i += 1; } out.push(T::Meta(s[st..i].to_string())); }
            b'#' => { i += 1; let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; } if st == i { while i < b.len() && b[i] != b'\n' { i += 1; } } else { out.push(T::Attr(s[st..i].parse().unwrap())); } }
            b'"' => {
                let v = quoted(&mut i);
                if line_start && i < b.len() && b[i] == b':' { i += 1; out.push(T::Lab(String::from_utf8_lossy(&v).into_owned())); } else { out.push(T::Str(v)); }
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 1; let v = quoted(&mut i); out.push(T::CStr(v)); }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = i; i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' || (b[i] == b'-' && b[i - 1] == b'e') || b[i] == b'_' || b[i] == b'$' || b[i] == b'-') { i += 1; }
                if line_start && i < b.len() && b[i] == b':' { out.push(T::Lab(s[st..i].to_string())); i += 1; } else { out.push(T::Num(s[st..i].to_string())); }
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i; while i < b.len() && idc(b[i]) { i += 1; }
                if line_start && i < b.len() && b[i] == b':' { out.push(T::Lab(s[st..i].to_string())); i += 1; } else { out.push(T::Id(s[st..i].to_string())); }
            }
            _ => { out.push(T::P(c as char)); i += 1; }
        }
        line_start = false;
    }
    out.push(T::NL);
    out.push(T::Eof);
    out
}

pub struct Parser<'a> { t: Vec<T>, p: usize, ar: &'a mut Arena, m: Module, named: HashMap<String, Ty>, attrs: HashMap<u32, String> }

struct FnCtx { regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nblocks: u32 }
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn block(&mut self, n: &str) -> u32 { let k = self.nblocks; let e = self.blocks.entry(n.to_string()).or_insert(k); if *e == k { self.nblocks += 1; } *e }
}

fn is_ty_kw(s: &str) -> bool { matches!(s, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())) }

pub fn parse(src: &str, ar: &mut Arena) -> Module {
    let t = lex(src);
    let m = Module { funcs: vec![], fn_ids: HashMap::default(), globals: vec![], gl_ids: HashMap::default(), ext_ids: HashMap::default(), ext_names: vec![] };
    let mut p = Parser { t, p: 0, ar, m, named: HashMap::default(), attrs: HashMap::default() };
    p.prepass();
    p.module();
    let Parser { mut m, attrs, .. } = p;
    for f in m.funcs.iter_mut() {
        if let Some(a) = f.attr { if let Some(s) = attrs.get(&a) { f.features = Rc::from(s.as_str()); } }
        liveness(f);
    }
    m
}

impl<'a> Parser<'a> {
    fn peek(&self) -> &T { &self.t[self.p] }
    fn next(&mut self) -> T { let t = self.t[self.p].clone(); self.p += 1; t }
    fn is_p(&self, c: char) -> bool { *self.peek() == T::P(c) }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), T::Id(x) if x == s) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.p += 1; true } else { false } }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.p += 1; true } else { false } }
    fn expect_p(&mut self, c: char) { if !self.eat_p(c) { let ctx: Vec<_> = self.t[self.p.saturating_sub(12)..self.p + 4].to_vec(); panic!("expected {:?} at {:?}", c, ctx) } }
    fn skip_line(&mut self) { while *self.peek() != T::NL && *self.peek() != T::Eof { self.p += 1; } if *self.peek() == T::NL { self.p += 1; } }
    fn skip_parens(&mut self) { if self.eat_p('(') { let mut d = 1; while d > 0 { match self.next() { T::P('(') => d += 1, T::P(')') => d -= 1, T::Eof => panic!("eof"), _ => {} } } } }

    fn prepass(&mut self) {
        // names of globals, functions and external functions
        let mut i = 0;
        let mut depth = 0i32;
        while i < self.t.len() {
            match &self.t[i] {
                T::P('{') => depth += 1,
                T::P('}') => depth -= 1,
                T::Glob(n) if depth == 0 && i > 0 && self.t[i - 1] == T::NL && self.t[i + 1] == T::P('=') => {
                    let n: Rc<str> = Rc::from(n.as_str());
                    let k = self.m.gl_ids.len() as u32;
                    self.m.gl_ids.insert(n, k);
                }
                T::Id(d) if depth == 0 && (d == "define" || d == "declare") && self.t[i - 1] == T::NL => {
                    let def = d == "define";
                    let mut j = i;
                    let n = loop { if let T::Glob(n) = &self.t[j] { break n.clone(); } j += 1; };
                    let n: Rc<str> = Rc::from(n.as_str());
                    if def { let k = self.m.fn_ids.len() as u32; self.m.fn_ids.insert(n, k); }
                    else if !self.m.ext_ids.contains_key(&n) { let k = self.m.ext_ids.len() as u32; self.m.ext_ids.insert(n.clone(), k); self.m.ext_names.push(n); }
                    i = j;
                    // braces in attributes or types before the body do not occur
                }
                _ => {}
            }
            i += 1;
        }
    }
    fn module(&mut self) {
        // type definitions may refer to later ones
        for _ in 0..32 {
            let before = format!("{:?}", self.named).len();
            let mut i = 0; let mut start = true;
            while i + 2 < self.t.len() {
                if start { if let (T::Loc(n), T::P('='), T::Id(k)) = (self.t[i].clone(), self.t[i + 1].clone(), self.t[i + 2].clone()) { if k == "type" {
                    self.p = i + 3;
                    if !self.is_id("opaque") { let t = self.ty(); self.named.insert(n, t); }
                } } }
                start = self.t[i] == T::NL;
                i += 1;
            }
            self.p = 0;
            if format!("{:?}", self.named).len() == before { break; }
        }
        loop {
            match self.peek().clone() {
                T::Eof => break,
                T::NL => { self.p += 1; }
                T::Id(s) if s == "define" => { self.p += 1; self.define(); }
                T::Id(s) if s == "attributes" => {
                    self.p += 1;
                    let n = if let T::Attr(n) = self.next() { n } else { panic!() };
                    let mut feats = String::new();
                    while *self.peek() != T::NL {
                        if let T::Str(k) = self.next() { if k == b"target-features" { self.expect_p('='); if let T::Str(v) = self.next() { feats = String::from_utf8(v).unwrap(); } } }
                    }
                    self.attrs.insert(n, feats);
                }
                T::Loc(n) => {
                    self.p += 1;
                    if self.eat_p('=') && self.eat_id("type") && !self.is_id("opaque") { let t = self.ty(); self.named.insert(n, t); }
                    self.skip_line();
                }
                T::Glob(n) => { self.p += 1; self.global(n); }
                _ => self.skip_line(),
            }
        }
    }
    fn global(&mut self, n: String) {
        self.expect_p('=');
        let mut constant = false; let mut external = false;
        loop {
            match self.peek().clone() {
                T::Id(s) if s == "constant" || s == "global" => { constant = s == "constant"; self.p += 1; break; }
                T::Id(s) if s == "alias" => { panic!("alias {}", n); }
                T::Id(s) => { if s == "external" { external = true; } self.p += 1; if self.is_p('(') { self.skip_parens(); } }
                x => panic!("global {} {:?}", n, x),
            }
        }
        let ty = self.ty();
        let mut fc = FnCtx { regs: HashMap::default(), blocks: HashMap::default(), nblocks: 0 };
        let init = if external || *self.peek() == T::NL || self.is_p(',') { None } else { match self.operand(&ty, &mut fc) { Op::K(v) => Some(v), _ => panic!() } };
        let mut align = ty.align();
        while *self.peek() != T::NL { if self.eat_id("align") { if let T::Num(a) = self.next() { align = a.parse().unwrap(); } } else { self.p += 1; } }
        self.m.globals.push(Global { name: Rc::from(n.as_str()), ty, init, constant, align });
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            T::Id(s) => match s.as_str() {
                "void" => Ty::Void, "ptr" => { if self.eat_id("addrspace") { self.skip_parens(); } Ty::Ptr }
                "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" => Ty::Meta,
                s if is_ty_kw(s) && s.starts_with('i') => Ty::Int(s[1..].parse().unwrap()),
                s => Ty::Other(s.to_string()),
            },
            T::P('[') => { let n = if let T::Num(n) = self.next() { n.parse().unwrap() } else { panic!() }; assert!(self.eat_id("x")); let t = self.ty(); self.expect_p(']'); Ty::Arr(n, Rc::new(t)) }
            T::P('<') => {
                if self.eat_p('{') { let f = self.fields(); self.expect_p('>'); return Ty::Struct(f.into(), true); }
                let n = if let T::Num(n) = self.next() { n.parse().unwrap() } else { panic!("vec") }; assert!(self.eat_id("x")); let t = self.ty(); self.expect_p('>'); Ty::Vec(n, Rc::new(t))
            }
            T::P('{') => { let f = self.fields(); Ty::Struct(f.into(), false) }
            T::Loc(n) => self.named.get(&n).cloned().unwrap_or(Ty::Other(n)),
            x => panic!("type {:?} near {:?}", x, &self.t[self.p.saturating_sub(10)..self.p + 5]),
        }
    }
    fn fields(&mut self) -> Vec<Ty> { let mut v = vec![]; if self.eat_p('}') { return v; } loop { v.push(self.ty()); if self.eat_p('}') { return v; } self.expect_p(','); } }
    fn at_ty(&self) -> bool { match self.peek() { T::Id(s) => is_ty_kw(s), T::P('[') | T::P('<') | T::P('{') => true, T::Loc(n) => self.named.contains_key(n), _ => false } }
    /// skip attributes until a type
    fn skip_attrs_to_ty(&mut self) {
        while !self.at_ty() {
            match self.next() { T::Id(_) | T::Attr(_) | T::Num(_) | T::Str(_) => {} x => panic!("attr {:?} near {:?}", x, &self.t[self.p.saturating_sub(10)..self.p + 5]) }
            if self.is_p('(') { self.skip_parens(); }
            if self.is_p('=') { self.p += 2; }
        }
    }
    fn skip_value_attrs(&mut self) {
        loop {
            match self.peek().clone() {
                T::Id(s) if s.starts_with("f0x") || matches!(s.as_str(), "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "asm" | "splat" | "sub" | "add" | "trunc" | "none" | "blockaddress" | "xor") => return,
                T::Id(s) => { self.p += 1; if s == "align" { if let T::Num(_) = self.peek() { self.p += 1; } } if self.is_p('(') { self.skip_parens(); } }
                T::Str(_) => { self.p += 1; if self.eat_p('=') { self.p += 1; } }
                _ => return,
            }
        }
    }
    fn k(v: V) -> Op { Op::K(v) }
    fn zero(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) => V::E(self.ar.c(0, *w)),
            Ty::Ptr | Ty::F64 => V::E(self.ar.c(0, 64)),
            Ty::F32 => V::E(self.ar.c(0, 32)),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => { let n = ty.nfields(); if let Ty::Struct(f, _) = ty { let f = f.clone(); let v: Vec<V> = f.iter().map(|t| self.zero(t)).collect(); V::A(v.into()) } else { let z = self.zero(&ty.field(0)); V::A(vec![z; n].into()) } }
            _ => V::U,
        }
    }
    fn undef(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => { let v: Vec<V> = (0..ty.nfields()).map(|i| self.undef(&ty.field(i))).collect(); V::A(v.into()) }
            _ => V::U,
        }
    }
    fn const_of(&mut self, ty: &Ty, fc: &mut FnCtx) -> V { match self.operand(ty, fc) { Op::K(v) => v, _ => panic!("const expected") } }
    fn ty_const(&mut self, fc: &mut FnCtx) -> (Ty, V) { let t = self.ty(); let v = self.const_of(&t, fc); (t, v) }
    fn operand(&mut self, ty: &Ty, fc: &mut FnCtx) -> Op {
        match self.next() {
            T::Loc(n) => Op::Reg(fc.reg(&n)),
            T::Glob(n) => {
                let a = if let Some(i) = self.m.fn_ids.get(n.as_str()) { fn_addr(*i) } else if let Some(i) = self.m.gl_ids.get(n.as_str()) { gl_addr(*i) } else if let Some(i) = self.m.ext_ids.get(n.as_str()) { ext_addr(*i) } else { panic!("unknown global {}", n) };
                Self::k(V::E(self.ar.c(a as u128, 64)))
            }
            T::Num(s) => {
                let v = match ty {
                    Ty::Int(w) => { let x: u128 = if let Some(r) = s.strip_prefix('-') { r.parse::<u128>().unwrap().wrapping_neg() } else { s.parse().unwrap() }; self.ar.c(x, *w) }
                    Ty::F64 | Ty::F32 if s[1..].ends_with("inf") || s.contains("nan") => {
                        let neg = s.starts_with('-');
                        let (w, e, m) = if *ty == Ty::F64 { (64, 0x7ff0_0000_0000_0000u64, 51) } else { (32, 0x7f80_0000, 22) };
                        let mut x = e;
                        if s.contains("nan") {
                            let mut pay = 0;
                            if self.eat_p('(') { if let T::Num(h) = self.next() { pay = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap(); } self.expect_p(')'); }
                            x |= pay; if !s.contains("snan") { x |= 1 << m; }
                        }
                        if neg { x |= 1 << (w - 1); }
                        self.ar.c(x as u128, w)
                    }
                    Ty::F64 | Ty::F32 => {
                        let d: f64 = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).expect("fp const")) } else { s.parse().unwrap() };
                        if *ty == Ty::F64 { self.ar.c(d.to_bits() as u128, 64) } else { self.ar.c((d as f32).to_bits() as u128, 32) }
                    }
                    _ => panic!("number {} of type {:?}", s, ty),
                };
                Self::k(V::E(v))
            }
            T::CStr(b) => { let v: Vec<V> = b.iter().map(|c| V::E(*c as Id)).collect(); Self::k(V::A(v.into())) }
            T::Id(s) => match s.as_str() {
                h if h.starts_with("f0x") && matches!(ty, Ty::F64 | Ty::F32) => { let x = u128::from_str_radix(&h[3..], 16).unwrap(); let e = self.ar.c(x, ty.bits()); Self::k(V::E(e)) }
                "true" => Self::k(V::E(TRUE)),
                "false" => Self::k(V::E(FALSE)),
                "null" => Self::k(V::E(self.ar.c(0, 64))),
                "undef" | "poison" | "none" => { let v = self.undef(ty); Self::k(v) }
                "zeroinitializer" => { let v = self.zero(ty); Self::k(v) }
                "splat" => { self.expect_p('('); let (_, v) = self.ty_const(fc); self.expect_p(')'); Self::k(V::A(vec![v; ty.nfields()].into())) }
                "getelementptr" => {
                    while !self.is_p('(') { self.p += 1; if self.is_id("inrange") { self.p += 1; self.skip_parens(); } }
                    self.expect_p('(');
                    let st = self.ty(); self.expect_p(',');
                    let (_, base) = self.ty_const(fc);
                    let mut cur = st; let mut first = true; let mut off: u64 = 0;
                    while self.eat_p(',') {
                        let (_, i) = self.ty_const(fc);
                        let i = match i { V::E(e) => sext(self.ar.as_const(e).unwrap(), self.ar.w(e)) as i64, _ => panic!() };
                        if first { off = off.wrapping_add((cur.size() as i64 * i) as u64); first = false; }
                        else { match &cur { Ty::Struct(..) => { off += cur.field_off(i as usize); cur = cur.field(i as usize); } Ty::Arr(_, t) => { off = off.wrapping_add((t.size() as i64 * i) as u64); cur = (**t).clone(); } _ => panic!() } }
                    }
                    self.expect_p(')');
                    let b = match base { V::E(e) => e, _ => panic!() };
                    let o = self.ar.c(off as u128, 64);
                    Self::k(V::E(self.ar.bin(Bop::Add, b, o)))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.expect_p('(');
                    let (_, v) = self.ty_const(fc);
                    assert!(self.eat_id("to"));
                    let t = self.ty();
                    self.expect_p(')');
                    let e = match v { V::E(e) => e, v => return Self::k(v) };
                    let tb = t.bits(); let w = self.ar.w(e);
                    let e = if tb < w { self.ar.extract(e, 0, tb) } else { self.ar.zext(e, tb) };
                    Self::k(V::E(e))
                }
                "sub" | "add" | "xor" => {
                    while !self.is_p('(') { self.p += 1; }
                    self.expect_p('(');
                    let (_, a) = self.ty_const(fc); self.expect_p(',');
                    let (_, b) = self.ty_const(fc); self.expect_p(')');
                    match (a, b) { (V::E(a), V::E(b)) => Self::k(V::E(self.ar.bin(match s.as_str() { "sub" => Bop::Sub, "add" => Bop::Add, _ => Bop::Xor }, a, b))), _ => panic!() }
                }
                x if x.starts_with("f0x") && matches!(ty, Ty::F64 | Ty::F32) => { let v = u64::from_str_radix(&x[3..], 16).expect("fp const"); Self::k(V::E(self.ar.c(v as u128, ty.bits()))) }
                x => panic!("operand {} near {:?}", x, &self.t[self.p.saturating_sub(10)..self.p + 5]),
            },
            T::P('[') => { let mut v = vec![]; if !self.eat_p(']') { loop { v.push(self.ty_const(fc).1); if self.eat_p(']') { break; } self.expect_p(','); } } Self::k(V::A(v.into())) }
            T::P('<') => {
                if self.eat_p('{') { let mut v = vec![]; if !self.eat_p('}') { loop { v.push(self.ty_const(fc).1); if self.eat_p('}') { break; } self.expect_p(','); } } self.expect_p('>'); return Self::k(V::A(v.into())); }
                let mut v = vec![]; loop { v.push(self.ty_const(fc).1); if self.eat_p('>') { break; } self.expect_p(','); } Self::k(V::A(v.into()))
            }
            T::P('{') => { let mut v = vec![]; if !self.eat_p('}') { loop { v.push(self.ty_const(fc).1); if self.eat_p('}') { break; } self.expect_p(','); } } Self::k(V::A(v.into())) }
            x => panic!("operand {:?} near {:?}", x, &self.t[self.p.saturating_sub(12)..self.p + 5]),
        }
    }
    fn define(&mut self) {
        self.skip_attrs_to_ty();
        let ret = self.ty();
        let name = if let T::Glob(n) = self.next() { n } else { panic!("fn name") };
        let mut fc = FnCtx { regs: HashMap::default(), blocks: HashMap::default(), nblocks: 0 };
        self.expect_p('(');
        let mut params = vec![]; let mut unnamed = 0;
        if !self.eat_p(')') {
            loop {
                if self.eat_p('.') || matches!(self.peek(), T::Id(s) if s == "...") { self.p += 1; while !self.is_p(')') { self.p += 1; } self.expect_p(')'); break; }
                let t = self.ty();
                self.skip_value_attrs();
                let n = if let T::Loc(n) = self.peek().clone() { self.p += 1; n } else { let n = unnamed.to_string(); n };
                if n.parse::<u32>().is_ok() { unnamed += 1; }
                let r = fc.reg(&n);
                params.push((t, r));
                if self.eat_p(')') { break; }
                self.expect_p(',');
            }
        }
        let mut attr = None;
        while !self.is_p('{') { if let T::Attr(n) = self.next() { attr = Some(n); } }
        self.expect_p('{');
        let mut blocks: Vec<(u32, Block)> = vec![];
        // entry
        loop {
            match self.peek().clone() {
                T::NL => { self.p += 1; }
                T::P('}') => { self.p += 1; break; }
                T::Lab(n) => { self.p += 1; let id = fc.block(&n); blocks.push((id, Block { ins: vec![], name: n, preds: 0 })); }
                _ => {
                    if blocks.is_empty() { let n = unnamed.to_string(); let id = fc.block(&n); blocks.push((id, Block { ins: vec![], name: n, preds: 0 })); }
                    let i = self.inst(&mut fc);
                    if let Some(i) = i { blocks.last_mut().unwrap().1.ins.push(i); }
                }
            }
        }
        assert_eq!(blocks[0].0, 0, "entry block of {}", name);
        blocks.sort_by_key(|b| b.0);
        assert_eq!(blocks.len() as u32, fc.nblocks, "blocks of {}", name);
        let id = self.m.fn_ids[name.as_str()];
        assert_eq!(id as usize, self.m.funcs.len());
        self.m.funcs.push(Func { name: Rc::from(name.as_str()), params, ret, nregs: fc.regs.len() as u32, blocks: blocks.into_iter().map(|b| b.1).collect(), attr, live: vec![], features: Rc::from(""), src: String::new() });
    }
    fn label(&mut self, fc: &mut FnCtx) -> u32 { assert!(self.eat_id("label")); if let T::Loc(n) = self.next() { fc.block(&n) } else { panic!("label") } }
    fn ty_op(&mut self, fc: &mut FnCtx) -> (Ty, Op) { let t = self.ty(); let o = self.operand(&t, fc); (t, o) }
    fn skip_flags(&mut self) -> u8 { let mut f = 0; while let T::Id(s) = self.peek() { match s.as_str() { "nuw" => f |= 1, "nsw" => f |= 2, "exact" => f |= 4, "disjoint" => f |= 8, "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {} _ => break } if s == "inbounds" { f |= 16; } self.p += 1; } f }
    fn align_suffix(&mut self) -> u64 { let mut al = 1; while *self.peek() != T::NL { if self.eat_id("align") { if let T::Num(a) = self.next() { al = a.parse().unwrap(); } } else { self.p += 1; } } al }

    fn inst(&mut self, fc: &mut FnCtx) -> Option<Inst> {
        let mut dst = None;
        if let T::Loc(n) = self.peek().clone() { if self.t[self.p + 1] == T::P('=') { self.p += 2; dst = Some(fc.reg(&n)); } }
        let op = match self.next() { T::Id(s) => s, T::Attr(_) | T::Meta(_) => { self.skip_line(); return None; } x => panic!("inst {:?} near {:?}", x, &self.t[self.p.saturating_sub(10)..self.p + 5]) };
        let bop = |s: &str| Some(match s { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "urem" => Bop::URem, "sdiv" => Bop::SDiv, "srem" => Bop::SRem, "shl" => Bop::Shl, "lshr" => Bop::LShr, "ashr" => Bop::AShr, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, _ => return None });
        let ins = if let Some(b) = bop(&op) {
            let f = self.skip_flags();
            let (t, a) = self.ty_op(fc); self.expect_p(','); let c = self.operand(&t, fc);
            Ins::Bin(b, t, a, c, f)
        } else { match op.as_str() {
            "icmp" => {
                self.skip_flags();
                let p = match self.next() { T::Id(s) => s, _ => panic!() };
                let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                let (t, a) = self.ty_op(fc); self.expect_p(','); let c = self.operand(&t, fc);
                Ins::Icmp(p, t, a, c)
            }
            "fcmp" => {
                self.skip_flags();
                let p = match self.next() { T::Id(s) => s, _ => panic!() };
                let (t, a) = self.ty_op(fc); self.expect_p(','); let c = self.operand(&t, fc);
                Ins::Fcmp(Rc::from(p.as_str()), t, a, c)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { self.skip_flags(); let (t, a) = self.ty_op(fc); self.expect_p(','); let c = self.operand(&t, fc); Ins::FBin(Rc::from(op.as_str()), t, a, c) }
            "fneg" => { self.skip_flags(); let (t, a) = self.ty_op(fc); Ins::FNeg(t, a) }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                self.skip_flags();
                let (t, a) = self.ty_op(fc); assert!(self.eat_id("to")); let t2 = self.ty();
                let k = match op.as_str() { "zext" => CastK::ZExt, "sext" => CastK::SExt, "trunc" => CastK::Trunc, "ptrtoint" => CastK::PtrToInt, "inttoptr" => CastK::IntToPtr, "bitcast" => CastK::Bitcast, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp, "fpext" | "fptrunc" => CastK::FpExt, _ => CastK::Other };
                Ins::Cast(k, t, a, t2)
            }
            "getelementptr" => {
                let f = self.skip_flags();
                while self.is_id("inrange") { self.p += 1; self.skip_parens(); }
                let st = self.ty(); self.expect_p(',');
                let (bt, base) = self.ty_op(fc);
                if let Ty::Vec(..) = bt { self.skip_line(); return Some(Inst { dst, ins: Ins::Unsupported(Rc::from("vector gep")) }); }
                let mut cur = st; let mut first = true; let mut off = 0i64; let mut idx = vec![];
                while self.is_p(',') {
                    if let T::Meta(_) = self.t[self.p + 1] { break; }
                    self.p += 1;
                    let (it, io) = self.ty_op(fc);
                    let kv = if let Op::K(V::E(e)) = &io { self.ar.as_const(*e).map(|c| sext(c, self.ar.w(*e)) as i64) } else { None };
                    if first {
                        first = false;
                        match kv { Some(i) => off += i.wrapping_mul(cur.size() as i64), None => idx.push((cur.size(), it, io)) }
                    } else {
                        match &cur.clone() {
                            Ty::Struct(..) => { let i = kv.unwrap() as usize; off += cur.field_off(i) as i64; cur = cur.field(i); }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => { match kv { Some(i) => off += i.wrapping_mul(t.size() as i64), None => idx.push((t.size(), it, io)) } cur = (**t).clone(); }
                            _ => panic!("gep"),
                        }
                    }
                }
                Ins::Gep(base, off, idx, f & 16 != 0)
            }
            "load" => {
                let at = self.eat_id("atomic"); self.eat_id("volatile");
                let t = self.ty(); self.expect_p(','); let (_, p) = self.ty_op(fc);
                let at = if at { self.ordering() } else { 0 };
                let al = self.align_suffix();
                Ins::Load(t, p, al, at)
            }
            "store" => {
                let at = self.eat_id("atomic"); self.eat_id("volatile");
                let (t, v) = self.ty_op(fc); self.expect_p(','); let (_, p) = self.ty_op(fc);
                let at = if at { self.ordering() } else { 0 };
                let al = self.align_suffix();
                Ins::Store(t, v, p, al, at)
            }
            "alloca" => {
                self.eat_id("inalloca");
                let t = self.ty();
                let mut n = None;
                if self.is_p(',') { if let T::Id(s) = &self.t[self.p + 1] { if s != "align" && s != "addrspace" { self.p += 1; let (_, o) = self.ty_op(fc); n = Some(o); } } }
                let mut al = t.align(); 
                let a2 = self.align_suffix(); if a2 > al { al = a2; }
                Ins::Alloca(t.size(), al, n)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = op == "invoke";
                if !invoke && op != "call" { assert!(self.eat_id("call")); }
                self.skip_flags();
                self.skip_attrs_to_ty();
                let ret = self.ty();
                if self.is_p('(') { self.skip_parens(); }
                while self.is_id("addrspace") { self.p += 1; self.skip_parens(); }
                let callee = match self.peek().clone() {
                    T::Glob(n) => { self.p += 1; if let Some(i) = self.m.fn_ids.get(n.as_str()) { Callee::Fn(*i) } else { Callee::Ext(Rc::from(n.as_str())) } }
                    T::Id(s) if s == "asm" => {
                        self.p += 1;
                        while let T::Id(_) = self.peek() { self.p += 1; }
                        let a = match self.next() { T::Str(s) => String::from_utf8_lossy(&s).into_owned(), _ => panic!() };
                        self.expect_p(',');
                        let c = match self.next() { T::Str(s) => String::from_utf8_lossy(&s).into_owned(), _ => panic!() };
                        Callee::Asm(Rc::from(format!("{}|{}", a, c).as_str()))
                    }
                    _ => Callee::Ind(self.operand(&Ty::Ptr, fc)),
                };
                self.expect_p('(');
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty();
                        if t == Ty::Meta { // skip metadata argument
                            let mut d = 0; loop { match self.peek() { T::P('(') | T::P('{') => d += 1, T::P(')') | T::P('}') if d > 0 => d -= 1, T::P(')') => break, T::P(',') if d == 0 => break, _ => {} } self.p += 1; }
                        } else {
                            self.skip_value_attrs();
                            let o = self.operand(&t, fc);
                            args.push((t, o));
                        }
                        if self.eat_p(')') { break; }
                        self.expect_p(',');
                    }
                }
                let mut inv = None;
                if invoke {
                    while !self.is_id("to") { self.p += 1; }
                    self.p += 1;
                    let n = self.label(fc);
                    while !self.is_id("unwind") { self.p += 1; }
                    self.p += 1;
                    let u = self.label(fc);
                    inv = Some((n, u));
                }
                Ins::Call { ret, callee, args, inv }
            }
            "phi" => {
                self.skip_flags();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect_p('[');
                    let o = self.operand(&t, fc); self.expect_p(',');
                    let b = if let T::Loc(n) = self.next() { fc.block(&n) } else { panic!() };
                    self.expect_p(']');
                    v.push((o, b));
                    if self.is_p(',') && self.t[self.p + 1] == T::P('[') { self.p += 1; } else { break; }
                }
                Ins::Phi(t, v)
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.ty_op(fc); self.expect_p(','); let (t, a) = self.ty_op(fc); self.expect_p(','); let (_, b) = self.ty_op(fc);
                Ins::Select(t, c, a, b, ct)
            }
            "extractvalue" => { let (_, a) = self.ty_op(fc); let v = self.indices(); Ins::ExtractValue(a, v) }
            "insertvalue" => { let (t, a) = self.ty_op(fc); self.expect_p(','); let (_, b) = self.ty_op(fc); let v = self.indices(); Ins::InsertValue(t, a, b, v) }
            "extractelement" => { let (_, a) = self.ty_op(fc); self.expect_p(','); let (_, b) = self.ty_op(fc); Ins::ExtractElement(a, b) }
            "insertelement" => { let (t, a) = self.ty_op(fc); self.expect_p(','); let (_, b) = self.ty_op(fc); self.expect_p(','); let (_, c) = self.ty_op(fc); Ins::InsertElement(t, a, b, c) }
            "shufflevector" => {
                let (t, a) = self.ty_op(fc); self.expect_p(','); let (_, b) = self.ty_op(fc); self.expect_p(','); let (_, m) = self.ty_op(fc);
                let mask = match m { Op::K(V::A(l)) => l.iter().map(|v| match v { V::E(e) => self.ar.as_const(*e).unwrap() as i64, _ => -1 }).collect(), _ => panic!("mask") };
                Ins::Shuffle(t.nfields() as u32, a, b, mask)
            }
            "br" => {
                if self.is_id("label") { Ins::Br(self.label(fc)) } else {
                    let (_, c) = self.ty_op(fc); self.expect_p(','); let a = self.label(fc); self.expect_p(','); let b = self.label(fc);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_op(fc); self.expect_p(','); let d = self.label(fc);
                self.expect_p('[');
                let mut cases = vec![];
                loop {
                    while *self.peek() == T::NL { self.p += 1; }
                    if self.eat_p(']') { break; }
                    let (_, c) = self.ty_const(fc); self.expect_p(','); let l = self.label(fc);
                    if let V::E(e) = c { cases.push((self.ar.as_const(e).unwrap(), l)); }
                }
                Ins::Switch(t, v, d, cases)
            }
            "ret" => { if self.eat_id("void") { Ins::Ret(None) } else { let (t, o) = self.ty_op(fc); Ins::Ret(Some((t, o))) } }
            "unreachable" => Ins::Unreachable,
            "landingpad" => {
                let _ = self.ty();
                let mut nothrow = false;
                loop {
                    let save = self.p;
                    while *self.peek() == T::NL { self.p += 1; }
                    if self.is_id("cleanup") { self.p += 1; } else if self.is_id("catch") { self.p += 1; let _ = self.ty_op(fc); } else if self.is_id("filter") { nothrow = true; self.p += 1; let _ = self.ty_op(fc); } else { self.p = save; break; }
                }
                Ins::LandingPad(nothrow)
            }
            "resume" => { let (_, o) = self.ty_op(fc); Ins::Resume(o) }
            "freeze" => { let (t, o) = self.ty_op(fc); Ins::Freeze(t, o) }
            "fence" => Ins::Fence,
            "atomicrmw" => {
                self.eat_id("volatile");
                let o = match self.next() { T::Id(s) => s, _ => panic!() };
                let (_, p) = self.ty_op(fc); self.expect_p(','); let (t, v) = self.ty_op(fc);
                let od = self.ordering();
                Ins::Rmw(Rc::from(o.as_str()), t, p, v, od)
            }
            "cmpxchg" => {
                self.eat_id("weak"); self.eat_id("volatile");
                let (_, p) = self.ty_op(fc); self.expect_p(','); let (t, c) = self.ty_op(fc); self.expect_p(','); let (_, n) = self.ty_op(fc);
                let od = self.ordering();
                Ins::CmpXchg(t, p, c, n, od)
            }
            x => Ins::Unsupported(Rc::from(x)),
        } };
        self.skip_line();
        Some(Inst { dst, ins })
    }
    fn ordering(&mut self) -> u8 {
        let mut r = 1;
        while let T::Id(s) = self.peek().clone() {
            match s.as_str() { "acquire" | "release" | "acq_rel" => r = r.max(2), "seq_cst" => r = 3, "align" => break, _ => {} }
            self.p += 1;
            if self.is_p('(') { self.skip_parens(); }
        }
        r
    }
    fn indices(&mut self) -> Vec<u32> { let mut v = vec![]; while self.is_p(',') { if let T::Num(n) = &self.t[self.p + 1] { v.push(n.parse().unwrap()); self.p += 2; } else { break; } } v }
}

pub fn uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Op| if let Op::Reg(r) = x { f(*r) };
    match i {
        Ins::Bin(_, _, a, b, _) | Ins::Icmp(_, _, a, b) | Ins::Fcmp(_, _, a, b) | Ins::FBin(_, _, a, b) | Ins::ExtractElement(a, b) | Ins::InsertValue(_, a, b, _) | Ins::Shuffle(_, a, b, _) | Ins::Rmw(_, _, a, b, _) => { o(a); o(b) }
        Ins::FNeg(_, a) | Ins::Cast(_, _, a, _) | Ins::Load(_, a, _, _) | Ins::ExtractValue(a, _) | Ins::Resume(a) | Ins::Freeze(_, a) | Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => o(a),
        Ins::Gep(a, _, l, _) => { o(a); for (_, _, x) in l { o(x) } }
        Ins::Store(_, a, b, _, _) => { o(a); o(b) }
        Ins::Alloca(_, _, Some(a)) => o(a),
        Ins::Call { callee, args, .. } => { if let Callee::Ind(x) = callee { o(x) } for (_, x) in args { o(x) } }
        Ins::Select(_, a, b, c, _) | Ins::InsertElement(_, a, b, c) | Ins::CmpXchg(_, a, b, c, _) => { o(a); o(b); o(c) }
        Ins::Ret(Some((_, a))) => o(a),
        _ => {}
    }
}
pub fn succs(i: &Ins) -> Vec<u32> {
    match i {
        Ins::Br(a) => vec![*a], Ins::CondBr(_, a, b) => vec![*a, *b],
        Ins::Switch(_, _, d, c) => { let mut v = vec![*d]; v.extend(c.iter().map(|x| x.1)); v }
        Ins::Call { inv: Some((a, b)), .. } => vec![*a, *b],
        _ => vec![],
    }
}

fn liveness(f: &mut Func) {
    let n = f.blocks.len();
    let nr = f.nregs as usize;
    let words = (nr + 63) / 64;
    let mut live: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut preds = vec![0u32; n];
    for b in &f.blocks { for s in succs(&b.ins.last().unwrap().ins) { preds[s as usize] += 1; } }
    let mut phid: Vec<Vec<u64>> = vec![vec![0; words]; n];
    for b in 0..n { for i in &f.blocks[b].ins { if let (Ins::Phi(..), Some(d)) = (&i.ins, i.dst) { phid[b][d as usize / 64] |= 1 << (d % 64); } } }
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..n).rev() {
            let mut l = vec![0u64; words];
            for s in succs(&f.blocks[b].ins.last().unwrap().ins) {
                for w in 0..words { l[w] |= live[s as usize][w] & !phid[s as usize][w]; }
                for i in &f.blocks[s as usize].ins { if let Ins::Phi(_, v) = &i.ins { for (o, p) in v { if *p == b as u32 { if let Op::Reg(r) = o { l[*r as usize / 64] |= 1 << (r % 64); } } } } else { break; } }
            }
            for i in f.blocks[b].ins.iter().rev() {
                if let Some(d) = i.dst { if !matches!(i.ins, Ins::Phi(..)) { l[d as usize / 64] &= !(1 << (d % 64)); } }
                uses(&i.ins, &mut |r| l[r as usize / 64] |= 1 << (r % 64));
            }
            // live[b] is after the phis: phi results used below stay in
            if l != live[b] { live[b] = l; changed = true; }
        }
    }
    for b in 0..n { f.blocks[b].preds = preds[b]; }
    f.live = live.iter().map(|l| (0..nr as u32).filter(|r| l[*r as usize / 64] >> (r % 64) & 1 == 1).collect::<Vec<_>>().into()).collect();
}
