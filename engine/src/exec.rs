//! Symbolic execution of the IR.
use crate::expr::*;
use crate::ir::*;
use crate::smt::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const STACK_BASE: u64 = 0x0300_0000;
pub const HEAP_BASE: u64 = 0x0400_0000;
pub const INPUT_BASE: u64 = 0x0280_0000;
pub const BIG_BASE: u64 = 0x02c0_0000;
pub const MAXOBJ: u64 = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { Stack, Heap, Global, Const, Input }

#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub align: u64, pub kind: Kind, pub alive: bool, pub bytes: Vec<Id>, pub hash: Cell<u128>,
    /// the size of a block too large to hold: only `size` bytes of it can be used
    pub big: Option<Id> }
impl Obj {
    pub fn touch(&self) { self.hash.set(0); }
    pub fn hash(&self) -> u128 {
        let h = self.hash.get();
        if h != 0 { return h; }
        let mut x = H::new();
        x.add(self.base); x.add(self.size); x.add(self.alive as u64); if let Some(b) = self.big { x.add(b as u64 + 1); }
        if self.alive { for b in &self.bytes { x.add(*b as u64); } }
        let h = x.fin();
        self.hash.set(h);
        h
    }
}

/// 128-bit mixing hash for state keys
pub struct H { a: u64, b: u64 }
impl H {
    pub fn new() -> Self { H { a: 0x9E37_79B9_7F4A_7C15, b: 0xC2B2_AE3D_27D4_EB4F } }
    #[inline]
    pub fn add(&mut self, v: u64) {
        self.a = (self.a ^ v).wrapping_mul(0xFF51_AFD7_ED55_8CCD); self.a ^= self.a >> 32;
        self.b = (self.b.rotate_left(23) ^ v).wrapping_mul(0xC4CE_B9FE_1A85_EC53); self.b ^= self.b >> 29;
    }
    pub fn add128(&mut self, v: u128) { self.add(v as u64); self.add((v >> 64) as u64); }
    pub fn fin(&self) -> u128 { let mut a = self.a ^ self.b.rotate_left(17); a = a.wrapping_mul(0x9E37_79B9_7F4A_7C15); a ^= a >> 31; ((a as u128) << 64 | (self.b ^ (a >> 7)) as u128) | 1 }
}

#[derive(Clone)]
pub struct Frame { pub f: u32, pub blk: u32, pub prev: u32, pub ip: usize, pub regs: Vec<V>, pub depth: u64, pub nalloca: u64, pub catch: bool, pub hash: Cell<u128> }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Item { Lit(Id), Esc(Id) }

pub enum HistNode { Root, Cons(u32, Id), Merge(u32, u128) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Rc<BTreeMap<u64, Rc<Obj>>>,
    pub dom: Rc<BTreeMap<Id, Dom>>,
    pub pc: Rc<Vec<Id>>,
    pub facts: Rc<HashMap<Id, Id>>,
    pub lazy: Rc<Vec<Id>>,
    pub hist: u32,
    pub spec: Rc<Vec<Item>>,
    pub front: (u64, usize, usize),
    pub phase: u32,
    /// special characters seen in the absorbed output, and the bound on them
    pub nspec: u32,
    pub limit: u32,
    pub out: u64,
    pub nvars: u32,
    pub ncpu: u32,
    /// widths of the path's input variables, in creation order
    pub vars: Rc<Vec<Id>>,
    pub ninputs: u32,
    pub heapseq: Rc<BTreeMap<u64, u64>>,
    pub allocs: u64,
    pub track: bool,
    pub memo: Rc<BTreeMap<(u64, u64), Rc<Vec<Id>>>>,
    pub atom: Rc<Atom>,
    pub unwind: Option<String>,
    pub forked: bool,
    pub steps: u64,
    pub marks: u64,
}

/// view-based model of relaxed/acquire-release atomics on global locations
#[derive(Clone, Default, PartialEq)]
pub struct Atom {
    pub on: bool,
    pub thread: u32,
    /// per location: history of (value, release view)
    pub hist: BTreeMap<u64, Vec<(Vec<Id>, Option<BTreeMap<u64, usize>>)>>,
    /// per thread: location -> lowest index it may read
    pub view: BTreeMap<u32, BTreeMap<u64, usize>>,
}

pub enum Stop { Kill, Done }
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation { pub msg: String, pub trace: Vec<String>, pub tape: Vec<(u32, u128)>, pub confirmed: bool, pub cpu: Vec<(u64, u64, Vec<u64>)> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub killed: u64, pub merged: u64, pub insts: u64, pub forks: u64, pub states: u64,
    pub unsupported: BTreeMap<String, u64>, pub refuted: u64, pub undecided: u64, pub asserts: u64, pub memchecks: u64, pub panics: u64,
    pub budget: bool, pub outside: u64, pub feas: u64, pub unknown: u64, pub domdec: u64, pub multidec: u64,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: &'m mut Arena,
    pub sol: &'m mut Solver,
    pub params: Vec<i64>,
    pub globals: HashMap<u64, Rc<Obj>>,
    pub hist: Vec<HistNode>,
    pub work: Vec<State>,
    pub visited: HashMap<u128, Vec<u32>>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub funcs: BTreeSet<u32>,
    pub live_at: HashMap<(u32, u32, usize), Rc<[u32]>>,
    pub merge: bool,
    pub deadline: Instant,
    pub max_insts: u64,
    pub qtimeout: u64,
    pub max_violations: usize,
    /// memory safety and panics only: what is written does not matter
    pub soft: bool,
    pub samples: Vec<Violation>,
    pub max_samples: usize,
    pub marks: u64,
    pub trace: bool,
    canon1: HashMap<Id, Id>,
    confirmed_dec: HashSet<(Id, Dom)>,
    candidates: HashMap<String, u32>,
    pub rope_broken: bool,
    pub tape: Option<Vec<u128>>,
    pub fixed_cpu: HashMap<(u64, u64), [u32; 4]>,
    decomp: HashMap<Id, Option<Id>>,
    pub joins: HashMap<(u32, u32), (u32, u32)>,
    refmemo: HashMap<(Id, Dom), Id>,
    pub dbg: bool,
    pub dbgm: BTreeMap<String, (u64, String)>,
    pub names: HashMap<u32, String>,
    pub ext_addrs: HashMap<u64, Rc<str>>,
}

const ENT: [(&[u8], u8); 5] = [(b"&quot;", b'"'), (b"&amp;", b'&'), (b"&#39;", b'\''), (b"&lt;", b'<'), (b"&gt;", b'>')];
pub fn entity(c: u8) -> Option<&'static [u8]> { ENT.iter().find(|e| e.1 == c).map(|e| e.0) }

pub fn demangle(s: &str) -> String {
    // best effort for v0 names: identifiers with a decimal length
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut i = 2; let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s[base62]_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && b.get(j + 1).map_or(false, |c| c.is_ascii_digit()) { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && (i == 0 || true) {
            let mut j = i; let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if n > 0 && n < 80 && j + n <= b.len() && b[j..j + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[j].is_ascii_digit() { out.push(&s[j..j + n]); i = j + n; continue; }
            i = j; continue;
        }
        i += 1;
    }
    out.dedup();
    if out.is_empty() { s.to_string() } else { out.join("::") }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, ar: &'m mut Arena, sol: &'m mut Solver) -> Self {
        let mut ext_addrs = HashMap::default();
        for (n, i) in &m.ext_ids { ext_addrs.insert(ext_addr(*i), n.clone()); }
        Exec { soft: false, m, ar, sol, params: vec![], globals: HashMap::default(), hist: vec![HistNode::Root], work: vec![], visited: HashMap::default(), st: Stats::default(), violations: vec![], funcs: BTreeSet::new(), live_at: HashMap::default(), merge: true, deadline: Instant::now() + std::time::Duration::from_secs(3600), max_insts: u64::MAX, qtimeout: 20000, max_violations: 1, samples: vec![], max_samples: 4, marks: 0, trace: false, canon1: HashMap::default(), confirmed_dec: HashSet::default(), candidates: HashMap::default(), rope_broken: false, tape: None, fixed_cpu: HashMap::default(), decomp: HashMap::default(), joins: HashMap::default(), refmemo: HashMap::default(), dbg: std::env::var("LYQ").is_ok(), dbgm: BTreeMap::new(), names: HashMap::default(), ext_addrs }
    }
    pub fn k64(&mut self, v: u64) -> Id { self.ar.c(v as u128, 64) }

    // ---- knowledge -------------------------------------------------------------------------
    pub fn dom_of(&self, st: &State, v: Id) -> Dom { st.dom.get(&v).copied().unwrap_or_else(|| dom_full(self.ar.w(v))) }
    pub fn refine(&mut self, st: &State, e: Id) -> Id {
        if e == UNDEF || self.ar.as_const(e).is_some() { return e; }
        if let Some(r) = st.facts.get(&e) { return *r; }
        let vs = self.ar.vars(e).clone();
        if vs.len() == 1 && self.ar.w(vs[0]) <= 8 {
            let Some(d) = st.dom.get(&vs[0]) else { return e; };
            let d = *d;
            if self.ar.w(e) == 1 {
                let t = self.ar.truth_dom(e);
                if dom_empty(&d) { return e; }
                let x = dom_and(&d, &t);
                return if dom_empty(&x) { FALSE } else if x == d { TRUE } else { e };
            }
            let n = dom_count(&d);
            if n == 0 || n > 64 { return e; }
            if let Some(r) = self.refmemo.get(&(e, d)) { return *r; }
            let t = self.ar.truth(e);
            let v0 = t[dom_first(&d)];
            let mut same = true;
            for i in 0..t.len() { if dom_has(&d, i) && t[i] != v0 { same = false; break; } }
            let w = self.ar.w(e);
            let r = if same { self.ar.c(v0, w) } else { e };
            self.refmemo.insert((e, d), r);
            return r;
        }
        let hit = !st.facts.is_empty() || vs.iter().any(|v| st.dom.contains_key(v));
        if !hit { return e; }
        let mut memo = HashMap::default();
        self.refine_rec(st, e, &mut memo, 0)
    }
    fn refine_rec(&mut self, st: &State, e: Id, memo: &mut HashMap<Id, Id>, d: u32) -> Id {
        if self.ar.as_const(e).is_some() { return e; }
        if let Some(r) = st.facts.get(&e) { return *r; }
        if let Some(r) = memo.get(&e) { return *r; }
        let r = if self.ar.small_var(e).is_some() { self.refine(st, e) } else {
            let vs = self.ar.vars(e).clone();
            if st.facts.is_empty() && !vs.iter().any(|v| st.dom.get(v).map_or(false, |d| dom_count(d) == 1) || self.ar.w(*v) <= 8 && st.dom.contains_key(v)) { e } else {
                let node = self.ar.node(e).clone();
                let kids: Vec<Id> = match &node { Node::Bin(_, a, b) | Node::Cmp(_, a, b) => vec![*a, *b], Node::Ite(a, b, c) => vec![*a, *b, *c], Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) | Node::Table(_, a) => vec![*a], Node::Concat(l) => l.to_vec(), _ => vec![] };
                let mut changed = false;
                let mut nk = vec![];
                for k in &kids { let r = self.refine_rec(st, *k, memo, d + 1); if r != *k { changed = true; } nk.push(r); }
                if !changed { e } else { let mut it = nk.into_iter(); self.ar.rebuild(e, &mut |_, _| it.next().unwrap()) }
            }
        };
        let r = if r != e { st.facts.get(&r).copied().unwrap_or(r) } else { r };
        memo.insert(e, r);
        r
    }
    pub fn hist_cons(&mut self, st: &mut State, c: Id) {
        self.hist.push(HistNode::Cons(st.hist, c));
        st.hist = (self.hist.len() - 1) as u32;
    }
    /// constraints connected with the variables of `c`
    pub fn relevant(&mut self, st: &State, c: Id) -> Vec<Id> {
        let mut vs: BTreeSet<Id> = self.ar.vars(c).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let pv = self.ar.vars(*p).clone();
                if pv.iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; vs.extend(pv.iter().copied()); }
            }
            if !ch { break; }
        }
        let mut out: Vec<Id> = st.pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, p)| *p).collect();
        for v in vs { if let Some(d) = st.dom.get(&v) { let e = self.ar.in_dom(v, d); if e != TRUE { out.push(e); } } }
        out
    }
    pub fn in_pc(&self, st: &State, v: Id) -> bool { st.pc.iter().any(|p| self.ar.vars(*p).contains(&v)) }
    /// is the condition possible together with what is known?
    pub fn feasible(&mut self, st: &State, c: Id) -> bool {
        let c = self.refine(st, c);
        if c == TRUE { return true; }
        if c == FALSE { return false; }
        if let Some(v) = self.ar.small_var(c) {
            let t = self.ar.truth_dom(c);
            let d = self.dom_of(st, v);
            let r = !dom_empty(&dom_and(&d, &t));
            self.confirm_dom(c, v, &d, r);
            if !r { return false; }
            if !self.in_pc(st, v) { return true; }
        }
        self.st.multidec += 1;
        if self.dbg { let f = st.frames.last().unwrap(); let k = format!("{} {} {}", demangle(&self.m.funcs[f.f as usize].name), self.m.funcs[f.f as usize].blocks[f.blk as usize].name, f.ip); let n = self.dbgm.entry(k).or_insert((0, String::new())); n.0 += 1; if n.1.is_empty() { n.1 = self.ar.show(c); } }
        let mut cs = self.relevant(st, c);
        cs.push(c);
        match self.sol.sat(self.ar, &cs, self.qtimeout) { Some(b) => b, None => { self.st.unknown += 1; true } }
    }
    /// the solver decides every distinct single-variable question too
    fn confirm_dom(&mut self, c: Id, v: Id, d: &Dom, r: bool) {
        self.st.domdec += 1;
        let cc = match self.canon1.get(&c) { Some(x) => *x, None => { let w = self.ar.w(v); let nv = self.ar.var(9, 0, w); let mut memo = HashMap::default(); memo.insert(v, nv); let x = self.subst(c, &mut memo); self.canon1.insert(c, x); x } };
        if !self.confirmed_dec.insert((cc, *d)) { return; }
        let w = self.ar.w(v);
        let nv = self.ar.var(9, 0, w);
        let dm = self.ar.in_dom(nv, d);
        match self.sol.check(self.ar, &[dm, cc], false, self.qtimeout) {
            Res::Sat(_) => assert!(r, "solver disagrees on {}", self.ar.show(cc)),
            Res::Unsat => assert!(!r, "solver disagrees on {}", self.ar.show(cc)),
            Res::Unknown => self.st.unknown += 1,
        }
    }
    fn subst(&mut self, e: Id, memo: &mut HashMap<Id, Id>) -> Id {
        if let Some(r) = memo.get(&e) { return *r; }
        if self.ar.vars(e).is_empty() { return e; }
        let r = match self.ar.node(e).clone() {
            Node::Var(..) => e,
            node => {
                let kids: Vec<Id> = match &node { Node::Bin(_, a, b) | Node::Cmp(_, a, b) => vec![*a, *b], Node::Ite(a, b, c) => vec![*a, *b, *c], Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) | Node::Table(_, a) => vec![*a], Node::Concat(l) => l.to_vec(), _ => vec![] };
                let nk: Vec<Id> = kids.iter().map(|k| self.subst(*k, memo)).collect();
                let mut it = nk.into_iter();
                self.ar.rebuild(e, &mut |_, _| it.next().unwrap())
            }
        };
        memo.insert(e, r);
        r
    }
    /// add a condition known to hold (no feasibility check); Err when it contradicts
    pub fn assume(&mut self, st: &mut State, c: Id) -> R<()> {
        let c = self.refine(st, c);
        if c == TRUE { return Ok(()); }
        if c == FALSE { return Err(Stop::Kill); }
        match self.ar.node(c).clone() {
            Node::Bin(Bop::And, a, b) if self.ar.small_var(c).is_none() => { self.assume(st, a)?; return self.assume(st, b); }
            Node::Bin(Bop::Xor, x, k) if k == TRUE && self.ar.small_var(c).is_none() => {
                if let Node::Bin(Bop::Or, a, b) = *self.ar.node(x) { let na = self.ar.not(a); let nb = self.ar.not(b); self.assume(st, na)?; return self.assume(st, nb); }
            }
            _ => {}
        }
        if let Some(v) = self.ar.small_var(c) {
            let t = self.ar.truth_dom(c);
            let d = dom_and(&self.dom_of(st, v), &t);
            if dom_empty(&d) { return Err(Stop::Kill); }
            Rc::make_mut(&mut st.dom).insert(v, d);
            return self.repc(st, v);
        }
        Rc::make_mut(&mut st.pc).push(c);
        let n = self.ar.not(c);
        let facts = Rc::make_mut(&mut st.facts);
        facts.insert(c, TRUE); facts.insert(n, FALSE);
        if let Node::Cmp(Cop::Eq, a, b) = *self.ar.node(c) { if self.ar.as_const(b).is_some() { facts.insert(a, b); } }
        Ok(())
    }
    /// revisit multi-variable constraints after the domain of `v` shrank
    fn repc(&mut self, st: &mut State, v: Id) -> R<()> {
        if st.pc.is_empty() { return Ok(()); }
        let hit: Vec<Id> = st.pc.iter().copied().filter(|p| self.ar.vars(*p).contains(&v)).collect();
        for p in hit {
            // facts would decide it trivially: take it out first
            let n = self.ar.not(p);
            { let f = Rc::make_mut(&mut st.facts); f.remove(&p); f.remove(&n); if let Node::Cmp(Cop::Eq, a, _) = *self.ar.node(p) { f.remove(&a); } }
            Rc::make_mut(&mut st.pc).retain(|x| *x != p);
            let r = self.refine(st, p);
            if r == TRUE { continue; }
            if r == FALSE { return Err(Stop::Kill); }
            let nr = self.ar.not(r);
            let mut cs = self.relevant(st, nr);
            cs.push(nr);
            if self.sol.sat(self.ar, &cs, self.qtimeout) == Some(false) { continue; }
            self.assume(st, r)?;
        }
        Ok(())
    }
    /// decide a condition, forking when both outcomes are possible
    pub fn need(&mut self, st: &mut State, c: Id) -> R<bool> {
        let c = self.refine(st, c);
        if c == TRUE { return Ok(true); }
        if c == FALSE { return Ok(false); }
        if self.ar.small_var(c).is_none() {
            match self.ar.node(c).clone() {
                // the parts in the order of their variables, so that all paths decide them in the same order
                Node::Bin(op @ (Bop::And | Bop::Or), _, _) => {
                    let mut l = vec![]; let mut todo = vec![c];
                    while let Some(e) = todo.pop() { match self.ar.node(e) { Node::Bin(o, a, b) if *o == op && self.ar.small_var(e).is_none() => { todo.push(*b); todo.push(*a); } _ => l.push(e) } }
                    l.sort_by_key(|e| (self.ar.vars(*e).iter().copied().collect::<Vec<_>>(), *e));
                    l.dedup();
                    for e in l { let r = self.need(st, e)?; if r != (op == Bop::And) { return Ok(r); } }
                    return Ok(op == Bop::And);
                }
                Node::Bin(Bop::Xor, x, k) if k == TRUE => { return Ok(!self.need(st, x)?); }
                _ => {}
            }
        }
        if self.ar.small_var(c).is_none() { if let Some(d) = self.decompose(c) { if d != c { return self.need(st, d); } } }
        let n = self.ar.not(c);
        let t = self.feasible(st, c);
        let f = self.feasible(st, n);
        match (t, f) {
            (false, false) => Err(Stop::Kill),
            (true, false) => { self.assume(st, c)?; Ok(true) }
            (false, true) => { self.assume(st, n)?; Ok(false) }
            (true, true) => {
                self.st.forks += 1;
                st.forked = true;
                let mut o = st.clone();
                self.hist_cons(&mut o, n);
                if self.assume(&mut o, n).is_ok() { self.work.push(o); }
                self.hist_cons(st, c);
                self.assume(st, c)?;
                Ok(true)
            }
        }
    }
    /// an equivalent disjunction (or conjunction) of conditions on single variables, when there is one: guessed by
    /// evaluation around a base point, proved equivalent by the solver
    fn decompose(&mut self, c: Id) -> Option<Id> {
        if let Some(r) = self.decomp.get(&c) { return *r; }
        let r = self.decompose1(c);
        self.decomp.insert(c, r);
        r
    }
    fn decompose1(&mut self, c: Id) -> Option<Id> {
        let vs = self.ar.vars(c).clone();
        if vs.len() < 2 || vs.len() > 32 || vs.iter().any(|v| self.ar.w(*v) > 8) { return None; }
        let mut env: HashMap<Id, u128> = HashMap::default();
        for v in vs.iter() { env.insert(*v, if self.ar.w(*v) == 8 { b'a' as u128 } else { 0 }); }
        let b0 = { let mut m = HashMap::default(); self.ar.eval(c, &env, &mut m) };
        let mut cand = FALSE;
        for v in vs.iter() {
            let n = 1usize << self.ar.w(*v);
            let old = env[v];
            let mut d = [0u64; 4];
            for x in 0..n { env.insert(*v, x as u128); let mut m = HashMap::default(); if self.ar.eval(c, &env, &mut m) != b0 { d[x >> 6] |= 1 << (x & 63); } }
            env.insert(*v, old);
            if dom_empty(&d) { return None; }
            let p = self.ar.in_dom(*v, &d);
            cand = self.ar.or(cand, p);
        }
        if b0 == 1 { cand = self.ar.not(cand); }
        let q = self.ar.ne(c, cand);
        match self.sol.check(self.ar, &[q], false, self.qtimeout) { Res::Unsat => Some(cand), _ => None }
    }
    /// a concrete value for `e`, forking over the possible ones
    pub fn concretize(&mut self, st: &mut State, e: Id) -> R<u128> {
        loop {
            let e = self.refine(st, e);
            if let Some(c) = self.ar.as_const(e) { return Ok(c); }
            let w = self.ar.w(e);
            if w == 1 { return Ok(self.need(st, e)? as u128); }
            let v = if let Some(v) = self.ar.small_var(e) { let d = self.dom_of(st, v); let t = self.ar.truth(e); t[dom_first(&d)] } else {
                // decide single bits or parts of a concatenation first
                let z = self.ar.var(8, 0, w);
                let q = self.ar.eq(z, e);
                let mut cs = self.relevant(st, e);
                cs.push(q);
                match self.sol.check(self.ar, &cs, true, self.qtimeout) {
                    Res::Sat(m) => m.get(&z).copied().unwrap_or(0),
                    Res::Unsat => return Err(Stop::Kill),
                    Res::Unknown => { self.unsupported("solver timeout in concretize"); return Err(Stop::Kill); }
                }
            };
            let k = self.ar.c(v, w);
            let q = self.ar.eq(e, k);
            if self.need(st, q)? { return Ok(v); }
        }
    }
    pub fn unsupported(&mut self, s: &str) { *self.st.unsupported.entry(s.to_string()).or_insert(0) += 1; }
    pub fn unsup<T>(&mut self, st: &State, s: &str) -> R<T> {
        let f = st.frames.last().map(|f| self.m.funcs[f.f as usize].name.to_string()).unwrap_or_default();
        self.unsupported(&format!("{} in {}", s, demangle(&f)));
        Err(Stop::Kill)
    }

    // ---- violations ------------------------------------------------------------------------
    fn stack_trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| { let fu = &self.m.funcs[f.f as usize]; format!("{} block {} ip {}", demangle(&fu.name), fu.blocks[f.blk as usize].name, f.ip) }).collect()
    }
    /// search the history for a real path that satisfies `extra`; gives a model
    pub fn exact(&mut self, st: &State, extra: Id) -> Option<Result<HashMap<Id, u128>, ()>> {
        // Some(Ok(model)): feasible; Some(Err): infeasible; None: gave up
        let mut budget = 400u32;
        let mut unknown = false;
        let mut lazy: Vec<Id> = st.lazy.to_vec();
        lazy.push(extra);
        // depth-first over alternatives at merge points
        struct Fr { node: u32, cons: Rc<ConsList> }
        enum ConsList { Nil, C(Id, Rc<ConsList>) }
        let mut stack: Vec<Fr> = vec![Fr { node: st.hist, cons: Rc::new(ConsList::Nil) }];
        let mut pre = Rc::new(ConsList::Nil);
        for c in &lazy { pre = Rc::new(ConsList::C(*c, pre)); }
        stack[0].cons = pre;
        let collect = |l: &Rc<ConsList>| { let mut v = vec![]; let mut c = l.clone(); loop { let n = match &*c { ConsList::Nil => break, ConsList::C(e, n) => { v.push(*e); n.clone() } }; c = n; } v };
        while let Some(Fr { mut node, mut cons }) = stack.pop() {
            loop {
                match &self.hist[node as usize] {
                    HistNode::Root => {
                        if budget == 0 { return None; }
                        budget -= 1;
                        let cs = collect(&cons);
                        match self.sol.check(self.ar, &cs, true, self.qtimeout) {
                            Res::Sat(m) => return Some(Ok(m)),
                            Res::Unsat => {}
                            Res::Unknown => { unknown = true; self.st.unknown += 1; }
                        }
                        break;
                    }
                    HistNode::Cons(p, c) => { cons = Rc::new(ConsList::C(*c, cons)); node = *p; }
                    HistNode::Merge(p, key) => {
                        let p = *p; let key = *key;
                        let alts: Vec<u32> = self.visited.get(&key).cloned().unwrap_or_default();
                        // prune early when the part collected so far is impossible
                        if alts.len() > 1 {
                            if budget == 0 { return None; }
                            let cs = collect(&cons);
                            if self.sol.sat(self.ar, &cs, self.qtimeout) == Some(false) { break; }
                        }
                        for a in alts.iter().rev() { if *a != p { stack.push(Fr { node: *a, cons: cons.clone() }); } }
                        node = p;
                    }
                }
            }
        }
        if unknown { None } else { Some(Err(())) }
    }
    pub fn make_report(&mut self, st: &State, msg: String, model: &HashMap<Id, u128>) -> Violation {
        let tape: Vec<(u32, u128)> = st.vars.iter().map(|v| {
            let val = model.get(v).copied().unwrap_or_else(|| self.default_of(st, *v));
            (self.ar.w(*v), val)
        }).collect();
        let mut env: HashMap<Id, u128> = HashMap::default();
        for (k, v) in model { env.insert(*k, *v); }
        let mut cpu = vec![];
        for ((a, b), l) in st.memo.iter() {
            if !(*a < 0x20 || *a >= 0x8000_0000 && *a < 0x8000_0020 || *a == 0xffff_0000) { continue; }
            for e in l.iter() { for v in self.ar.vars(*e).iter() { if !env.contains_key(v) { let d = if self.ar.w(*v) <= 8 { st.dom.get(v).map_or(0, |d| dom_first(d) as u128) } else { 0 }; env.insert(*v, d); } } }
            let mut m = HashMap::default();
            cpu.push((*a, *b, l.iter().map(|e| self.ar.eval(*e, &env, &mut m) as u64).collect()));
        }
        Violation { msg, trace: self.stack_trace(st), tape, confirmed: true, cpu }
    }
    fn default_of(&self, st: &State, v: Id) -> u128 {
        if self.ar.w(v) <= 8 { if let Some(d) = st.dom.get(&v) { return dom_first(d) as u128; } if self.ar.w(v) == 8 { return b'a' as u128; } }
        0
    }
    /// the property is violated when `bad` holds here
    pub fn violation(&mut self, st: &State, bad: Id, msg: &str) {
        let key = format!("{} @ {}", msg, st.frames.last().map(|f| format!("{}:{}:{}", f.f, f.blk, f.ip)).unwrap_or_default());
        let n = self.candidates.entry(key).or_insert(0);
        *n += 1;
        if *n > 40 { self.st.undecided += 1; return; }
        match self.exact(st, bad) {
            Some(Ok(m)) => {
                let v = self.make_report(st, msg.to_string(), &m);
                self.violations.push(v);
            }
            Some(Err(())) => { self.st.refuted += 1; }
            None => { self.st.undecided += 1; }
        }
    }
    pub fn bad<T>(&mut self, st: &State, msg: &str) -> R<T> { if let Some(m) = msg.strip_prefix('~') { return self.unsup(st, m); } self.violation(st, TRUE, msg); Err(Stop::Kill) }
    /// assert `c` in this state; continues with `c` assumed
    pub fn check(&mut self, st: &mut State, c: Id, msg: &str) -> R<()> {
        self.st.asserts += 1;
        let c = self.refine(st, c);
        if c == TRUE { return Ok(()); }
        if c != FALSE && self.ar.small_var(c).is_none() {
            // per conjunct
            if let Node::Bin(Bop::And, a, b) = *self.ar.node(c) { self.check(st, a, msg)?; return self.check(st, b, msg); }
        }
        let n = self.ar.not(c);
        if self.feasible(st, n) { self.violation(st, n, msg); }
        if !self.feasible(st, c) { return Err(Stop::Kill); }
        self.hist_cons(st, c);
        self.assume(st, c)
    }

    // ---- memory ----------------------------------------------------------------------------
    fn materialize(&mut self, num: u64) -> Option<Rc<Obj>> {
        if let Some(o) = self.globals.get(&num) { return Some(o.clone()); }
        if !(GL_BASE..GL_BASE + 0x80_0000).contains(&num) { return None; }
        let g = self.m.globals.get((num - GL_BASE) as usize)?;
        let size = g.ty.size();
        let mut bytes = vec![UNDEF; size as usize];
        if let Some(v) = &g.init { let (v, ty) = (v.clone(), g.ty.clone()); self.put(&v, &ty, &mut bytes, 0); }
        let o = Rc::new(Obj { base: num << 32 | 0x1000, size, align: g.align, kind: if g.constant { Kind::Const } else { Kind::Global }, alive: true, bytes, hash: Cell::new(0), big: None });
        self.globals.insert(num, o.clone());
        Some(o)
    }
    pub fn put(&mut self, v: &V, ty: &Ty, out: &mut [Id], off: usize) {
        match (v, ty) {
            (V::U, _) => { let n = ty.store_size() as usize; for b in out[off..off + n].iter_mut() { *b = UNDEF; } }
            (V::A(l), Ty::Vec(n, t)) if t.bits() % 8 != 0 => {
                // bit vector
                let mut parts = vec![]; let mut undef = false;
                for x in l.iter() { if let V::E(e) = x { parts.push(*e); } else { undef = true; } }
                let nb = ((*n * t.bits() + 7) / 8) as usize;
                if undef { for b in out[off..off + nb].iter_mut() { *b = UNDEF; } return; }
                let mut e = self.ar.concat(&parts);
                e = self.ar.zext(e, nb as u32 * 8);
                for i in 0..nb { out[off + i] = self.ar.extract(e, i as u32 * 8, 8); }
            }
            (V::A(l), _) => { for (i, x) in l.iter().enumerate() { let ft = ty.field(i); let fo = ty.field_off(i) as usize; self.put(x, &ft, out, off + fo); } }
            (V::E(e), _) => {
                let n = ty.store_size() as usize;
                let e = if self.ar.w(*e) < n as u32 * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n { out[off + i] = self.ar.extract(e, i as u32 * 8, 8); }
            }
            (V::B(b), _) => { for (i, x) in b.iter().enumerate() { out[off + i] = *x; } }
        }
    }
    pub fn get(&mut self, b: &[Id], ty: &Ty, off: usize) -> V {
        match ty {
            Ty::Struct(f, _) => { let f = f.clone(); let v: Vec<V> = f.iter().enumerate().map(|(i, t)| self.get(b, t, off + ty.field_off(i) as usize)).collect(); V::A(v.into()) }
            Ty::Arr(n, t) => { let v: Vec<V> = (0..*n as usize).map(|i| self.get(b, t, off + i * t.size() as usize)).collect(); V::A(v.into()) }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    let nb = ((*n * t.bits() + 7) / 8) as usize;
                    if b[off..off + nb].iter().any(|x| *x == UNDEF) { return V::A(vec![V::U; *n as usize].into()); }
                    let parts: Vec<Id> = b[off..off + nb].to_vec();
                    let e = self.ar.concat(&parts);
                    let tb = t.bits();
                    let v: Vec<V> = (0..*n).map(|i| V::E(self.ar.extract(e, i * tb, tb))).collect();
                    return V::A(v.into());
                }
                let v: Vec<V> = (0..*n as usize).map(|i| self.get(b, t, off + i * t.size() as usize)).collect();
                V::A(v.into())
            }
            Ty::Void => V::U,
            _ => {
                let n = ty.store_size() as usize;
                let s = &b[off..off + n];
                let nu = s.iter().filter(|x| **x == UNDEF).count();
                if nu == n { return V::U; }
                if nu > 0 { return V::B(s.into()); }
                let e = self.ar.concat(s);
                let w = ty.bits();
                let e = if w < self.ar.w(e) { self.ar.extract(e, 0, w) } else { e };
                V::E(e)
            }
        }
    }
    pub fn obj(&mut self, st: &State, num: u64) -> Option<Rc<Obj>> { if let Some(o) = st.mem.get(&num) { return Some(o.clone()); } self.materialize(num) }
    pub fn describe(&mut self, st: &State, addr: u64) -> String {
        let num = addr >> 32;
        match self.obj(st, num) {
            Some(o) => format!("offset {} of {:?} object of {} bytes{}", (addr as i64).wrapping_sub(o.base as i64), o.kind, o.size, if o.alive { "" } else { " (dead)" }),
            None => if num >= HEAP_BASE { "a heap block that was freed".to_string() } else if num >= STACK_BASE && num < HEAP_BASE { "a stack slot that is gone".to_string() } else { format!("wild address {:#x}", addr) },
        }
    }
    pub fn ok_range(&mut self, st: &State, addr: u64, n: u64, align: u64, write: bool) -> Result<Rc<Obj>, String> {
        self.st.memchecks += 1;
        let num = addr >> 32;
        let what = if write { "write" } else { "read" };
        let o = match self.obj(st, num) { Some(o) => o, None => return Err(format!("{} of {} bytes at {}", what, n, self.describe(st, addr))) };
        if !o.alive { return Err(format!("{} of {} bytes at {}", what, n, self.describe(st, addr))); }
        if addr < o.base || addr + n > o.base + o.size { if o.big.is_some() && addr >= o.base { return Err("~use of the far part of a large block".into()); } return Err(format!("{} of {} bytes out of bounds at {}", what, n, self.describe(st, addr))); }
        if align > 1 && addr % align != 0 { return Err(format!("misaligned {} of {} bytes (alignment {}) at {}", what, n, align, self.describe(st, addr))); }
        if write && (o.kind == Kind::Const || o.kind == Kind::Input) { return Err(format!("write of {} bytes to read-only memory at {}", n, self.describe(st, addr))); }
        Ok(o)
    }
    pub fn read(&mut self, st: &State, addr: u64, n: u64, align: u64) -> R<Vec<Id>> {
        if n == 0 { return Ok(vec![]); }
        match self.ok_range(st, addr, n, align, false) {
            Ok(o) => { let i = (addr - o.base) as usize; Ok(o.bytes[i..i + n as usize].to_vec()) }
            Err(m) => self.bad(st, &m),
        }
    }
    pub fn write(&mut self, st: &mut State, addr: u64, b: &[Id], align: u64) -> R<()> {
        if b.is_empty() { return Ok(()); }
        match self.ok_range(st, addr, b.len() as u64, align, true) {
            Ok(o) => {
                let num = addr >> 32;
                let i = (addr - o.base) as usize;
                let mem = Rc::make_mut(&mut st.mem);
                let slot = mem.entry(num).or_insert(o.clone());
                drop(o);
                let m = Rc::make_mut(slot);
                m.bytes[i..i + b.len()].copy_from_slice(b);
                m.hash.set(0);
                Ok(())
            }
            Err(m) => self.bad(st, &m),
        }
    }
    /// bytes at a possibly symbolic address
    pub fn load_at(&mut self, st: &mut State, addr: Id, n: u64, align: u64) -> R<Vec<Id>> {
        let addr = self.refine(st, addr);
        if let Some(a) = self.ar.as_const(addr) { return self.read(st, a as u64, n, align); }
        if n <= 32 { if let Some(v) = self.ar.small_var(addr) {
            let t = self.ar.truth(addr);
            let d = self.dom_of(st, v);
            let mut okd = [0u64; 4];
            let mut msg = String::new();
            let mut vals: Vec<Option<Vec<Id>>> = vec![None; t.len()];
            for i in 0..t.len() { if dom_has(&d, i) {
                match self.ok_range(st, t[i] as u64, n, align, false) {
                    Ok(o) => { okd[i >> 6] |= 1 << (i & 63); let k = (t[i] as u64 - o.base) as usize; vals[i] = Some(o.bytes[k..k + n as usize].to_vec()); }
                    Err(m) => if msg.is_empty() { msg = m; },
                }
            } }
            if !msg.is_empty() { let c = self.ar.in_dom(v, &okd); self.check(st, c, &msg)?; }
            if vals.iter().flatten().all(|b| b.iter().all(|x| *x != UNDEF && self.ar.as_const(*x).is_some())) {
                // few outcomes: decide which here, so that lengths and positions stay concrete
                let mut by: BTreeMap<Vec<Id>, Dom> = BTreeMap::new();
                for (i, b) in vals.iter().enumerate() { if let Some(b) = b { by.entry(b.clone()).or_insert([0; 4])[i >> 6] |= 1 << (i & 63); } }
                let nb = by.len();
                if nb <= 16 {
                    for (k, (b, dm)) in by.into_iter().enumerate() {
                        if k + 1 == nb { return Ok(b); }
                        let c = self.ar.in_dom(v, &dm);
                        if self.need(st, c)? { return Ok(b); }
                    }
                    return Err(Stop::Kill);
                }
                let mut out = vec![];
                for k in 0..n as usize {
                    let tab: Vec<u128> = vals.iter().map(|b| b.as_ref().map_or(0, |b| self.ar.as_const(b[k]).unwrap())).collect();
                    out.push(self.ar.table(tab, v, 8));
                }
                return Ok(out);
            }
        } else {
            // a constant object at a computed offset
            let z = self.ar.var(8, 0, 64);
            let q = self.ar.eq(z, addr);
            let mut cs = self.relevant(st, addr);
            cs.push(q);
            let a0 = match self.sol.check(self.ar, &cs, true, self.qtimeout) { Res::Sat(m) => m.get(&z).copied().unwrap_or(0) as u64, Res::Unsat => return Err(Stop::Kill), Res::Unknown => return self.unsup(st, "solver timeout on address") };
            if let Some(o) = self.obj(st, a0 >> 32) {
                if o.alive && o.size >= n && o.size <= 4096 && o.kind == Kind::Const && o.bytes.iter().all(|x| *x != UNDEF && self.ar.as_const(*x).is_some()) {
                    let base = self.k64(o.base);
                    let off = self.ar.bin(Bop::Sub, addr, base);
                    let lim = self.k64(o.size - n);
                    let c = self.ar.cmp(Cop::Ule, off, lim);
                    let nc = self.ar.not(c);
                    if self.feasible(st, nc) {
                        // somewhere else for some values: decide which
                        let same = { let hi = self.ar.extract(addr, 32, 32); let k = self.ar.c((o.base >> 32) as u128, 32); self.ar.eq(hi, k) };
                        if self.need(st, same)? { let m = format!("read of {} bytes out of bounds at a computed offset of a constant of {} bytes", n, o.size); self.check(st, c, &m)?; } else { return self.load_at(st, addr, n, align); }
                    }
                    let bits = 64 - (o.size - 1).leading_zeros().min(63);
                    let idx = self.ar.extract(off, 0, bits.max(1));
                    let mut out = vec![];
                    for k in 0..n as usize {
                        let tab: Vec<u128> = (0..(o.size - n + 1) as usize).map(|i| self.ar.as_const(o.bytes[i + k]).unwrap()).collect();
                        out.push(self.ar.table(tab, idx, 8));
                    }
                    return Ok(out);
                }
            }
        } }
        let a = self.concretize(st, addr)? as u64;
        self.read(st, a, n, align)
    }
    pub fn new_heap(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        // the number depends on the size so that equal states get equal addresses
        let seq = Rc::make_mut(&mut st.heapseq);
        let k = seq.entry(size).or_insert(0);
        *k += 1;
        let num = if *k < 2048 && size <= MAXOBJ { HEAP_BASE + size * 2048 + *k } else { let j = seq.entry(u64::MAX - 1).or_insert(0); *j += 1; 0x8500_0000 + *j };
        let base = num << 32 | (0x1000 + if align >= 0x1000 { 0 } else { align });
        let o = Obj { base, size, align, kind: Kind::Heap, alive: true, bytes: vec![if zero { 0 } else { UNDEF }; size as usize], hash: Cell::new(0), big: None };
        Rc::make_mut(&mut st.mem).insert(num, Rc::new(o));
        st.allocs += 1;
        base
    }
    /// a block larger than memory is modelled: its size stays symbolic, its first bytes can be used
    pub fn new_big(&mut self, st: &mut State, size: Id, align: u64, mut bytes: Vec<Id>) -> u64 {
        let seq = Rc::make_mut(&mut st.heapseq);
        let k = seq.entry(u64::MAX).or_insert(0);
        *k += 1;
        let num = BIG_BASE + *k * 64;
        let base = num << 32 | 0x1000;
        if bytes.len() < 4096 { bytes.resize(4096, UNDEF); }
        Rc::make_mut(&mut st.mem).insert(num, Rc::new(Obj { base, size: bytes.len() as u64, align, kind: Kind::Heap, alive: true, bytes, hash: Cell::new(0), big: Some(size) }));
        st.allocs += 1;
        base
    }
    /// the size and alignment given for a block must be its own
    pub fn free_any(&mut self, st: &mut State, p: u64, size: Id, align: u64, what: &str) -> R<Rc<Obj>> {
        let num = p >> 32;
        let big = match st.mem.get(&num) { Some(o) if o.alive && o.base == p => o.big, _ => None };
        if let Some(b) = big {
            let o = st.mem.get(&num).unwrap().clone();
            if o.align != align { return self.bad(st, &format!("{} with another alignment", what)); }
            let c = self.ar.eq(b, size);
            self.check(st, c, &format!("{} of a large block with another size", what))?;
            Rc::make_mut(&mut st.mem).remove(&num);
            return Ok(o);
        }
        let s = self.concretize(st, size)? as u64;
        self.free_heap(st, p, s, align, what)
    }
    pub fn free_heap(&mut self, st: &mut State, p: u64, size: u64, align: u64, what: &str) -> R<Rc<Obj>> {
        let num = p >> 32;
        let o = match st.mem.get(&num) { Some(o) if o.kind == Kind::Heap && o.alive => o.clone(), _ => { let d = self.describe(st, p); return self.bad(st, &format!("{} of a block that is not allocated: {}", what, d)); } };
        if o.base != p { let d = self.describe(st, p); return self.bad(st, &format!("{} of a pointer into the middle of a block: {}", what, d)); }
        if o.big.is_some() || o.size != size || o.align != align { return self.bad(st, &format!("{} with size {} alignment {} of a block of size {} alignment {}", what, size, align, o.size, o.align)); }
        Rc::make_mut(&mut st.mem).remove(&num);
        Ok(o)
    }

    pub fn new_frame(m: &Module, f: u32, depth: u64, catch: bool) -> Frame {
        Frame { f, blk: 0, prev: 0, ip: 0, regs: vec![V::U; m.funcs[f as usize].nregs as usize], depth, nalloca: 0, catch, hash: Cell::new(0) }
    }
    pub fn add_obj(&mut self, st: &mut State, num: u64, base: u64, size: u64, align: u64, kind: Kind, bytes: Vec<Id>) {
        Rc::make_mut(&mut st.mem).insert(num, Rc::new(Obj { base, size, align, kind, alive: true, bytes, hash: Cell::new(0), big: None }));
    }

    // ---- values ----------------------------------------------------------------------------
    pub fn top(st: &mut State) -> &mut Frame { let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.hash.set(0); f }
    pub fn val(&mut self, st: &State, o: &Op) -> V { match o { Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Op::K(v) => v.clone() } }
    pub fn scal(&mut self, st: &State, v: V, what: &str) -> R<Id> { match v { V::E(e) => Ok(e), V::U | V::B(_) => self.bad(st, &format!("undefined value used {}", what)), V::A(_) => self.unsup(st, "aggregate as scalar") } }
    pub fn vald(&mut self, st: &State, o: &Op, what: &str) -> R<Id> { let v = self.val(st, o); self.scal(st, v, what) }
    pub fn set(st: &mut State, d: Option<u32>, v: V) { if let Some(d) = d { Self::top(st).regs[d as usize] = v; } }

    pub fn bin_v(&mut self, op: Bop, a: &V, b: &V, flags: u8) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => { let v: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.bin_v(op, p, q, flags)).collect(); V::A(v.into()) }
            (V::E(x), V::E(y)) => V::E(self.ar.bin(op, *x, *y)),
            (V::U, V::E(k)) | (V::E(k), V::U) if (matches!(op, Bop::And | Bop::Or) || matches!(op, Bop::Shl | Bop::LShr) && matches!(a, V::U)) && self.ar.w(*k) % 8 == 0 => {
                let u = V::B(vec![UNDEF; (self.ar.w(*k) / 8) as usize].into());
                self.bin_v(op, &u, &V::E(*k), flags)
            }
            (V::B(p), V::B(q)) if matches!(op, Bop::And | Bop::Or | Bop::Xor) && p.len() == q.len() => {
                let mut out = vec![];
                for (x, y) in p.iter().zip(q.iter()) {
                    let (x, y) = if *x == UNDEF { (*y, *x) } else { (*x, *y) };
                    let dec = match (op, if x == UNDEF { None } else { self.ar.as_const(x) }) { (Bop::And, Some(0)) | (Bop::Or, Some(255)) => Some(x), _ => None };
                    out.push(if y != UNDEF { self.ar.bin(op, x, y) } else { dec.unwrap_or(UNDEF) });
                }
                self.norm_b(out)
            }
            (V::B(p), V::E(k)) | (V::E(k), V::B(p)) if matches!(op, Bop::And | Bop::Or | Bop::Xor) || (op == Bop::LShr || op == Bop::Shl) && matches!(a, V::B(_)) => {
                let k = *k;
                match op {
                    Bop::And | Bop::Or | Bop::Xor => {
                        let n = p.len();
                        let mut out = vec![];
                        for i in 0..n {
                            let kb = self.ar.extract(k, i as u32 * 8, 8);
                            if p[i] == UNDEF {
                                let dec = match (op, self.ar.as_const(kb)) { (Bop::And, Some(0)) => Some(kb), (Bop::Or, Some(255)) => Some(kb), _ => None };
                                out.push(dec.unwrap_or(UNDEF));
                            } else { out.push(self.ar.bin(op, p[i], kb)); }
                        }
                        self.norm_b(out)
                    }
                    _ => {
                        let Some(s) = self.ar.as_const(k) else { return V::U };
                        if s % 8 != 0 { return V::U; }
                        let s = (s / 8) as usize; let n = p.len();
                        let out: Vec<Id> = (0..n).map(|i| if op == Bop::LShr { if i + s < n { p[i + s] } else { 0 } } else if i >= s { p[i - s] } else { 0 }).collect();
                        self.norm_b(out)
                    }
                }
            }
            _ => V::U,
        }
    }
    pub fn norm_b(&mut self, b: Vec<Id>) -> V {
        let nu = b.iter().filter(|x| **x == UNDEF).count();
        if nu == 0 { V::E(self.ar.concat(&b)) } else if nu == b.len() { V::U } else { V::B(b.into()) }
    }
    pub fn icmp(&mut self, p: Pred, a: Id, b: Id) -> Id {
        match p {
            Pred::Eq => self.ar.eq(a, b), Pred::Ne => self.ar.ne(a, b),
            Pred::Ult => self.ar.cmp(Cop::Ult, a, b), Pred::Ule => self.ar.cmp(Cop::Ule, a, b),
            Pred::Ugt => self.ar.cmp(Cop::Ult, b, a), Pred::Uge => self.ar.cmp(Cop::Ule, b, a),
            Pred::Slt => self.ar.cmp(Cop::Slt, a, b), Pred::Sle => self.ar.cmp(Cop::Sle, a, b),
            Pred::Sgt => self.ar.cmp(Cop::Slt, b, a), Pred::Sge => self.ar.cmp(Cop::Sle, b, a),
        }
    }
    pub fn icmp_v(&mut self, p: Pred, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => { let v: Vec<V> = x.iter().zip(y.iter()).map(|(s, t)| self.icmp_v(p, s, t)).collect(); V::A(v.into()) }
            (V::E(x), V::E(y)) => V::E(self.icmp(p, *x, *y)),
            _ => V::U,
        }
    }
    pub fn flatten_bits(&mut self, v: &V, ty: &Ty) -> Option<Id> {
        match v {
            V::E(e) => Some(*e),
            V::A(l) => { let ft = ty.field(0); let mut p = vec![]; for x in l.iter() { p.push(self.flatten_bits(x, &ft)?); } Some(self.ar.concat(&p)) }
            _ => None,
        }
    }
    fn split_bits(&mut self, e: Id, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => { let b = t.bits(); let v: Vec<V> = (0..*n).map(|i| { let x = self.ar.extract(e, i * b, b); self.split_bits(x, t) }).collect(); V::A(v.into()) }
            _ => V::E(e),
        }
    }
    pub fn undef_of(ty: &Ty) -> V { match ty { Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => V::A((0..ty.nfields()).map(|i| Self::undef_of(&ty.field(i))).collect::<Vec<_>>().into()), _ => V::U } }
    pub fn cast(&mut self, k: CastK, v: V, from: &Ty, to: &Ty) -> Option<V> {
        if let (V::A(l), Ty::Vec(_, t)) = (&v, to) {
            if k != CastK::Bitcast { let ft = from.field(0); let mut out = vec![]; for x in l.iter() { out.push(self.cast(k, x.clone(), &ft, t)?); } return Some(V::A(out.into())); }
        }
        let w = to.bits();
        Some(match (k, v) {
            (CastK::Bitcast, v) => match self.flatten_bits(&v, from) { Some(e) => self.split_bits(e, to), None => Self::undef_of(to) },
            (CastK::ZExt, V::U) if from.bits() % 8 == 0 && w % 8 == 0 && w > from.bits() => { let mut x = vec![0; (w / 8) as usize]; for b in x.iter_mut().take((from.bits() / 8) as usize) { *b = UNDEF; } self.norm_b(x) }
            (_, V::U) => V::U,
            (CastK::SExt, V::B(_)) => V::U,
            (CastK::ZExt, V::E(e)) => V::E(self.ar.zext(e, w)),
            (CastK::SExt, V::E(e)) => V::E(self.ar.sext_to(e, w)),
            (CastK::Trunc, V::E(e)) => V::E(self.ar.extract(e, 0, w)),
            (CastK::PtrToInt | CastK::IntToPtr, V::E(e)) => { let ew = self.ar.w(e); V::E(if w < ew { self.ar.extract(e, 0, w) } else { self.ar.zext(e, w) }) }
            (CastK::Trunc, V::B(b)) => { let n = ((w + 7) / 8) as usize; let x = self.norm_b(b[..n].to_vec()); match x { V::E(e) => V::E(self.ar.extract(e, 0, w)), V::B(b) if w % 8 == 0 => V::B(b), _ => V::U } }
            (CastK::ZExt, V::B(b)) => { let mut x = b.to_vec(); while x.len() < (w / 8) as usize { x.push(0); } self.norm_b(x) }
            (CastK::PtrToInt | CastK::IntToPtr, V::B(b)) => V::B(b),
            _ => return None,
        })
    }
}
