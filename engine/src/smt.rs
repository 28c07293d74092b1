//! SMT-LIB back end: one incremental solver process, every distinct node defined once.
use crate::expr::*;
use crate::fx::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, PartialEq, Debug)]
pub enum Res { Sat(HashMap<Id, u128>), Unsat, Unknown }

pub struct Solver {
    cmd: Vec<String>,
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<Id>,
    tables: HashSet<u32>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    cache: HashMap<Vec<Id>, bool>,
    pub cache_hits: u64,
    canon_memo: HashMap<(Id, Vec<Id>), Id>,
    pub log: Option<std::fs::File>,
}

fn spawn(cmd: &[String]) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut c = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("solver");
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, i, o)
}

impl Solver {
    pub fn new(cmd: &[String]) -> Self {
        let (child, inp, out) = spawn(cmd);
        let mut s = Solver { cmd: cmd.to_vec(), child, inp, out, defined: HashSet::default(), tables: HashSet::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, cache: HashMap::default(), cache_hits: 0, canon_memo: HashMap::default(), log: None };
        s.prologue();
        s
    }
    fn prologue(&mut self) {
        self.send("(set-option :produce-models true)\n(set-logic QF_BV)\n");
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn(&self.cmd.clone());
        self.child = c; self.inp = i; self.out = o;
        self.defined.clear(); self.tables.clear();
        self.prologue();
    }
    fn send(&mut self, t: &str) {
        if let Some(l) = &mut self.log { let _ = l.write_all(t.as_bytes()); }
        let _ = self.inp.write_all(t.as_bytes());
    }
    fn line(&mut self) -> Option<String> {
        let mut l = String::new();
        match self.out.read_line(&mut l) { Ok(0) | Err(_) => None, Ok(_) => Some(l.trim().to_string()) }
    }
    fn cst(v: u128, w: u32) -> String { if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("#b{:0width$b}", v, width = w as usize) } }
    fn name(ar: &Arena, e: Id) -> String {
        match ar.node(e) { Node::Const(c) => Self::cst(*c, ar.w(e)), Node::Var(k, n) => format!("x{}_{}_{}", k, n, ar.w(e)), _ => format!("e{}", e) }
    }
    fn define(&mut self, ar: &Arena, root: Id, out: &mut String) {
        // iterative post-order
        let mut st = vec![(root, false)];
        while let Some((e, done)) = st.pop() {
            if self.defined.contains(&e) { continue; }
            let node = ar.node(e).clone();
            let kids: Vec<Id> = match &node {
                Node::Const(_) => continue,
                Node::Var(..) => { let _ = writeln!(out, "(declare-const {} (_ BitVec {}))", Self::name(ar, e), ar.w(e)); self.defined.insert(e); continue; }
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) => vec![*a, *b],
                Node::Ite(a, b, c) => vec![*a, *b, *c],
                Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) | Node::Table(_, a) => vec![*a],
                Node::Concat(l) => l.to_vec(),
            };
            if !done {
                st.push((e, true));
                for k in kids { if !self.defined.contains(&k) { st.push((k, false)); } }
                continue;
            }
            let n = |x: Id| Self::name(ar, x);
            let w = ar.w(e);
            let body = match &node {
                Node::Bin(op, a, b) => { let o = match op { Bop::Add => "bvadd", Bop::Sub => "bvsub", Bop::Mul => "bvmul", Bop::UDiv => "bvudiv", Bop::URem => "bvurem", Bop::SDiv => "bvsdiv", Bop::SRem => "bvsrem", Bop::Shl => "bvshl", Bop::LShr => "bvlshr", Bop::AShr => "bvashr", Bop::And => "bvand", Bop::Or => "bvor", Bop::Xor => "bvxor" }; format!("({} {} {})", o, n(*a), n(*b)) }
                Node::Cmp(op, a, b) => { let o = match op { Cop::Eq => "=", Cop::Ult => "bvult", Cop::Ule => "bvule", Cop::Slt => "bvslt", Cop::Sle => "bvsle" }; format!("(ite ({} {} {}) #b1 #b0)", o, n(*a), n(*b)) }
                Node::Ite(c, t, f) => format!("(ite (= {} #b1) {} {})", n(*c), n(*t), n(*f)),
                Node::ZExt(a) => format!("((_ zero_extend {}) {})", w - ar.w(*a), n(*a)),
                Node::SExt(a) => format!("((_ sign_extend {}) {})", w - ar.w(*a), n(*a)),
                Node::Extract(a, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, n(*a)),
                Node::Concat(l) => { let mut s = String::from("(concat"); for p in l.iter().rev() { s.push(' '); s.push_str(&n(*p)); } s.push(')'); s }
                Node::Table(t, a) => { self.table(ar, *t, ar.w(*a), w, out); format!("(tab{}_{}_{} {})", t, ar.w(*a), w, n(*a)) }
                _ => unreachable!(),
            };
            let _ = writeln!(out, "(define-fun e{} () (_ BitVec {}) {})", e, w, body);
            self.defined.insert(e);
        }
    }
    fn table(&mut self, ar: &Arena, t: u32, iw: u32, w: u32, out: &mut String) {
        let key = t << 12 | iw << 5 | (w & 31);
        if !self.tables.insert(key) { return; }
        let tab = &ar.tables[t as usize];
        // runs of equal values
        let mut runs: HashMap<u128, Vec<(usize, usize)>> = HashMap::default();
        let mut i = 0;
        let n = tab.len().min(if iw < 20 { 1 << iw } else { usize::MAX });
        while i < n { let mut j = i; while j + 1 < n && tab[j + 1] == tab[i] { j += 1; } runs.entry(tab[i]).or_default().push((i, j)); i = j + 1; }
        let covers = iw < 20 && n == 1 << iw;
        let default = if covers { *runs.iter().max_by_key(|(v, r)| (r.len(), **v)).unwrap().0 } else { 0 };
        let mut keys: Vec<_> = runs.iter().filter(|(v, _)| **v != default).collect();
        keys.sort();
        let mut s = Self::cst(default & mask(w), w);
        for (v, rs) in keys {
            let conds: Vec<String> = rs.iter().map(|(a, b)| if a == b { format!("(= x {})", Self::cst(*a as u128, iw)) } else { format!("(and (bvule {} x) (bvule x {}))", Self::cst(*a as u128, iw), Self::cst(*b as u128, iw)) }).collect();
            let c = if conds.len() == 1 { conds[0].clone() } else { format!("(or {})", conds.join(" ")) };
            s = format!("(ite {} {} {})", c, Self::cst(*v & mask(w), w), s);
        }
        let _ = writeln!(out, "(define-fun tab{}_{}_{} ((x (_ BitVec {}))) (_ BitVec {}) {})", t, iw, w, iw, w, s);
    }
    /// satisfiability of a conjunction of 1-bit expressions
    pub fn check(&mut self, ar: &Arena, conds: &[Id], model: bool, timeout_ms: u64) -> Res {
        let mut cs: Vec<Id> = vec![];
        for &c in conds { if c == FALSE { return Res::Unsat; } if c != TRUE && !cs.contains(&c) { cs.push(c); } }
        if cs.is_empty() && !model { return Res::Sat(HashMap::default()); }
        let t0 = Instant::now();
        let mut text = String::new();
        for &c in &cs { self.define(ar, c, &mut text); }
        let _ = writeln!(text, "(push 1)");
        for &c in &cs { let _ = writeln!(text, "(assert (= {} #b1))", Self::name(ar, c)); }
        if self.cmd[0].contains("z3") { let _ = writeln!(text, "(set-option :timeout {})", timeout_ms); }
        let _ = writeln!(text, "(check-sat)");
        self.send(&text);
        let _ = self.inp.flush();
        let r = self.line();
        self.queries += 1;
        let res = match r.as_deref() {
            Some("sat") => {
                let mut m = HashMap::default();
                if model {
                    let mut vs: Vec<Id> = cs.iter().flat_map(|c| ar.vars(*c).iter().copied()).collect();
                    vs.sort(); vs.dedup();
                    for v in vs {
                        let q = format!("(get-value ({}))\n", Self::name(ar, v));
                        self.send(&q);
                        let _ = self.inp.flush();
                        let l = self.line().unwrap_or_default();
                        // ((x0_1_8 #x41))
                        if let Some(p) = l.rfind('#') {
                            let t: String = l[p + 1..].chars().take_while(|c| *c != ')').collect();
                            let v128 = if let Some(h) = t.strip_prefix('x') { u128::from_str_radix(h, 16) } else { u128::from_str_radix(&t[1..], 2) };
                            if let Ok(x) = v128 { m.insert(v, x); }
                        }
                    }
                }
                self.sat += 1;
                Res::Sat(m)
            }
            Some("unsat") => { self.unsat += 1; Res::Unsat }
            other => {
                self.unknown += 1;
                match other {
                    Some("unknown") | Some("timeout") => {}
                    _ => { eprintln!("solver said {:?}; restarting", other); self.restart(); self.time += t0.elapsed().as_secs_f64(); return Res::Unknown; }
                }
                Res::Unknown
            }
        };
        self.send("(pop 1)\n");
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if self.defined.len() > 400_000 { self.restart(); }
        res
    }
    /// rename variables in order of first occurrence
    pub fn canon(&mut self, ar: &mut Arena, conds: &[Id]) -> Vec<Id> {
        let mut order: Vec<Id> = vec![];
        fn visit(ar: &Arena, e: Id, order: &mut Vec<Id>, seen: &mut HashSet<Id>) {
            if !seen.insert(e) { return; }
            match ar.node(e) {
                Node::Const(_) => {}
                Node::Var(..) => order.push(e),
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) => { visit(ar, *a, order, seen); visit(ar, *b, order, seen); }
                Node::Ite(a, b, c) => { visit(ar, *a, order, seen); visit(ar, *b, order, seen); visit(ar, *c, order, seen); }
                Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) | Node::Table(_, a) => visit(ar, *a, order, seen),
                Node::Concat(l) => { for p in l.iter() { visit(ar, *p, order, seen); } }
            }
        }
        let mut seen = HashSet::default();
        for &c in conds { visit(ar, c, &mut order, &mut seen); }
        let mut map: HashMap<Id, Id> = HashMap::default();
        for (i, v) in order.iter().enumerate() { let w = ar.w(*v); let nv = ar.var(9, i as u32, w); map.insert(*v, nv); }
        fn ren(ar: &mut Arena, e: Id, map: &mut HashMap<Id, Id>) -> Id {
            if let Some(r) = map.get(&e) { return *r; }
            if ar.vars(e).is_empty() { return e; }
            let r = ar.rebuild(e, &mut |ar, x| ren(ar, x, map));
            map.insert(e, r);
            r
        }
        let mut v: Vec<Id> = conds.iter().map(|c| ren(ar, *c, &mut map)).collect();
        v.sort(); v.dedup();
        let _ = &self.canon_memo;
        v
    }
    /// cached satisfiability, None when the solver gave no answer
    pub fn sat(&mut self, ar: &mut Arena, conds: &[Id], timeout_ms: u64) -> Option<bool> {
        if conds.iter().any(|c| *c == FALSE) { return Some(false); }
        let cs: Vec<Id> = conds.iter().copied().filter(|c| *c != TRUE).collect();
        if cs.is_empty() { return Some(true); }
        let k = self.canon(ar, &cs);
        if k.iter().any(|c| *c == FALSE) { return Some(false); }
        if let Some(r) = self.cache.get(&k) { self.cache_hits += 1; return Some(*r); }
        match self.check(ar, &k, false, timeout_ms) {
            Res::Sat(_) => { self.cache.insert(k, true); Some(true) }
            Res::Unsat => { self.cache.insert(k, false); Some(false) }
            Res::Unknown => None,
        }
    }
}
impl Drop for Solver { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
