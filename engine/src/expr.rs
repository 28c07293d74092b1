//! Hash-consed bit-vector expressions with local simplification.
use crate::fx::HashMap;
use std::fmt::Write;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cop { Eq, Ult, Ule, Slt, Sle }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    /// `Var(kind, n)`: kind 0 is the n-th symbolic input of the path, kind 1 an absorbed output byte
    Var(u32, u32),
    Bin(Bop, Id, Id),
    Cmp(Cop, Id, Id),
    Ite(Id, Id, Id),
    ZExt(Id),
    SExt(Id),
    /// low bit
    Extract(Id, u32),
    /// least significant part first
    Concat(Rc<[Id]>),
    /// table lookup: entries, index expression; out of range gives 0
    Table(u32, Id),
}

#[derive(Clone)]
pub struct Info {
    pub node: Node,
    pub w: u32,
    /// free variables, sorted by id of the Var node
    pub vars: Rc<[Id]>,
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_has(d: &Dom, v: usize) -> bool { d[v >> 6] >> (v & 63) & 1 == 1 }
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn dom_not(a: &Dom) -> Dom { [!a[0], !a[1], !a[2], !a[3]] }
pub fn dom_empty(a: &Dom) -> bool { a.iter().all(|x| *x == 0) }
pub fn dom_count(a: &Dom) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn dom_first(a: &Dom) -> usize { for i in 0..4 { if a[i] != 0 { return i * 64 + a[i].trailing_zeros() as usize; } } 256 }
/// all values of a w-bit variable
pub fn dom_full(w: u32) -> Dom {
    if w >= 8 { return FULL; }
    let n = 1usize << w;
    let mut d = [0u64; 4];
    for i in 0..n { d[i >> 6] |= 1 << (i & 63); }
    d
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

pub struct Arena {
    pub info: Vec<Info>,
    map: HashMap<(Node, u32), Id>,
    pub tables: Vec<Rc<[u128]>>,
    table_map: HashMap<Rc<[u128]>, u32>,
    no_vars: Rc<[Id]>,
    tt: HashMap<Id, Rc<[u128]>>,
    td: HashMap<Id, Dom>,
    ind: HashMap<(Id, Dom), Id>,
    pub var_names: HashMap<Id, String>,
    pub sep_on: bool,
    pub seps: HashMap<Id, Option<Rc<crate::sep::Sep>>>,
}

pub const TRUE: Id = 257;
pub const FALSE: Id = 256;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { info: vec![], map: HashMap::default(), tables: vec![], table_map: HashMap::default(), no_vars: Rc::from([]), tt: HashMap::default(), td: HashMap::default(), ind: HashMap::default(), var_names: HashMap::default(), sep_on: false, seps: HashMap::default() };
        for i in 0..256u128 { a.mk(Node::Const(i), 8); }
        let f = a.mk(Node::Const(0), 1);
        let t = a.mk(Node::Const(1), 1);
        assert!(f == FALSE && t == TRUE);
        a
    }
    pub fn w(&self, e: Id) -> u32 { self.info[e as usize].w }
    pub fn node(&self, e: Id) -> &Node { &self.info[e as usize].node }
    pub fn vars(&self, e: Id) -> &Rc<[Id]> { &self.info[e as usize].vars }
    #[inline]
    pub fn as_const(&self, e: Id) -> Option<u128> { if let Node::Const(c) = self.info[e as usize].node { Some(c) } else { None } }
    pub fn mk(&mut self, node: Node, w: u32) -> Id {
        let k = (node, w);
        if let Some(i) = self.map.get(&k) { return *i; }
        let id = self.info.len() as Id;
        let vars: Rc<[Id]> = match &k.0 {
            Node::Const(_) => self.no_vars.clone(),
            Node::Var(..) => Rc::from([id]),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) => self.merge_vars(&[*a, *b]),
            Node::Ite(a, b, c) => self.merge_vars(&[*a, *b, *c]),
            Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) | Node::Table(_, a) => self.vars(*a).clone(),
            Node::Concat(l) => { let l = l.clone(); self.merge_vars(&l) }
        };
        self.info.push(Info { node: k.0.clone(), w, vars });
        self.map.insert(k, id);
        id
    }
    fn merge_vars(&self, l: &[Id]) -> Rc<[Id]> {
        let mut first: Option<&Rc<[Id]>> = None;
        let mut same = true;
        for &e in l {
            let v = self.vars(e);
            if v.is_empty() { continue; }
            match first { None => first = Some(v), Some(f) => if !(Rc::ptr_eq(f, v) || f == v) { same = false; } }
        }
        match first {
            None => self.no_vars.clone(),
            Some(f) if same => f.clone(),
            _ => {
                let mut v: Vec<Id> = l.iter().flat_map(|e| self.vars(*e).iter().copied()).collect();
                v.sort(); v.dedup();
                v.into()
            }
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> Id {
        let v = v & mask(w);
        if w == 8 { return v as Id; }
        if w == 1 { return if v == 1 { TRUE } else { FALSE }; }
        self.mk(Node::Const(v), w)
    }
    pub fn var(&mut self, kind: u32, n: u32, w: u32) -> Id { self.mk(Node::Var(kind, n), w) }
    pub fn b(&self, v: bool) -> Id { if v { TRUE } else { FALSE } }
    pub fn not(&mut self, e: Id) -> Id {
        debug_assert_eq!(self.w(e), 1);
        self.bin(Bop::Xor, e, TRUE)
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id { self.bin(Bop::And, a, b) }
    pub fn or(&mut self, a: Id, b: Id) -> Id { self.bin(Bop::Or, a, b) }
    pub fn eq(&mut self, a: Id, b: Id) -> Id { self.cmp(Cop::Eq, a, b) }
    pub fn ne(&mut self, a: Id, b: Id) -> Id { let e = self.eq(a, b); self.not(e) }

    pub fn eval_bin(op: Bop, x: u128, y: u128, w: u32) -> u128 {
        let m = mask(w);
        let r = match op {
            Bop::Add => x.wrapping_add(y),
            Bop::Sub => x.wrapping_sub(y),
            Bop::Mul => x.wrapping_mul(y),
            Bop::UDiv => if y == 0 { m } else { x / y },
            Bop::URem => if y == 0 { x } else { x % y },
            Bop::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
            Bop::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
            Bop::Shl => if y >= w as u128 { 0 } else { x << y },
            Bop::LShr => if y >= w as u128 { 0 } else { x >> y },
            Bop::AShr => { let s = if y >= w as u128 { w - 1 } else { y as u32 }; (sext(x, w) >> s) as u128 }
            Bop::And => x & y,
            Bop::Or => x | y,
            Bop::Xor => x ^ y,
        };
        r & m
    }
    pub fn eval_cmp(op: Cop, x: u128, y: u128, w: u32) -> bool {
        match op {
            Cop::Eq => x == y,
            Cop::Ult => x < y,
            Cop::Ule => x <= y,
            Cop::Slt => sext(x, w) < sext(y, w),
            Cop::Sle => sext(x, w) <= sext(y, w),
        }
    }

    pub fn bin(&mut self, op: Bop, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.c(Self::eval_bin(op, x, y, w), w); }
        if self.sep_on { if let Some(r) = self.sep_bin(op, a, b) { return r; } }
        let m = mask(w);
        use Bop::*;
        // constants to the right for commutative operators
        if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor) { return self.bin(op, b, a); }
        if let Some(y) = cb {
            match (op, y) {
                (Add | Sub | Or | Xor | Shl | LShr | AShr, 0) => return a,
                (Mul | And, 0) => return b,
                (Mul | UDiv, 1) => return a,
                (URem, 1) => return self.c(0, w),
                (And, v) if v == m => return a,
                (Or, v) if v == m => return b,
                (Sub, v) => { let nb = self.c(v.wrapping_neg(), w); return self.bin(Add, a, nb); }
                (Shl | LShr, v) if v >= w as u128 => return self.c(0, w),
                _ => {}
            }
            if op == Add || op == Xor {
                if let Node::Bin(o2, p, q) = *self.node(a) {
                    if o2 == op { if let Some(z) = self.as_const(q) { let k = Self::eval_bin(op, z, y, w); let k = self.c(k, w); return self.bin(op, p, k); } }
                }
            }
            if op == Mul && y.is_power_of_two() {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.bin(Shl, a, k);
            }
            if (op == UDiv || op == URem) && y.is_power_of_two() {
                let k = y.trailing_zeros();
                if op == UDiv { let k = self.c(k as u128, w); return self.bin(LShr, a, k); }
                let lo = self.extract(a, 0, k);
                return self.zext(lo, w);
            }
            // a sum whose low bits are constant on both sides: add those now, carry into the rest
            if op == Add {
                if let Some(parts) = self.parts(a) {
                    if parts.len() > 1 {
                        if let Some(lo) = self.as_const(parts[0]) {
                            let k = self.w(parts[0]);
                            let sum = lo + (y & mask(k)); // k < w <= 128, so this cannot overflow
                            let low = self.c(sum & mask(k), k);
                            let up = ((y >> k) + (sum >> k)) & mask(w - k);
                            let rest = self.concat(&parts[1..]);
                            let up = self.c(up, w - k);
                            let hi = self.bin(Add, rest, up);
                            return self.concat(&[low, hi]);
                        }
                    }
                }
            }
            // shifts by a constant become concatenations
            if op == Shl { let y = y as u32; let lo = self.c(0, y); let hi = self.extract(a, 0, w - y); return self.concat(&[lo, hi]); }
            if op == LShr { let y = y as u32; let hi = self.extract(a, y, w - y); return self.zext(hi, w); }
            if matches!(op, And | Or | Xor) {
                if op == And && y != 0 && (y & (y + 1)) == 0 && y != m {
                    // low mask
                    let k = y.count_ones();
                    let lo = self.extract(a, 0, k);
                    return self.zext(lo, w);
                }
                if let Some(parts) = self.parts(a) {
                    let mut out = vec![]; let mut o = 0;
                    for p in parts { let pw = self.w(p); let k = self.c(y >> o, pw); out.push(self.bin(op, p, k)); o += pw; }
                    return self.concat(&out);
                }
            }
        }
        if a == b {
            match op { Sub | Xor => return self.c(0, w), And | Or => return a, _ => {} }
        }
        if w == 1 {
            match op {
                Add | Sub => return self.bin(Xor, a, b),
                Mul => return self.bin(And, a, b),
                And | Or => {
                    // x op !x
                    if self.is_not_of(a, b) { return self.b(op == Or); }
                }
                Xor => { if self.is_not_of(a, b) { return TRUE; } }
                _ => {}
            }
        }
        if matches!(op, And | Or | Xor) || (op == Add && self.disjoint(a, b)) {
            // align part structure of both sides
            if let (Some(pa), Some(pb)) = (self.parts(a), self.parts(b)) {
                let op = if op == Add { Or } else { op };
                let mut out = vec![];
                let (mut i, mut j, mut oi, mut oj) = (0, 0, 0, 0);
                let mut pos = 0;
                while pos < w {
                    let (wi, wj) = (self.w(pa[i]) - oi, self.w(pb[j]) - oj);
                    let k = wi.min(wj);
                    let x = self.extract(pa[i], oi, k);
                    let y = self.extract(pb[j], oj, k);
                    out.push(self.bin(op, x, y));
                    pos += k; oi += k; oj += k;
                    if oi == self.w(pa[i]) { i += 1; oi = 0; }
                    if oj == self.w(pb[j]) { j += 1; oj = 0; }
                }
                return self.concat(&out);
            }
        }
        if matches!(op, Add | Mul | And | Or | Xor) && a > b { return self.mk(Node::Bin(op, b, a), w); }
        self.mk(Node::Bin(op, a, b), w)
    }
    fn is_not_of(&self, a: Id, b: Id) -> bool {
        if let Node::Bin(Bop::Xor, x, y) = *self.node(a) { if y == TRUE && x == b { return true; } }
        if let Node::Bin(Bop::Xor, x, y) = *self.node(b) { if y == TRUE && x == a { return true; } }
        false
    }
    /// parts of a concatenation-like node (concat, zext) or None
    fn parts(&mut self, e: Id) -> Option<Vec<Id>> {
        match self.node(e).clone() {
            Node::Concat(l) => Some(l.to_vec()),
            Node::ZExt(x) => { let w = self.w(e) - self.w(x); let z = self.c(0, w); let mut v = match self.node(x) { Node::Concat(l) => l.to_vec(), _ => vec![x] }; v.push(z); Some(v) }
            _ => None,
        }
    }
    fn disjoint(&mut self, a: Id, b: Id) -> bool {
        let (pa, pb) = match (self.parts(a), self.parts(b)) { (Some(x), Some(y)) => (x, y), _ => return false };
        let zero = |s: &Self, p: &[Id]| -> u128 { let mut m = 0u128; let mut o = 0; for &x in p { let w = s.w(x); if s.as_const(x) == Some(0) { m |= mask(w) << o; } o += w; } m };
        let (za, zb) = (zero(self, &pa), zero(self, &pb));
        (za | zb) & mask(self.w(a)) == mask(self.w(a))
    }
    pub fn cmp(&mut self, op: Cop, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.b(Self::eval_cmp(op, x, y, w)); }
        if a == b { return self.b(matches!(op, Cop::Eq | Cop::Ule | Cop::Sle)); }
        if self.sep_on { if let Some(r) = self.sep_cmp(op, a, b) { return self.b(r); } }
        if op == Cop::Eq && ca.is_some() { return self.cmp(op, b, a); }
        if op == Cop::Eq && w == 1 {
            if let Some(y) = cb { return if y == 1 { a } else { self.not(a) }; }
            let x = self.bin(Bop::Xor, a, b); return self.not(x);
        }
        if let Some(y) = cb {
            match op {
                Cop::Ult if y == 0 => return FALSE,
                Cop::Ult if y == 1 => { let z = self.c(0, w); return self.eq(a, z); }
                Cop::Ule if y == mask(w) => return TRUE,
                Cop::Ule if y == 0 => { let z = self.c(0, w); return self.eq(a, z); }
                _ => {}
            }
            if let Node::ZExt(x) = *self.node(a) {
                let xw = self.w(x);
                if op == Cop::Eq { if y > mask(xw) { return FALSE; } let k = self.c(y, xw); return self.eq(x, k); }
                if op == Cop::Ult || op == Cop::Ule {
                    if y > mask(xw) { return TRUE; }
                    let k = self.c(y, xw); return self.cmp(op, x, k);
                }
                // signed compare of a zero-extended value with a constant
                let sy = sext(y, w);
                if sy < 0 { return FALSE; }
                let uop = if op == Cop::Slt { Cop::Ult } else { Cop::Ule };
                if y > mask(xw) { return TRUE; }
                let k = self.c(y, xw); return self.cmp(uop, x, k);
            }
            if op == Cop::Eq {
                if let Node::Concat(l) = self.node(a).clone() {
                    // constant parts that differ decide it
                    let mut o = 0; let mut rest = vec![];
                    for &p in l.iter() {
                        let pw = self.w(p); let k = (y >> o) & mask(pw);
                        match self.as_const(p) { Some(c) if c != k => return FALSE, Some(_) => {}, None => rest.push((p, k)) }
                        o += pw;
                    }
                    if rest.len() < l.len() || l.len() <= 16 {
                        let mut r = TRUE;
                        for (p, k) in rest { let pw = self.w(p); let k = self.c(k, pw); let e = self.eq(p, k); r = self.and(r, e); }
                        return r;
                    }
                }
                if let Node::Bin(Bop::Add, p, q) = *self.node(a) { if let Some(z) = self.as_const(q) { let k = self.c(y.wrapping_sub(z), w); return self.eq(p, k); } }
                if let Node::Bin(Bop::Xor, p, q) = *self.node(a) { if let Some(z) = self.as_const(q) { let k = self.c(y ^ z, w); return self.eq(p, k); } }
                if let Node::Ite(c, t, f) = *self.node(a) {
                    let (ct, cf) = (self.as_const(t), self.as_const(f));
                    if ct.is_some() && cf.is_some() {
                        return match (ct == Some(y), cf == Some(y)) { (true, true) => TRUE, (true, false) => c, (false, true) => self.not(c), _ => FALSE };
                    }
                }
            }
        } else if let Some(x) = ca {
            match op {
                Cop::Ult if x == mask(w) => return FALSE,
                Cop::Ule if x == 0 => return TRUE,
                _ => {}
            }
            if let Node::ZExt(y) = *self.node(b) {
                let yw = self.w(y);
                if op == Cop::Ult || op == Cop::Ule {
                    if x > mask(yw) { return FALSE; }
                    let k = self.c(x, yw); return self.cmp(op, k, y);
                }
            }
        } else if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
            if self.w(x) == self.w(y) {
                let op = match op { Cop::Slt => Cop::Ult, Cop::Sle => Cop::Ule, o => o };
                return self.cmp(op, x, y);
            }
        }
        if op == Cop::Eq && a > b { return self.mk(Node::Cmp(op, b, a), 1); }
        self.mk(Node::Cmp(op, a, b), 1)
    }
    pub fn ite(&mut self, c: Id, t: Id, f: Id) -> Id {
        if c == TRUE || t == f { return t; }
        if c == FALSE { return f; }
        let w = self.w(t);
        if w == 1 {
            if t == TRUE && f == FALSE { return c; }
            if t == FALSE && f == TRUE { return self.not(c); }
            if t == TRUE { return self.or(c, f); }
            if f == FALSE { return self.and(c, t); }
            if t == FALSE { let n = self.not(c); return self.and(n, f); }
            if f == TRUE { let n = self.not(c); return self.or(n, t); }
        }
        if let Node::Bin(Bop::Xor, x, k) = *self.node(c) { if k == TRUE { return self.ite(x, f, t); } }
        self.mk(Node::Ite(c, t, f), w)
    }
    pub fn zext(&mut self, e: Id, w: u32) -> Id {
        let ew = self.w(e);
        if ew == w { return e; }
        assert!(ew < w);
        if let Some(c) = self.as_const(e) { return self.c(c, w); }
        if self.sep_on { if let Some(r) = self.sep_zext(e, w) { return r; } }
        if let Node::ZExt(x) = *self.node(e) { return self.mk(Node::ZExt(x), w); }
        if let Node::Concat(l) = self.node(e).clone() {
            // drop constant-zero top parts
            let mut v = l.to_vec();
            let mut cut = false;
            while let Some(&t) = v.last() { if self.as_const(t) == Some(0) { v.pop(); cut = true; } else { break; } }
            if cut { let x = self.concat(&v); return self.zext(x, w); }
        }
        self.mk(Node::ZExt(e), w)
    }
    pub fn sext_to(&mut self, e: Id, w: u32) -> Id {
        let ew = self.w(e);
        if ew == w { return e; }
        if let Some(c) = self.as_const(e) { return self.c(sext(c, ew) as u128, w); }
        if let Node::ZExt(x) = *self.node(e) { return self.zext(x, w); }
        if ew == 1 { let t = self.c(u128::MAX, w); let f = self.c(0, w); return self.ite(e, t, f); }
        self.mk(Node::SExt(e), w)
    }
    pub fn extract(&mut self, e: Id, lo: u32, w: u32) -> Id {
        let ew = self.w(e);
        assert!(lo + w <= ew && w > 0, "extract {} {} of {}", lo, w, ew);
        if lo == 0 && w == ew { return e; }
        if let Some(c) = self.as_const(e) { return self.c(c >> lo, w); }
        if self.sep_on { if let Some(r) = self.sep_extract(e, lo, w) { return r; } }
        match self.node(e).clone() {
            Node::Extract(x, l2) => return self.extract(x, lo + l2, w),
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(0, w); }
                if lo + w <= xw { return self.extract(x, lo, w); }
                let t = self.extract(x, lo, xw - lo);
                return self.zext(t, w);
            }
            Node::SExt(x) => { let xw = self.w(x); if lo + w <= xw { return self.extract(x, lo, w); } }
            Node::Concat(l) => {
                let mut out = vec![]; let mut o = 0; let mut need = w; let mut at = lo;
                for &p in l.iter() {
                    let pw = self.w(p);
                    if need > 0 && at < o + pw {
                        let k = (o + pw - at).min(need);
                        out.push(self.extract(p, at - o, k));
                        at += k; need -= k;
                    }
                    o += pw;
                }
                return self.concat(&out);
            }
            Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), a, b) => {
                let x = self.extract(a, lo, w); let y = self.extract(b, lo, w);
                return self.bin(op, x, y);
            }
            Node::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, lo, w); let y = self.extract(b, lo, w);
                return self.bin(op, x, y);
            }
            Node::Ite(c, t, f) if self.as_const(t).is_some() || self.as_const(f).is_some() => {
                let t = self.extract(t, lo, w); let f = self.extract(f, lo, w);
                return self.ite(c, t, f);
            }
            _ => {}
        }
        self.mk(Node::Extract(e, lo), w)
    }
    /// least significant first
    pub fn concat(&mut self, parts: &[Id]) -> Id {
        let mut flat: Vec<Id> = Vec::with_capacity(parts.len());
        for &p in parts {
            match self.node(p).clone() {
                Node::Concat(l) => flat.extend_from_slice(&l),
                Node::ZExt(x) => { let w = self.w(p) - self.w(x); let z = self.c(0, w); match self.node(x).clone() { Node::Concat(l) => flat.extend_from_slice(&l), _ => flat.push(x) } flat.push(z); }
                _ => flat.push(p),
            }
        }
        let mut out: Vec<Id> = Vec::with_capacity(flat.len());
        for p in flat {
            if let Some(&q) = out.last() {
                if let (Some(x), Some(y)) = (self.as_const(q), self.as_const(p)) {
                    let (qw, pw) = (self.w(q), self.w(p));
                    if qw + pw <= 128 { out.pop(); let m = self.c(x | y << qw, qw + pw); out.push(m); continue; }
                }
                // adjacent extracts of the same value
                let (eq, lq) = match *self.node(q) { Node::Extract(e, l) => (e, l), _ => (q, 0) };
                if let Node::Extract(ep, lp) = *self.node(p) {
                    if ep == eq && lp == lq + self.w(q) && (eq != q || lq == 0) && eq != q {
                        let wq = self.w(q); let wp = self.w(p);
                        out.pop(); let m = self.extract(ep, lq, wq + wp); out.push(m); continue;
                    }
                }
            }
            out.push(p);
        }
        if out.len() == 1 { return out[0]; }
        let w: u32 = out.iter().map(|p| self.w(*p)).sum();
        assert!(w <= 128 * 4, "concat too wide {}", w);
        // trailing constant zero: zero extension
        let last = *out.last().unwrap();
        if self.as_const(last) == Some(0) {
            out.pop();
            let x = self.concat(&out);
            return self.mk(Node::ZExt(x), w);
        }
        self.mk(Node::Concat(out.into()), w)
    }
    pub fn table_id(&mut self, t: Vec<u128>) -> u32 {
        let t: Rc<[u128]> = t.into();
        if let Some(i) = self.table_map.get(&t) { return *i; }
        let i = self.tables.len() as u32;
        self.tables.push(t.clone());
        self.table_map.insert(t, i);
        i
    }
    pub fn table(&mut self, t: Vec<u128>, idx: Id, w: u32) -> Id {
        if let Some(c) = self.as_const(idx) { return self.c(t.get(c as usize).copied().unwrap_or(0), w); }
        if t.iter().all(|x| *x == t[0]) && (self.w(idx) < 32 && t.len() as u128 > mask(self.w(idx))) { return self.c(t[0], w); }
        let id = self.table_id(t);
        self.mk(Node::Table(id, idx), w)
    }
    /// the single free variable if it is at most 8 bits wide
    pub fn small_var(&self, e: Id) -> Option<Id> {
        let v = self.vars(e);
        if v.len() == 1 && self.w(v[0]) <= 8 { Some(v[0]) } else { None }
    }
    /// value for each value of the single small variable
    pub fn truth(&mut self, e: Id) -> Rc<[u128]> {
        if let Some(t) = self.tt.get(&e) { return t.clone(); }
        let var = self.small_var(e).expect("small var");
        let n = 1usize << self.w(var);
        let w = self.w(e);
        let get = |s: &mut Self, x: Id| -> Rc<[u128]> { if let Some(c) = s.as_const(x) { vec![c; n].into() } else { s.truth(x) } };
        let r: Rc<[u128]> = match self.node(e).clone() {
            Node::Const(c) => vec![c; n].into(),
            Node::Var(..) => (0..n as u128).collect(),
            Node::Bin(op, a, b) => { let (x, y) = (get(self, a), get(self, b)); (0..n).map(|i| Self::eval_bin(op, x[i], y[i], w)).collect() }
            Node::Cmp(op, a, b) => { let aw = self.w(a); let (x, y) = (get(self, a), get(self, b)); (0..n).map(|i| Self::eval_cmp(op, x[i], y[i], aw) as u128).collect() }
            Node::Ite(c, t, f) => { let (c, t, f) = (get(self, c), get(self, t), get(self, f)); (0..n).map(|i| if c[i] == 1 { t[i] } else { f[i] }).collect() }
            Node::ZExt(a) => get(self, a),
            Node::SExt(a) => { let aw = self.w(a); let x = get(self, a); (0..n).map(|i| sext(x[i], aw) as u128 & mask(w)).collect() }
            Node::Extract(a, lo) => { let x = get(self, a); (0..n).map(|i| (x[i] >> lo) & mask(w)).collect() }
            Node::Concat(l) => {
                let mut r = vec![0u128; n]; let mut o = 0;
                for &p in l.iter() { let pw = self.w(p); let x = get(self, p); for i in 0..n { r[i] |= x[i] << o; } o += pw; }
                r.into()
            }
            Node::Table(t, a) => { let x = get(self, a); let t = self.tables[t as usize].clone(); (0..n).map(|i| t.get(x[i] as usize).copied().unwrap_or(0)).collect() }
        };
        self.tt.insert(e, r.clone());
        r
    }
    pub fn truth_dom(&mut self, e: Id) -> Dom {
        if let Some(d) = self.td.get(&e) { return *d; }
        let t = self.truth(e);
        let mut d = [0u64; 4];
        for (i, v) in t.iter().enumerate() { if *v == 1 { d[i >> 6] |= 1 << (i & 63); } }
        self.td.insert(e, d);
        d
    }
    /// membership expression of a small variable in a domain
    pub fn in_dom(&mut self, var: Id, d: &Dom) -> Id {
        let w = self.w(var);
        if *d == dom_full(w) { return TRUE; }
        if let Some(r) = self.ind.get(&(var, *d)) { return *r; }
        let n = 1usize << w;
        let t: Vec<u128> = (0..n).map(|i| dom_has(d, i) as u128).collect();
        let r = self.table(t, var, 1);
        self.ind.insert((var, *d), r);
        r
    }
    pub fn rebuild(&mut self, e: Id, f: &mut dyn FnMut(&mut Self, Id) -> Id) -> Id {
        match self.node(e).clone() {
            Node::Const(_) | Node::Var(..) => e,
            Node::Bin(op, a, b) => { let x = f(self, a); let y = f(self, b); if x == a && y == b { e } else { self.bin(op, x, y) } }
            Node::Cmp(op, a, b) => { let x = f(self, a); let y = f(self, b); if x == a && y == b { e } else { self.cmp(op, x, y) } }
            Node::Ite(c, t, g) => { let c2 = f(self, c); let t2 = f(self, t); let g2 = f(self, g); if c2 == c && t2 == t && g2 == g { e } else { self.ite(c2, t2, g2) } }
            Node::ZExt(a) => { let w = self.w(e); let x = f(self, a); if x == a { e } else { self.zext(x, w) } }
            Node::SExt(a) => { let w = self.w(e); let x = f(self, a); if x == a { e } else { self.sext_to(x, w) } }
            Node::Extract(a, lo) => { let w = self.w(e); let x = f(self, a); if x == a { e } else { self.extract(x, lo, w) } }
            Node::Concat(l) => { let v: Vec<Id> = l.iter().map(|p| f(self, *p)).collect(); if v[..] == l[..] { e } else { self.concat(&v) } }
            Node::Table(t, a) => { let w = self.w(e); let x = f(self, a); if x == a { e } else if let Some(c) = self.as_const(x) { let v = self.tables[t as usize].get(c as usize).copied().unwrap_or(0); self.c(v, w) } else { self.mk(Node::Table(t, x), w) } }
        }
    }
    /// concrete value under an assignment of variables (missing ones are 0)
    pub fn eval(&self, e: Id, env: &HashMap<Id, u128>, memo: &mut HashMap<Id, u128>) -> u128 {
        if let Some(c) = self.as_const(e) { return c; }
        if let Some(v) = memo.get(&e) { return *v; }
        let w = self.w(e);
        let r = match self.node(e).clone() {
            Node::Const(c) => c,
            Node::Var(..) => env.get(&e).copied().unwrap_or(0),
            Node::Bin(op, a, b) => Self::eval_bin(op, self.eval(a, env, memo), self.eval(b, env, memo), w),
            Node::Cmp(op, a, b) => Self::eval_cmp(op, self.eval(a, env, memo), self.eval(b, env, memo), self.w(a)) as u128,
            Node::Ite(c, t, f) => if self.eval(c, env, memo) == 1 { self.eval(t, env, memo) } else { self.eval(f, env, memo) },
            Node::ZExt(a) => self.eval(a, env, memo),
            Node::SExt(a) => sext(self.eval(a, env, memo), self.w(a)) as u128 & mask(w),
            Node::Extract(a, lo) => (self.eval(a, env, memo) >> lo) & mask(w),
            Node::Concat(l) => { let mut r = 0; let mut o = 0; for &p in l.iter() { r |= self.eval(p, env, memo) << o; o += self.w(p); } r }
            Node::Table(t, a) => self.tables[t as usize].get(self.eval(a, env, memo) as usize).copied().unwrap_or(0),
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: Id) -> String {
        let mut s = String::new(); self.show_to(e, &mut s, 0); s
    }
    fn show_to(&self, e: Id, s: &mut String, d: u32) {
        if d > 8 { s.push('…'); return; }
        match self.node(e).clone() {
            Node::Const(c) => { let _ = write!(s, "{:#x}", c); }
            Node::Var(k, n) => { let _ = write!(s, "{}{}", if k == 0 { "v" } else { "o" }, n); }
            Node::Bin(op, a, b) => { let _ = write!(s, "({:?} ", op); self.show_to(a, s, d + 1); s.push(' '); self.show_to(b, s, d + 1); s.push(')'); }
            Node::Cmp(op, a, b) => { let _ = write!(s, "({:?} ", op); self.show_to(a, s, d + 1); s.push(' '); self.show_to(b, s, d + 1); s.push(')'); }
            Node::Ite(c, t, f) => { s.push_str("(ite "); self.show_to(c, s, d + 1); s.push(' '); self.show_to(t, s, d + 1); s.push(' '); self.show_to(f, s, d + 1); s.push(')'); }
            Node::ZExt(a) => { let _ = write!(s, "(zext{} ", self.w(e)); self.show_to(a, s, d + 1); s.push(')'); }
            Node::SExt(a) => { let _ = write!(s, "(sext{} ", self.w(e)); self.show_to(a, s, d + 1); s.push(')'); }
            Node::Extract(a, l) => { self.show_to(a, s, d + 1); let _ = write!(s, "[{}+{}]", l, self.w(e)); }
            Node::Concat(l) => { s.push_str("(cat"); for p in l.iter().take(6) { s.push(' '); self.show_to(*p, s, d + 1); } s.push(')'); }
            Node::Table(t, a) => { let _ = write!(s, "(tab{} ", t); self.show_to(a, s, d + 1); s.push(')'); }
        }
    }
}
