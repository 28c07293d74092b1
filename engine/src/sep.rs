//! Separable arithmetic: e = c0 + sum of f_v(v) over small variables v, modulo 2^w.
//! Numbers given by their decimal digits stay tractable under division, remainder and comparison by constants.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Sep {
    pub w: u32,
    pub c0: u128,
    /// variable and its values, modulo 2^w, 0 for the variable's value 0; never all zero
    pub f: Vec<(Id, Rc<[u128]>)>,
    /// range of the integer c0 + sum f with every term read as a signed number, if it can be told
    pub lo: i128,
    pub hi: i128,
    pub ranged: bool,
    /// terms read as unsigned numbers
    uns: bool,
}
fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }

impl Sep {
    fn new(w: u32, c0: u128, mut f: Vec<(Id, Rc<[u128]>)>) -> Sep {
        let m = mask(w);
        let mut c0 = c0 & m;
        f.sort_by_key(|x| x.0);
        for x in f.iter_mut() {
            let z = x.1[0] & m;
            if z != 0 || x.1.iter().any(|v| *v & !m != 0) { c0 = c0.wrapping_add(z) & m; x.1 = x.1.iter().map(|v| v.wrapping_sub(z) & m).collect(); }
        }
        f.retain(|x| x.1.iter().any(|v| *v != 0));
        let (mut lo, mut hi, mut ranged) = (Some(sext(c0, w)), Some(sext(c0, w)), true);
        for (_, t) in &f {
            lo = lo.and_then(|l| l.checked_add(t.iter().map(|v| sext(*v, w)).min().unwrap()));
            hi = hi.and_then(|l| l.checked_add(t.iter().map(|v| sext(*v, w)).max().unwrap()));
        }
        if lo.is_none() || hi.is_none() { ranged = false; }
        let r = Sep { w, c0, f, lo: lo.unwrap_or(0), hi: hi.unwrap_or(0), ranged, uns: false };
        if r.exact() || w > 64 { return r; }
        let hi = r.c0 + r.f.iter().map(|x| *x.1.iter().max().unwrap()).sum::<u128>();
        if hi <= m { return Sep { lo: r.c0 as i128, hi: hi as i128, ranged: true, uns: true, ..r }; }
        r
    }
    /// the integer lies in [0, 2^w): the value is that integer
    fn exact(&self) -> bool { self.ranged && self.lo >= 0 && (self.w >= 127 || self.hi < 1i128 << self.w) }
    /// values with the smallest one taken out: (constant, nonnegative tables)
    fn pos(&self) -> (u128, Vec<(Id, Vec<u128>)>) {
        if self.uns { return (self.c0, self.f.iter().map(|(v, t)| (*v, t.to_vec())).collect()); }
        let mut c = sext(self.c0, self.w);
        let mut o = vec![];
        for (v, t) in &self.f {
            let m = t.iter().map(|x| sext(*x, self.w)).min().unwrap();
            c += m;
            o.push((*v, t.iter().map(|x| (sext(*x, self.w) - m) as u128).collect()));
        }
        (c as u128, o)
    }
}

impl Arena {
    fn sep_of(&mut self, e: Id) -> Option<Rc<Sep>> {
        if let Some(r) = self.seps.get(&e) { return r.clone(); }
        let w = self.w(e);
        let r = if let Some(c) = self.as_const(e) { Some(Sep::new(w, c, vec![])) }
            else if let Some(v) = self.small_var(e) { let t = self.truth(e); Some(Sep::new(w, 0, vec![(v, t)])) }
            else {
                match self.node(e).clone() {
                    Node::ZExt(a) => self.sep_of(a).filter(|s| s.exact()).map(|s| Sep::new(w, s.c0, s.f.clone())).map(|s| s),
                    Node::Concat(l) => {
                        let mut c0 = 0u128; let mut f: Vec<(Id, Rc<[u128]>)> = vec![]; let mut o = 0; let mut ok = true;
                        for &p in l.iter() {
                            let pw = self.w(p);
                            match self.sep_of(p).filter(|s| s.exact()) {
                                Some(s) => {
                                    let (c, t) = s.pos();
                                    c0 = c0.wrapping_add(c << o);
                                    for (v, t) in t { f = add_term(f, v, t.iter().map(|x| x << o).collect(), mask(w)); }
                                }
                                None => { ok = false; break; }
                            }
                            o += pw;
                        }
                        if ok && w <= 128 { Some(Sep::new(w, c0, f)) } else { None }
                    }
                    _ => None,
                }
            };
        let r = r.map(Rc::new);
        self.seps.insert(e, r.clone());
        r
    }
    fn from_sep(&mut self, s: Sep) -> Id {
        let w = s.w;
        let mut acc: Option<Id> = None;
        let mut c0 = s.c0;
        for (v, t) in &s.f {
            // a single variable keeps its constant
            let t: Vec<u128> = if s.f.len() == 1 { let k = c0; t.iter().map(|x| x.wrapping_add(k) & mask(w)).collect() } else { t.to_vec() };
            let e = self.table(t, *v, w);
            acc = Some(match acc { None => e, Some(a) => self.mk(Node::Bin(Bop::Add, a, e), w) });
        }
        if s.f.len() == 1 { c0 = 0; }
        let r = match acc { None => return self.c(c0, w), Some(a) if c0 == 0 => a, Some(a) => { let k = self.c(c0, w); self.mk(Node::Bin(Bop::Add, a, k), w) } };
        self.seps.insert(r, Some(Rc::new(s)));
        r
    }
    pub fn sep_bin(&mut self, op: Bop, a: Id, b: Id) -> Option<Id> {
        use Bop::*;
        if !matches!(op, Add | Sub | Mul | UDiv | URem | Xor | Shl | LShr) { return None; }
        let w = self.w(a);
        if w > 128 || (self.vars(a).is_empty() && self.vars(b).is_empty()) { return None; }
        if self.vars(a).len() <= 1 && self.vars(b).len() <= 1 && self.vars(a) == self.vars(b) { return None; }
        let (x, y) = (self.sep_of(a)?, self.sep_of(b)?);
        let m = mask(w);
        let scale = |s: &Sep, k: u128| Sep::new(w, s.c0.wrapping_mul(k), s.f.iter().map(|(v, t)| (*v, t.iter().map(|x| x.wrapping_mul(k) & m).collect())).collect());
        let add = |x: &Sep, y: &Sep| {
            let mut f = x.f.clone();
            for (v, t) in &y.f { f = add_term(f, *v, t.to_vec(), m); }
            Sep::new(w, x.c0.wrapping_add(y.c0), f)
        };
        let k = if y.f.is_empty() { Some(y.c0) } else { None };
        let kx = if x.f.is_empty() { Some(x.c0) } else { None };
        let r = match op {
            Add => add(&x, &y),
            Sub => { let n = scale(&y, m); add(&x, &n) }
            Mul => if let Some(k) = k { scale(&x, k) } else if let Some(k) = kx { scale(&y, k) } else { return None },
            Shl => { let k = k?; if k >= w as u128 { return None; } scale(&x, 1 << k) }
            LShr => { let k = k?; if k >= w as u128 || !x.exact() { return None; } let q = self.sep_div(&x, 1u128 << k)?; q }
            Xor => {
                // complement: -1 - x
                let (s, k) = match (k, kx) { (Some(k), _) => (&x, k), (_, Some(k)) => (&y, k), _ => return None };
                if k != m { return None; }
                let n = scale(s, m);
                let one = Sep::new(w, m, vec![]);
                add(&n, &one)
            }
            UDiv => { let k = k?; if k == 0 || !x.exact() { return None; } self.sep_div(&x, k)? }
            URem => {
                let k = k?; if k == 0 || !x.exact() { return None; }
                let q = self.sep_div(&x, k)?;
                let n = scale(&q, k.wrapping_neg());
                let r = add(&x, &n);
                if !(r.exact() && r.hi < k as i128) { return None; }
                r
            }
            _ => return None,
        };
        if std::env::var("SEPDBG").is_ok() { eprintln!("sep {:?} w{} vars {} -> c0 {} vars {} exact {} [{},{}]", op, w, x.f.len(), r.c0, r.f.len(), r.exact(), r.lo, r.hi); }
        Some(self.from_sep(r))
    }
    /// floor(s / k) for an exact s
    fn sep_div(&mut self, s: &Sep, k: u128) -> Option<Sep> {
        let (c, t) = s.pos();
        let (c, t) = div(c, t, k, 0)?;
        Some(Sep::new(s.w, c, t.into_iter().map(|(v, t)| (v, t.into())).collect()))
    }
    /// floor(e / 2^lo) modulo 2^w
    pub fn sep_extract(&mut self, e: Id, lo: u32, w: u32) -> Option<Id> {
        if self.vars(e).len() <= 1 { return None; }
        let s = self.sep_of(e)?;
        if !s.exact() { return None; }
        let q = if lo == 0 { (*s).clone() } else { self.sep_div(&s, 1 << lo)? };
        if w < 127 && q.hi >= 1i128 << w { return None; }
        let (c, p) = q.pos();
        let r = Sep::new(w, c, p.into_iter().map(|(v, t)| (v, t.into())).collect());
        if !r.exact() { return None; }
        Some(self.from_sep(r))
    }
    pub fn sep_zext(&mut self, e: Id, w: u32) -> Option<Id> {
        if self.vars(e).len() <= 1 { return None; }
        let s = self.sep_of(e)?;
        if !s.exact() || w > 128 { return None; }
        let (c, p) = s.pos();
        Some(self.from_sep(Sep::new(w, c, p.into_iter().map(|(v, t)| (v, t.into())).collect())))
    }
    pub fn sep_cmp(&mut self, op: Cop, a: Id, b: Id) -> Option<bool> {
        if self.vars(a).is_empty() && self.vars(b).is_empty() { return None; }
        let (x, y) = (self.sep_of(a)?, self.sep_of(b)?);
        let half = 1i128.checked_shl(self.w(a) - 1).unwrap_or(i128::MAX);
        match op {
            Cop::Ult if x.exact() && y.exact() => if x.hi < y.lo { Some(true) } else if x.lo >= y.hi { Some(false) } else { None },
            Cop::Ule if x.exact() && y.exact() => if x.hi <= y.lo { Some(true) } else if x.lo > y.hi { Some(false) } else { None },
            Cop::Eq if x.exact() && y.exact() => if x.hi < y.lo || x.lo > y.hi { Some(false) } else { None },
            Cop::Slt | Cop::Sle if x.ranged && y.ranged => {
                if self.w(a) > 64 { return None; }
                // bring each into the signed range by one multiple of 2^w
                let full = 2 * half;
                let norm = |s: &Sep| if s.lo >= -half && s.hi < half { Some((s.lo, s.hi)) } else if s.lo >= half && s.hi < full { Some((s.lo - full, s.hi - full)) } else if s.hi < -half && s.lo >= -full { Some((s.lo + full, s.hi + full)) } else { None };
                let ((xl, xh), (yl, yh)) = (norm(&x)?, norm(&y)?);
                if op == Cop::Slt { if xh < yl { Some(true) } else if xl >= yh { Some(false) } else { None } } else if xh <= yl { Some(true) } else if xl > yh { Some(false) } else { None }
            }
            _ => None,
        }
    }
}
fn add_term(mut f: Vec<(Id, Rc<[u128]>)>, v: Id, t: Vec<u128>, m: u128) -> Vec<(Id, Rc<[u128]>)> {
    if let Some(x) = f.iter_mut().find(|x| x.0 == v) { x.1 = x.1.iter().zip(&t).map(|(a, b)| a.wrapping_add(*b) & m).collect(); return f; }
    f.push((v, t.into()));
    f
}
/// floor((c + sum t) / k), all nonnegative
fn div(c: u128, t: Vec<(Id, Vec<u128>)>, k: u128, depth: u32) -> Option<(u128, Vec<(Id, Vec<u128>)>)> {
    if k == 1 { return Some((c, t)); }
    if depth > 12 { return None; }
    let t: Vec<_> = t.into_iter().filter(|x| x.1.iter().any(|v| *v != 0)).collect();
    if t.is_empty() { return Some((c / k, t)); }
    let gs: Vec<u128> = t.iter().map(|x| x.1.iter().fold(0, |a, b| gcd(a, *b))).collect();
    // split at d: multiples of d, and a rest
    let mut cands = vec![k];
    for g in &gs { let d = gcd(*g, k); if d > 1 && !cands.contains(&d) { cands.push(d); } }
    { let d = gcd(c, k); if d > 1 && !cands.contains(&d) { cands.push(d); } }
    cands.sort(); cands.reverse();
    for d in cands {
        let rest: Vec<usize> = (0..t.len()).filter(|i| gs[*i] % d != 0).collect();
        let cr = c % d;
        let max: u128 = rest.iter().map(|i| *t[*i].1.iter().max().unwrap()).sum::<u128>() + cr;
        let mut q: Vec<(Id, Vec<u128>)> = t.iter().enumerate().filter(|(i, _)| !rest.contains(i)).map(|(_, x)| (x.0, x.1.iter().map(|v| v / d).collect())).collect();
        if max < d { return div(c / d, q, k / d, depth + 1); }
        if rest.len() == 1 {
            let x = &t[rest[0]];
            let nt: Vec<u128> = x.1.iter().map(|v| (v + cr) / d).collect();
            q.push((x.0, nt));
            return div(c / d, q, k / d, depth + 1);
        }
    }
    // multiplication by a reciprocal: k a power of two, everything a multiple of g, k / g close to an integer
    if k.is_power_of_two() {
        let g = gs.iter().fold(c, |a, b| gcd(a, *b));
        if g > 1 {
            let q = (k + g - 1) / g;
            let e = q.checked_mul(g)? - k;
            let max = (c + t.iter().map(|x| *x.1.iter().max().unwrap()).sum::<u128>()) / g;
            if e.checked_mul(max)? < k { return div(c / g, t.into_iter().map(|x| (x.0, x.1.iter().map(|v| v / g).collect())).collect(), q, depth + 1); }
        }
    }
    None
}
