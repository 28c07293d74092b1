//! External functions: allocator, LLVM intrinsics, CPU identification, harness interface, atomics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ALLOC_LIMIT: u64 = 1 << 20;
pub const ROOMY_LIMIT: u64 = 1 << 24;
/// where large blocks are wanted: the largest there is
pub const BIG_LIMIT: u64 = 1 << 34;

impl<'m> Exec<'m> {
    fn arg(&mut self, st: &State, av: &[V], i: usize) -> R<Id> { let v = av[i].clone(); self.scal(st, v, "as an argument") }
    fn argc(&mut self, st: &mut State, av: &[V], i: usize) -> R<u64> { let e = self.arg(st, av, i)?; Ok(self.concretize(st, e)? as u64) }

    pub fn ext(&mut self, st: &mut State, name: &str, ret: &Ty, av: &[V], args: &[(Ty, Op)]) -> R<V> {
        if let Some(n) = name.strip_prefix("vf_") { return self.harness(st, n, av); }
        if let Some(n) = name.strip_prefix("llvm.") { return self.llvm(st, n, ret, av, args); }
        if name.ends_with("___rust_alloc") || name.ends_with("___rust_alloc_zeroed") || name == "__rust_alloc" || name == "__rust_alloc_zeroed" {
            let size = self.arg(st, av, 0)?;
            let align = self.argc(st, av, 1)?;
            return self.alloc(st, size, align, name.ends_with("zeroed"));
        }
        if name.ends_with("__rust_dealloc") {
            let p = self.argc(st, av, 0)?; let s = self.arg(st, av, 1)?; let a = self.argc(st, av, 2)?;
            self.free_any(st, p, s, a, "dealloc")?;
            return Ok(V::U);
        }
        if name.ends_with("__rust_realloc") {
            let p = self.argc(st, av, 0)?; let s = self.arg(st, av, 1)?; let a = self.argc(st, av, 2)?;
            let ns = self.arg(st, av, 3)?;
            let lim = self.k64(i64::MAX as u64 - (a - 1));
            let c = self.ar.cmp(Cop::Ule, ns, lim);
            self.check(st, c, "realloc to more than isize::MAX bytes")?;
            let z = self.k64(0);
            let c = self.ar.ne(ns, z);
            self.check(st, c, "realloc to zero bytes")?;
            let big = self.k64(if st.memo.contains_key(&(0xfff9_0000, 0)) { ROOMY_LIMIT } else { ALLOC_LIMIT });
            let c = self.ar.cmp(Cop::Ule, ns, big);
            if !self.need(st, c)? {
                if self.is_big(st, ns)? {
                    let o = self.free_any(st, p, s, a, "realloc")?;
                    let q = self.new_big(st, ns, a, o.bytes.clone());
                    return Ok(V::E(self.k64(q)));
                }
                // the allocator refuses; the old block stays
                let num = p >> 32;
                let o = match st.mem.get(&num) { Some(o) if o.alive && o.base == p && o.align == a => o.clone(), _ => return self.bad(st, "realloc of a block with another size or alignment") };
                let sz = match o.big { Some(b) => b, None => self.k64(o.size) };
                let c = self.ar.eq(sz, s);
                self.check(st, c, "realloc of a block with another size or alignment")?;
                return Ok(V::E(self.k64(0)));
            }
            let n = self.concretize(st, ns)? as u64;
            let o = self.free_any(st, p, s, a, "realloc")?;
            if o.big.is_some() && n > o.size { return self.unsup(st, "a large block made smaller"); }
            let q = self.new_heap(st, n, a, false);
            let k = o.size.min(n) as usize;
            let b = o.bytes[..k].to_vec();
            self.write(st, q, &b, 1)?;
            return Ok(V::E(self.k64(q)));
        }
        if name.ends_with("__rust_alloc_error_handler") { *self.st.unsupported.entry("~out of memory".into()).or_insert(0) += 1; return Err(Stop::Kill); }
        if name.contains("__rust_no_alloc_shim") { return Ok(V::U); }
        match name {
            "memcmp" | "bcmp" => {
                let p = self.argc(st, av, 0)?; let q = self.argc(st, av, 1)?; let n = self.argc(st, av, 2)?;
                let a = self.read(st, p, n, 1)?; let b = self.read(st, q, n, 1)?;
                let mut r = self.ar.c(0, 32);
                for i in (0..n as usize).rev() {
                    if a[i] == UNDEF || b[i] == UNDEF { return self.bad(st, "comparison of uninitialised memory"); }
                    let (x, y) = (self.refine(st, a[i]), self.refine(st, b[i]));
                    let q = self.ar.eq(x, y);
                    let (zx, zy) = (self.ar.zext(x, 32), self.ar.zext(y, 32));
                    let d = self.ar.bin(Bop::Sub, zx, zy);
                    r = self.ar.ite(q, r, d);
                }
                // decide equality now, byte by byte
                if self.ar.as_const(r).is_none() {
                    for i in 0..n as usize {
                        let q = self.ar.eq(a[i], b[i]);
                        if !self.need(st, q)? {
                            let (x, y) = (self.refine(st, a[i]), self.refine(st, b[i]));
                            let lt = self.ar.cmp(Cop::Ult, x, y);
                            let (m1, p1) = (self.ar.c(u128::MAX, 32), self.ar.c(1, 32));
                            return Ok(V::E(self.ar.ite(lt, m1, p1)));
                        }
                    }
                    r = self.ar.c(0, 32);
                }
                return Ok(V::E(r));
            }
            "memcpy" | "memmove" => { self.copy(st, av, name == "memcpy")?; return Ok(av[0].clone()); }
            "strlen" => {
                let p = self.argc(st, av, 0)?;
                let mut n = 0;
                loop { let b = self.read(st, p + n, 1, 1)?; let q = self.ar.eq(b[0], 0); if self.need(st, q)? { break; } n += 1; }
                return Ok(V::E(self.k64(n)));
            }
            "abort" => return self.bad(st, "abort"),
            _ => {}
        }
        let d = demangle(name);
        self.unsup(st, &format!("external function {}", d))
    }
    fn alloc(&mut self, st: &mut State, size: Id, align: u64, zero: bool) -> R<V> {
        if align == 0 || !align.is_power_of_two() { return self.bad(st, "allocation with a bad alignment"); }
        let lim = self.k64(i64::MAX as u64 - (align - 1));
        let c = self.ar.cmp(Cop::Ule, size, lim);
        self.check(st, c, "allocation of more than isize::MAX bytes")?;
        let z = self.k64(0);
        let c = self.ar.ne(size, z);
        self.check(st, c, "allocation of zero bytes")?;
        let big = self.k64(if st.memo.contains_key(&(0xfff9_0000, 0)) { ROOMY_LIMIT } else { ALLOC_LIMIT });
        let c = self.ar.cmp(Cop::Ule, size, big);
        if !self.need(st, c)? {
            if self.is_big(st, size)? && !zero { let p = self.new_big(st, size, align, vec![]); return Ok(V::E(self.k64(p))); }
            return Ok(V::E(self.k64(0)));
        }
        let n = self.concretize(st, size)? as u64;
        let p = self.new_heap(st, n, align, zero);
        Ok(V::E(self.k64(p)))
    }
    /// does the allocator have a block of this (large) size?
    fn is_big(&mut self, st: &mut State, size: Id) -> R<bool> {
        if !st.memo.contains_key(&(0xfffa_0000, 0)) { return Ok(false); }
        let big = self.k64(BIG_LIMIT);
        let c = self.ar.cmp(Cop::Ule, size, big);
        self.need(st, c)
    }
    fn copy(&mut self, st: &mut State, av: &[V], nonoverlap: bool) -> R<()> {
        let n = self.argc(st, av, 2)?;
        if n == 0 { return Ok(()); }
        let d = self.argc(st, av, 0)?;
        let s = self.arg(st, av, 1)?;
        let b = self.load_at(st, s, n, 1)?;
        if nonoverlap { let s = self.refine(st, s); if let Some(s) = self.ar.as_const(s) { let s = s as u64; if s != d && s < d + n && d < s + n { return self.bad(st, "copy_nonoverlapping of overlapping ranges"); } } }
        self.write(st, d, &b, 1)
    }
    fn llvm(&mut self, st: &mut State, n: &str, ret: &Ty, av: &[V], args: &[(Ty, Op)]) -> R<V> {
        let base = n.split('.').next().unwrap();
        // elementwise on vectors
        if let (Some((Ty::Vec(..), _)), true) = (args.first(), matches!(base, "umin" | "umax" | "smin" | "smax" | "usub" | "uadd" | "ctpop" | "bswap" | "abs")) {
            let len = match &av[0] { V::A(l) => l.len(), _ => 0 };
            let ft = ret.field(0);
            let mut out = vec![];
            for i in 0..len {
                let a2: Vec<V> = av.iter().map(|v| match v { V::A(l) => l[i].clone(), v => v.clone() }).collect();
                let t2: Vec<(Ty, Op)> = args.iter().map(|(t, o)| (if let Ty::Vec(_, t) = t { (**t).clone() } else { t.clone() }, o.clone())).collect();
                if a2.iter().any(|v| matches!(v, V::U)) { out.push(V::U); continue; }
                out.push(self.llvm(st, n, &ft, &a2, &t2)?);
            }
            return Ok(V::A(out.into()));
        }
        match base {
            "memcpy" => { self.copy(st, av, true)?; return Ok(V::U); }
            "memmove" => { self.copy(st, av, false)?; return Ok(V::U); }
            "memset" => {
                let n = self.argc(st, av, 2)?;
                if n == 0 { return Ok(V::U); }
                let d = self.argc(st, av, 0)?;
                let b = match &av[1] { V::E(e) => *e, _ => UNDEF };
                self.write(st, d, &vec![b; n as usize], 1)?;
                return Ok(V::U);
            }
            "lifetime" => {
                let p = match av.last().unwrap() { V::E(e) => self.ar.as_const(*e).unwrap() as u64, _ => return Ok(V::U) };
                let start = n.starts_with("lifetime.start");
                let num = p >> 32;
                if let Some(o) = st.mem.get(&num) { if o.kind == Kind::Stack && o.base == p {
                    let o2 = Rc::make_mut(Rc::make_mut(&mut st.mem).get_mut(&num).unwrap());
                    o2.alive = start;
                    for b in o2.bytes.iter_mut() { *b = UNDEF; }
                    o2.touch();
                } }
                return Ok(V::U);
            }
            "assume" => { if let V::E(e) = av[0] { self.check(st, e, "compiler assumption violated")?; } return Ok(V::U); }
            "expect" => return Ok(av[0].clone()),
            "experimental" | "dbg" | "prefetch" | "donothing" | "invariant" | "va_end" => return Ok(if *ret == Ty::Void { V::U } else { av.get(0).cloned().unwrap_or(V::U) }),
            "is" if n.starts_with("is.constant") => return Ok(V::E(FALSE)),
            "trap" | "debugtrap" | "ubsantrap" => return self.bad(st, "trap"),
            "threadlocal" => return Ok(av[0].clone()),
            _ => {}
        }
        if n.starts_with("x86.") {
            if n.contains("vzero") { return Ok(V::U); }
            if n.contains("xgetbv") { let i = self.argc(st, av, 0)?; let e = self.xgetbv(st, i)?; return Ok(V::E(e)); }
            if n.contains("pmovmskb") || n.contains("movmsk.p") {
                if let V::A(l) = &av[0] {
                    let mut p = vec![];
                    for x in l.iter() { match x { V::E(e) => { let w = self.ar.w(*e); p.push(self.ar.extract(*e, w - 1, 1)); } _ => return Ok(V::U) } }
                    let e = self.ar.concat(&p);
                    return Ok(V::E(self.ar.zext(e, 32)));
                }
            }
            if n.contains("pshuf.b") {
                if let (V::A(a), V::A(m)) = (&av[0], &av[1]) {
                    let mut out = vec![];
                    for (i, x) in m.iter().enumerate() {
                        let k = match x { V::E(e) => { let r = self.refine(st, *e); r } _ => { out.push(V::U); continue; } };
                        let lane = i / 16 * 16;
                        // element k[3:0] of the lane unless the top bit is set
                        let top = self.ar.extract(k, 7, 1);
                        let lo = self.ar.extract(k, 0, 4);
                        let mut r = 0 as Id; let mut undef = false;
                        for j in 0..16 { let c = self.ar.c(j as u128, 4); let q = self.ar.eq(lo, c); if let V::E(v) = a[lane + j] { r = self.ar.ite(q, v, r); } else { undef = true; } }
                        if undef { out.push(V::U); } else { out.push(V::E(self.ar.ite(top, 0, r))); }
                    }
                    return Ok(V::A(out.into()));
                }
            }
            if n.contains("packus") || n.contains("packss") {
                if let (V::A(a), V::A(b)) = (&av[0], &av[1]) {
                    let k = if n.contains(".avx2") { 2 } else { 1 };
                    let per = a.len() / k;
                    let mut out = vec![];
                    for lane in 0..k { for src in [a, b] { for i in 0..per {
                        let V::E(x) = src[lane * per + i] else { out.push(V::U); continue };
                        let w = self.ar.w(x); let h = w / 2;
                        let (lo, hi) = if n.contains("packus") { (0u128, mask(h)) } else { ((1u128 << (h - 1)).wrapping_neg() & mask(w), mask(h - 1)) };
                        let (cl, ch) = (self.ar.c(lo, w), self.ar.c(hi, w));
                        let q = self.ar.cmp(Cop::Slt, x, cl); let g = self.ar.cmp(Cop::Slt, ch, x);
                        let t = self.ar.extract(x, 0, h);
                        let (dl, dh) = (self.ar.c(lo, h), self.ar.c(hi, h));
                        let r = self.ar.ite(g, dh, t);
                        out.push(V::E(self.ar.ite(q, dl, r)));
                    } } }
                    return Ok(V::A(out.into()));
                }
            }
            if n.contains("ptest") {
                if let (Some(a), Some(b)) = (self.flatten_bits(&av[0], &args[0].0), self.flatten_bits(&av[1], &args[1].0)) {
                    let w = self.ar.w(a);
                    let z = self.ar.c(0, w);
                    let r = if n.contains("ptestz") { let x = self.ar.bin(Bop::And, a, b); self.ar.eq(x, z) } else if n.contains("ptestc") { let m = self.ar.c(mask(w), w); let na = self.ar.bin(Bop::Xor, a, m); let x = self.ar.bin(Bop::And, na, b); self.ar.eq(x, z) } else { return self.unsup(st, n) };
                    return Ok(V::E(self.ar.zext(r, 32)));
                }
            }
            return self.unsup(st, &format!("llvm.{}", n));
        }
        if n.starts_with("vector.reduce.") {
            let op = n["vector.reduce.".len()..].split('.').next().unwrap();
            let l = match &av[0] { V::A(l) => l.clone(), _ => return Ok(V::U) };
            let mut acc: Option<Id> = None;
            for x in l.iter() {
                let V::E(e) = x else { return Ok(V::U) };
                acc = Some(match acc { None => *e, Some(a) => match op {
                    "or" => self.ar.bin(Bop::Or, a, *e), "and" => self.ar.bin(Bop::And, a, *e), "xor" => self.ar.bin(Bop::Xor, a, *e), "add" => self.ar.bin(Bop::Add, a, *e), "mul" => self.ar.bin(Bop::Mul, a, *e),
                    "umax" => { let c = self.ar.cmp(Cop::Ult, a, *e); self.ar.ite(c, *e, a) } "umin" => { let c = self.ar.cmp(Cop::Ult, a, *e); self.ar.ite(c, a, *e) }
                    _ => return self.unsup(st, &format!("llvm.{}", n)),
                } });
            }
            return Ok(V::E(acc.unwrap()));
        }
        // scalar arithmetic
        if av.iter().any(|v| matches!(v, V::U | V::B(_))) { return Ok(Self::undef_of(ret)); }
        let a = self.arg(st, av, 0)?;
        let w = self.ar.w(a);
        let r = match base {
            "umin" | "umax" | "smin" | "smax" => {
                let b = self.arg(st, av, 1)?;
                let c = self.ar.cmp(if base.starts_with('u') { Cop::Ult } else { Cop::Slt }, a, b);
                let c = self.refine(st, c);
                if base.ends_with("min") { self.ar.ite(c, a, b) } else { self.ar.ite(c, b, a) }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let b = self.arg(st, av, 1)?;
                let op = match &base[1..] { "add" => Bop::Add, "sub" => Bop::Sub, _ => Bop::Mul };
                let r = self.ar.bin(op, a, b);
                let sg = base.starts_with('s');
                let ov = match (sg, op) {
                    (false, Bop::Add) => self.ar.cmp(Cop::Ult, r, a),
                    (false, Bop::Sub) => self.ar.cmp(Cop::Ult, a, b),
                    (false, _) if self.ar.as_const(b).map_or(false, |k| k != 0) => { let k = self.ar.as_const(b).unwrap(); let q = self.ar.c(mask(w) / k, w); self.ar.cmp(Cop::Ult, q, a) }
                    (false, _) if self.ar.as_const(a).map_or(false, |k| k != 0) => { let k = self.ar.as_const(a).unwrap(); let q = self.ar.c(mask(w) / k, w); self.ar.cmp(Cop::Ult, q, b) }
                    _ => {
                        let w2 = if op == Bop::Mul { 2 * w } else { w + 1 };
                        let (x, y) = if sg { (self.ar.sext_to(a, w2), self.ar.sext_to(b, w2)) } else { (self.ar.zext(a, w2), self.ar.zext(b, w2)) };
                        let full = self.ar.bin(op, x, y);
                        let back = if sg { self.ar.sext_to(r, w2) } else { self.ar.zext(r, w2) };
                        self.ar.ne(full, back)
                    }
                };
                if n.contains("with.overflow") { return Ok(V::A(vec![V::E(r), V::E(ov)].into())); }
                // saturating
                if sg {
                    if op == Bop::Mul { return self.unsup(st, &format!("llvm.{}", n)); }
                    let (mx, mn) = (self.ar.c(mask(w - 1), w), self.ar.c(1u128 << (w - 1), w));
                    let neg = self.ar.extract(a, w - 1, 1);
                    let m = self.ar.ite(neg, mn, mx);
                    return Ok(V::E(self.ar.ite(ov, m, r)));
                }
                let m = self.ar.c(if op == Bop::Sub { 0 } else { mask(w) }, w);
                self.ar.ite(ov, m, r)
            }
            "ctpop" => { let mut s = self.ar.c(0, w); for i in 0..w { let b = self.ar.extract(a, i, 1); let z = self.ar.zext(b, w); s = self.ar.bin(Bop::Add, s, z); } s }
            "cttz" | "ctlz" => {
                let a = self.refine(st, a);
                if let (Some(_), None) = (self.ar.small_var(a), self.ar.as_const(a)) {
                    // keep it as a function of the variable
                    let v = self.ar.small_var(a).unwrap();
                    let t = self.ar.truth(a);
                    let tab: Vec<u128> = t.iter().map(|x| if base == "cttz" { if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 } } else { (x.leading_zeros() - (128 - w)) as u128 }).collect();
                    return Ok(V::E(self.ar.table(tab, v, w)));
                }
                let mut k = w;
                for i in 0..w { let bit = if base == "cttz" { i } else { w - 1 - i }; let e = self.ar.extract(a, bit, 1); if self.need(st, e)? { k = i; break; } }
                if k == w { if let V::E(z) = av[1] { if z == TRUE { return Ok(V::U); } } }
                self.ar.c(k as u128, w)
            }
            "bswap" => { let p: Vec<Id> = (0..w / 8).rev().map(|i| self.ar.extract(a, i * 8, 8)).collect(); self.ar.concat(&p) }
            "bitreverse" => { let p: Vec<Id> = (0..w).rev().map(|i| self.ar.extract(a, i, 1)).collect(); self.ar.concat(&p) }
            "fshl" | "fshr" => {
                let b = self.arg(st, av, 1)?; let s = self.arg(st, av, 2)?;
                let s = self.concretize(st, s)? as u32 % w;
                let c = self.ar.concat(&[b, a]);
                if base == "fshl" { self.ar.extract(c, w - s, w) } else { self.ar.extract(c, s, w) }
            }
            "abs" => { let z = self.ar.c(0, w); let c = self.ar.cmp(Cop::Slt, a, z); let neg = self.ar.bin(Bop::Sub, z, a); self.ar.ite(c, neg, a) }
            "ucmp" | "scmp" => {
                let b = self.arg(st, av, 1)?; let rw = ret.bits();
                let op = if base == "ucmp" { Cop::Ult } else { Cop::Slt };
                let lt = self.ar.cmp(op, a, b); let gt = self.ar.cmp(op, b, a);
                let (m1, z, p1) = (self.ar.c(u128::MAX, rw), self.ar.c(0, rw), self.ar.c(1, rw));
                let x = self.ar.ite(gt, p1, z);
                self.ar.ite(lt, m1, x)
            }
            "ptrmask" => { let b = self.arg(st, av, 1)?; self.ar.bin(Bop::And, a, b) }
            "fabs" => { let m = self.ar.c(mask(w - 1), w); self.ar.bin(Bop::And, a, m) }
            "copysign" => { let b = self.arg(st, av, 1)?; let m = self.ar.c(mask(w - 1), w); let x = self.ar.bin(Bop::And, a, m); let s = self.ar.c(1u128 << (w - 1), w); let y = self.ar.bin(Bop::And, b, s); self.ar.bin(Bop::Or, x, y) }
            "fptosi" | "fptoui" => { let a = self.refine(st, a); match self.ar.fp_to_int(a, &args[0].0, ret.bits(), base == "fptosi") { Some(r) => r, None => return self.unsup(st, &format!("llvm.{}", n)) } }
            "trunc" | "floor" | "ceil" | "round" | "rint" | "nearbyint" | "roundeven" | "sqrt" => { let a = self.refine(st, a); match self.ar.fround(base, a) { Some(r) => r, None => return self.unsup(st, &format!("llvm.{}", n)) } }
            "is" if n.starts_with("is.fpclass") => {
                let k = match av[1] { V::E(e) => self.ar.as_const(e).unwrap_or(0), _ => 0 };
                let a = self.refine(st, a);
                self.ar.fclass(a, k)
            }
            _ => return self.unsup(st, &format!("llvm.{}", n)),
        };
        Ok(V::E(r))
    }

    // ---- floats --------------------------------------------------------------------------------
    pub fn fcmp(&mut self, p: &str, ty: &Ty, a: Id, b: Id) -> Option<Id> {
        let w = ty.bits();
        let inf = if w == 64 { 0x7ff0_0000_0000_0000u128 } else { 0x7f80_0000 };
        let nan = |s: &mut Self, x: Id| { let m = s.ar.extract(x, 0, w - 1); let k = s.ar.c(inf, w - 1); s.ar.cmp(Cop::Ult, k, m) };
        let (na, nb) = (nan(self, a), nan(self, b));
        let uno = self.ar.or(na, nb);
        let ord = self.ar.not(uno);
        let za = { let m = self.ar.extract(a, 0, w - 1); let z = self.ar.c(0, w - 1); self.ar.eq(m, z) };
        let zb = { let m = self.ar.extract(b, 0, w - 1); let z = self.ar.c(0, w - 1); self.ar.eq(m, z) };
        let bz = self.ar.and(za, zb);
        let be = self.ar.eq(a, b);
        let eq0 = self.ar.or(be, bz);
        let key = |s: &mut Self, x: Id| { let sg = s.ar.extract(x, w - 1, 1); let m = s.ar.c(mask(w), w); let n = s.ar.bin(Bop::Xor, x, m); let t = s.ar.c(1u128 << (w - 1), w); let o = s.ar.bin(Bop::Or, x, t); s.ar.ite(sg, n, o) };
        let (ka, kb) = (key(self, a), key(self, b));
        let nbz = self.ar.not(bz);
        let lt = { let c = self.ar.cmp(Cop::Ult, ka, kb); self.ar.and(c, nbz) };
        let gt = { let c = self.ar.cmp(Cop::Ult, kb, ka); self.ar.and(c, nbz) };
        let (unordered, rel) = match p { "false" => return Some(FALSE), "true" => return Some(TRUE), "ord" => return Some(ord), "uno" => return Some(uno), p => (p.starts_with('u'), &p[1..]) };
        let r = match rel { "eq" => eq0, "ne" => self.ar.not(eq0), "lt" => lt, "gt" => gt, "le" => self.ar.or(lt, eq0), "ge" => self.ar.or(gt, eq0), _ => return None };
        Some(if unordered { self.ar.or(uno, r) } else { self.ar.and(ord, r) })
    }

    // ---- CPU -----------------------------------------------------------------------------------
    fn memo_get(&mut self, st: &mut State, k: (u64, u64), mk: impl FnOnce(&mut Self, &mut State) -> Vec<Id>) -> Rc<Vec<Id>> {
        if let Some(l) = st.memo.get(&k) { return l.clone(); }
        let l = Rc::new(mk(self, st));
        Rc::make_mut(&mut st.memo).insert(k, l.clone());
        l
    }
    /// eax, ebx, ecx, edx of a leaf: any values the architecture allows
    pub fn cpuid(&mut self, st: &mut State, leaf: u64, sub: u64) -> Rc<Vec<Id>> {
        if self.tape.is_some() && !st.memo.contains_key(&(0xfffb_0000, 0)) {
            let r = self.fixed_cpu.get(&(leaf, sub)).copied().unwrap_or([0; 4]);
            return Rc::new(r.iter().map(|x| self.ar.c(*x as u128, 32)).collect());
        }
        let fixed = st.memo.get(&(0xfffb_0000, 0)).map(|l| l[0]);
        if let Some(p) = fixed {
            let r = cpu_profile(self.ar.as_const(p).unwrap() as u32, leaf);
            return Rc::new(r.iter().map(|x| self.ar.c(*x as u128, 32)).collect());
        }
        self.memo_get(st, (leaf, sub), |s, st| {
            let bits = |s: &mut Self, st: &mut State| { let p: Vec<Id> = (0..32).map(|_| s.cpuvar(st, 1)).collect(); s.ar.concat(&p) };
            match leaf {
                0 => {
                    let m = s.cpuvar(st, 5);
                    let max = s.ar.zext(m, 32);
                    let v = s.cpuvar(st, 1);
                    let word = |s: &mut Self, a: &[u8; 4], b: &[u8; 4]| { let (x, y) = (u32::from_le_bytes(*a), u32::from_le_bytes(*b)); let (x, y) = (s.ar.c(x as u128, 32), s.ar.c(y as u128, 32)); s.ar.ite(v, y, x) };
                    let ebx = word(s, b"Genu", b"Auth"); let edx = word(s, b"ineI", b"enti"); let ecx = word(s, b"ntel", b"cAMD");
                    vec![max, ebx, ecx, edx]
                }
                0x8000_0000 => { let m = s.cpuvar(st, 5); let hi = s.ar.c(0x8000_0000 >> 5, 27); let e = s.ar.concat(&[m, hi]); let z = s.ar.c(0, 32); vec![e, z, z, z] }
                1 | 7 | 0x8000_0001 => { let z = s.ar.c(0, 32); let b = bits(s, st); let c = bits(s, st); let d = bits(s, st); if leaf == 1 { vec![z, z, c, d] } else { vec![z, b, c, d] } }
                _ => { let z = s.ar.c(0, 32); vec![z, z, z, z] }
            }
        })
    }
    pub fn xgetbv(&mut self, st: &mut State, i: u64) -> R<Id> {
        let c = self.cpu_bit(st, 1, 2, 27);
        self.check(st, c, "XGETBV executed although the operating system has not enabled XSAVE")?;
        let l = self.memo_get(st, (0xffff_0000, i), |s, st| s.xcr0(st));
        Ok(l[0])
    }
    fn xcr0(&mut self, st: &mut State) -> Vec<Id> {
        if st.memo.contains_key(&(0xfffb_0000, 0)) { return vec![self.ar.c(7, 64)]; }
        if self.tape.is_some() { let r = self.fixed_cpu.get(&(0xffff_0000, 0)).map_or(0, |r| r[0]); return vec![self.ar.c(r as u128, 64)]; }
        let p: Vec<Id> = (0..8).map(|_| self.cpuvar(st, 1)).collect();
        let e = self.ar.concat(&p);
        vec![self.ar.zext(e, 64)]
    }
    fn cpu_bit(&mut self, st: &mut State, leaf: u64, reg: usize, bit: u32) -> Id {
        let base = if leaf >= 0x8000_0000 { 0x8000_0000 } else { 0 };
        let max = self.cpuid(st, base, 0)[0];
        let k = self.ar.c(leaf as u128, 32);
        let ok = self.ar.cmp(Cop::Ule, k, max);
        let l = self.cpuid(st, leaf, 0);
        let b = self.ar.extract(l[reg], bit, 1);
        self.ar.and(ok, b)
    }
    /// executing code compiled for extra CPU features needs those features
    pub fn features(&mut self, st: &mut State, feats: &str, name: &str) -> R<()> {
        let list: Vec<&str> = feats.split(',').filter_map(|f| f.strip_prefix('+')).collect();
        let has = |f: &str| list.contains(&f);
        let mut conds: Vec<(String, Id)> = vec![];
        let avx_like = list.iter().any(|f| f.starts_with("avx") || *f == "fma" || *f == "f16c");
        let done = st.memo.contains_key(&(0xfffe_0000, fnv(feats)));
        if done { return Ok(()); }
        for f in &list {
            let c = match *f {
                "x87" | "fxsr" | "sse" | "sse2" | "mmx" | "cmov" | "cx8" | "crc32" | "64bit" | "64bit-mode" | "evex512" => continue,
                "sse3" | "ssse3" | "sse4.1" | "sse4.2" | "popcnt" if avx_like => continue,
                "sse3" => self.cpu_bit(st, 1, 2, 0), "ssse3" => self.cpu_bit(st, 1, 2, 9), "sse4.1" => self.cpu_bit(st, 1, 2, 19), "sse4.2" => self.cpu_bit(st, 1, 2, 20), "popcnt" => self.cpu_bit(st, 1, 2, 23),
                "avx" | "avx2" | "fma" | "f16c" => {
                    let a = self.cpu_bit(st, 1, 2, 28); let o = self.cpu_bit(st, 1, 2, 27);
                    let mut c = self.ar.and(a, o);
                    if self.feasible(st, c) {
                        let x = self.memo_get(st, (0xffff_0000, 0), |s, st| s.xcr0(st))[0];
                        let p = self.ar.extract(x, 1, 1); let q = self.ar.extract(x, 2, 1);
                        let pq = self.ar.and(p, q);
                        c = self.ar.and(c, pq);
                    }
                    match *f { "avx2" => { let b = self.cpu_bit(st, 7, 1, 5); self.ar.and(c, b) } "fma" => { let b = self.cpu_bit(st, 1, 2, 12); self.ar.and(c, b) } "f16c" => { let b = self.cpu_bit(st, 1, 2, 29); self.ar.and(c, b) } _ => c }
                }
                "bmi" => self.cpu_bit(st, 7, 1, 3), "bmi2" => self.cpu_bit(st, 7, 1, 8), "lzcnt" => self.cpu_bit(st, 0x8000_0001, 2, 5), "xsave" => { let a = self.cpu_bit(st, 1, 2, 26); let b = self.cpu_bit(st, 1, 2, 27); self.ar.or(a, b) }
                _ => FALSE,
            };
            conds.push((f.to_string(), c));
        }
        let _ = has;
        for (f, c) in conds {
            self.check(st, c, &format!("code compiled for {} executed on a CPU that does not report it ({})", f, demangle(name)))?;
        }
        Rc::make_mut(&mut st.memo).insert((0xfffe_0000, fnv(feats)), Rc::new(vec![]));
        Ok(())
    }
    pub fn asm(&mut self, st: &mut State, text: &str, args: &[(Ty, Op)]) -> R<()> {
        let av: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
        let v = if text.contains("cpuid") {
            // outputs: ebx, eax, ecx, edx (ebx saved around the instruction); inputs: leaf, subleaf
            let outs: Vec<&str> = text.split('|').nth(1).unwrap_or("").split(',').filter(|s| s.starts_with('=')).collect();
            let leaf = self.argc(st, &av, 0)?; let sub = if av.len() > 1 { self.argc(st, &av, 1)? } else { 0 };
            let l = self.cpuid(st, leaf & 0xffff_ffff, sub & 0xffff_ffff);
            let mut out = vec![];
            for o in &outs { out.push(if o.contains("ax}") { l[0] } else if o.contains("cx}") { l[2] } else if o.contains("dx}") { l[3] } else { l[1] }); }
            // the scratch register is 64 bits wide when the type says so
            V::A(out.into_iter().map(V::E).collect::<Vec<_>>().into())
        } else if text.contains("xgetbv") {
            let i = if av.is_empty() { 0 } else { self.argc(st, &av, 0)? };
            let e = self.xgetbv(st, i)?;
            let lo = self.ar.extract(e, 0, 32); let hi = self.ar.extract(e, 32, 32);
            V::A(vec![V::E(lo), V::E(hi)].into())
        } else if text.split('|').next() == Some("") {
            // an empty template only hides a value from the optimiser
            V::U
        } else { return self.unsup(st, &format!("inline assembly {}", text)) };
        self.finish(st, v)
    }
    fn finish(&mut self, st: &mut State, v: V) -> R<()> {
        // adjust widths of struct results to the declared type
        let m = self.m;
        let (f, b, ip) = { let t = st.frames.last().unwrap(); (t.f, t.blk, t.ip) };
        let i = &m.funcs[f as usize].blocks[b as usize].ins[ip];
        let v = match (&i.ins, v) {
            (Ins::Call { ret: rt @ Ty::Struct(..), .. }, V::A(l)) => {
                let mut out = vec![];
                for (k, x) in l.iter().enumerate() { let w = rt.field(k).bits(); out.push(match x { V::E(e) if self.ar.w(*e) < w => V::E(self.ar.zext(*e, w)), x => x.clone() }); }
                V::A(out.into())
            }
            (_, v) => v,
        };
        let t = Self::top(st);
        if let Some(d) = i.dst { t.regs[d as usize] = v; }
        t.ip += 1;
        Ok(())
    }

    // ---- atomics -------------------------------------------------------------------------------
    fn shared(&self, addr: u64) -> bool { let n = addr >> 32; n >= GL_BASE && n < INPUT_BASE && self.m.globals.get((n - GL_BASE) as usize).map_or(false, |g| !g.constant) }
    pub fn read_atomic(&mut self, st: &mut State, a: u64, n: u64, align: u64, ord: u8) -> R<Vec<Id>> {
        if !st.atom.on || !self.shared(a) { return self.read(st, a, n, if ord > 0 { n } else { align }); }
        self.read(st, a, n, align)?;
        let t = st.atom.thread;
        let low = st.atom.view.get(&t).and_then(|v| v.get(&a)).copied().unwrap_or(0);
        let Some(h) = st.atom.hist.get(&a).cloned() else { return self.read(st, a, n, align) };
        let last = h.len() - 1;
        if ord == 0 {
            if low < last { return self.bad(st, "data race: unsynchronised plain read of a shared variable another thread wrote"); }
            return Ok(h[last].0.clone());
        }
        // which message is read is up to the schedule
        let mut idx = last;
        if low < last {
            let key = (0xfffd_0000u64, 0);
            let c = self.memo_get(st, key, |s, st| vec![s.fresh(st, 8)])[0];
            let k = self.ar.c((last - low) as u128, 8);
            let q = self.ar.cmp(Cop::Ule, c, k);
            self.hist_cons(st, q);
            self.assume(st, q)?;
            idx = last - self.concretize(st, c)? as usize;
            Rc::make_mut(&mut st.memo).remove(&key);
        }
        let rel = h[idx].1.clone();
        let at = Rc::make_mut(&mut st.atom);
        let v = at.view.entry(t).or_default();
        let e = v.entry(a).or_insert(0); *e = (*e).max(idx);
        if ord >= 2 { if let Some(r) = rel { for (k, x) in r { let e = v.entry(k).or_insert(0); *e = (*e).max(x); } } }
        Ok(h[idx].0.clone())
    }
    pub fn read_rmw(&mut self, st: &mut State, a: u64, n: u64, ord: u8) -> R<Vec<Id>> {
        if !st.atom.on || !self.shared(a) { return self.read(st, a, n, n); }
        let t = st.atom.thread;
        let b = self.read(st, a, n, n)?;
        if let Some(h) = st.atom.hist.get(&a).cloned() {
            let last = h.len() - 1;
            let at = Rc::make_mut(&mut st.atom);
            let v = at.view.entry(t).or_default();
            v.insert(a, last);
            if ord >= 2 { if let Some(r) = &h[last].1 { for (k, x) in r { let e = v.entry(*k).or_insert(0); *e = (*e).max(*x); } } }
        }
        Ok(b)
    }
    pub fn write_atomic(&mut self, st: &mut State, a: u64, b: &[Id], align: u64, ord: u8) -> R<()> {
        if st.atom.on && self.shared(a) {
            let t = st.atom.thread;
            let old = self.read(st, a, b.len() as u64, 1)?;
            let low = st.atom.view.get(&t).and_then(|v| v.get(&a)).copied().unwrap_or(0);
            if let Some(h) = st.atom.hist.get(&a) { if ord == 0 && low + 1 < h.len() { return self.bad(st, "data race: unsynchronised plain write of a shared variable another thread wrote"); } }
            let at = Rc::make_mut(&mut st.atom);
            let h = at.hist.entry(a).or_insert_with(|| vec![(old, None)]);
            let idx = h.len();
            let view = at.view.entry(t).or_default();
            view.insert(a, idx);
            let rel = if ord >= 2 { Some(view.clone()) } else { None };
            h.push((b.to_vec(), rel));
        }
        self.write(st, a, b, align)
    }

    // ---- harness interface -----------------------------------------------------------------------
    fn harness(&mut self, st: &mut State, n: &str, av: &[V]) -> R<V> {
        Ok(match n {
            "param" => { let i = self.argc(st, av, 0)? as usize; let v = self.params.get(i).copied().unwrap_or(0); V::E(self.k64(v as u64)) }
            "u8" => V::E(self.fresh(st, 8)),
            "u16" => V::E(self.fresh(st, 16)),
            "u32" => V::E(self.fresh(st, 32)),
            "u64" => V::E(self.fresh(st, 64)),
            "bool" => { let v = self.fresh(st, 1); V::E(self.ar.zext(v, 8)) }
            // a number below n, decided here
            "choose" => {
                let n = self.argc(st, av, 0)?;
                let key = (0xfffc_0000u64, 0);
                if n == 0 || n > 65536 { return self.unsup(st, "choose"); }
                let w = if n > 256 { 16 } else { 8 };
                let c = self.memo_get(st, key, |s, st| vec![s.fresh(st, w)])[0];
                let k = self.ar.c(n as u128 - 1, w);
                let q = self.ar.cmp(Cop::Ule, c, k);
                self.hist_cons(st, q);
                self.assume(st, q)?;
                let v = self.concretize(st, c)? as u64;
                Rc::make_mut(&mut st.memo).remove(&key);
                V::E(self.k64(v))
            }
            "concretize" => { let v = self.argc(st, av, 0)?; V::E(self.k64(v)) }
            "input" => {
                let len = self.argc(st, av, 0)?; let mis = self.argc(st, av, 1)?;
                let bytes: Vec<Id> = (0..len).map(|_| self.fresh(st, 8)).collect();
                let num = INPUT_BASE + st.ninputs as u64;
                st.ninputs += 1;
                let base = num << 32 | (0x1000 + mis);
                self.add_obj(st, num, base, len, 1, Kind::Input, bytes);
                V::E(self.k64(base))
            }
            "utf8" => {
                let p = self.argc(st, av, 0)?; let n = self.argc(st, av, 1)?;
                let b = self.read(st, p, n, 1)?;
                let c = self.utf8(&b);
                Rc::make_mut(&mut st.lazy).push(c);
                V::U
            }
            "ascii" => {
                let p = self.argc(st, av, 0)?; let n = self.argc(st, av, 1)?;
                let b = self.read(st, p, n, 1)?;
                for x in b { let q = self.ar.cmp(Cop::Ult, x, 0x80); self.hist_cons(st, q); self.assume(st, q)?; }
                V::U
            }
            "assume" => {
                let c = self.arg(st, av, 0)?;
                let w = self.ar.w(c); let z = self.ar.c(0, w); let q = self.ar.ne(c, z);
                let q = self.refine(st, q);
                if !self.feasible(st, q) { return Err(Stop::Kill); }
                self.hist_cons(st, q);
                self.assume(st, q)?;
                V::U
            }
            "assert" => {
                let c = self.arg(st, av, 0)?; let code = self.argc(st, av, 1)?;
                if self.soft && code != 3 { return Ok(V::U); }
                let w = self.ar.w(c); let z = self.ar.c(0, w); let q = self.ar.ne(c, z);
                self.check(st, q, &format!("assertion {} fails", code))?;
                V::U
            }
            "spec_lit" | "spec_esc" => {
                let p = self.argc(st, av, 0)?; let k = self.argc(st, av, 1)?;
                let b = if k == 0 { vec![] } else { self.read(st, p, k, 1)? };
                if b.iter().any(|x| *x == UNDEF) { return self.bad(st, "uninitialised byte in the specification"); }
                let s = Rc::make_mut(&mut st.spec);
                for x in b { s.push(if n == "spec_lit" { Item::Lit(x) } else { Item::Esc(x) }); }
                V::U
            }
            "spec_reset" => { st.spec = Rc::new(vec![]); st.front = (0, 0, 0); st.phase += 1; st.out = 0; V::U }
            // at most k special characters in the text; inputs with more are outside the bound
            "limit" => { st.limit = self.argc(st, av, 0)? as u32; st.nspec = 0; V::U }
            "out" => { st.out = self.argc(st, av, 0)?; V::U }
            "check" => { let p = self.argc(st, av, 0)?; let k = self.argc(st, av, 1)?; let code = self.argc(st, av, 2)?; self.check_out(st, p, k, code)?; V::U }
            "allocs" => { let a = st.allocs; V::E(self.k64(a)) }
            "live" => { let a = st.mem.values().filter(|o| o.kind == Kind::Heap && o.alive).count() as u64; V::E(self.k64(a)) }
            "track" => { st.track = true; V::U }
            "mark" => { let i = self.argc(st, av, 0)?; st.marks |= 1 << (i & 63); V::U }
            // one particular CPU instead of all of them
            "roomy" => { Rc::make_mut(&mut st.memo).insert((0xfff9_0000, 0), Rc::new(vec![])); V::U }
            "large" => { Rc::make_mut(&mut st.memo).insert((0xfffa_0000, 0), Rc::new(vec![])); V::U }
            "cpu" => { let k = self.argc(st, av, 0)?; let e = self.ar.c(k as u128, 32); Rc::make_mut(&mut st.memo).insert((0xfffb_0000, 0), Rc::new(vec![e])); V::U }
            "atomics" => { let on = self.argc(st, av, 0)? != 0; Rc::make_mut(&mut st.atom).on = on; V::U }
            "thread" => { let t = self.argc(st, av, 0)? as u32; Rc::make_mut(&mut st.atom).thread = t; V::U }
            // is this pointer's block exactly n bytes (1) or not (0)?
            "block" => { let p = self.argc(st, av, 0)?; let r = match st.mem.get(&(p >> 32)) { Some(o) if o.kind == Kind::Heap && o.base == p => match o.big { Some(b) => return Ok(V::E(b)), None => o.size }, _ => 0 }; V::E(self.k64(r)) }
            "native" => V::E(self.ar.c(0, 32)),
            _ => return self.unsup(st, &format!("vf_{}", n)),
        })
    }
    /// validity of a byte string as UTF-8
    fn utf8(&mut self, b: &[Id]) -> Id {
        // states: 0 accept, 1..3 continuation bytes left, 4 after E0, 5 after ED, 6 after F0, 7 after F4, 8 reject
        let step = |s: usize, c: usize| -> u128 {
            (match s {
                0 => match c { 0..=0x7f => 0, 0xc2..=0xdf => 1, 0xe0 => 4, 0xed => 5, 0xe1..=0xef => 2, 0xf0 => 6, 0xf1..=0xf3 => 3, 0xf4 => 7, _ => 8 },
                1..=3 => if (0x80..=0xbf).contains(&c) { s - 1 } else { 8 },
                4 => if (0xa0..=0xbf).contains(&c) { 1 } else { 8 },
                5 => if (0x80..=0x9f).contains(&c) { 1 } else { 8 },
                6 => if (0x90..=0xbf).contains(&c) { 2 } else { 8 },
                7 => if (0x80..=0x8f).contains(&c) { 2 } else { 8 },
                _ => 8,
            }) as u128
        };
        // per state a small table over the byte, chosen by the state
        let mut s = self.ar.c(0, 4);
        for &x in b {
            let mut r = self.ar.c(8, 4);
            for k in 0..8usize {
                let tab: Vec<u128> = (0..256).map(|c| step(k, c)).collect();
                let t = self.ar.table(tab, x, 4);
                let kk = self.ar.c(k as u128, 4);
                let q = self.ar.eq(s, kk);
                r = self.ar.ite(q, t, r);
            }
            s = r;
        }
        let z = self.ar.c(0, 4);
        self.ar.eq(s, z)
    }
    /// functions replaced by their contract
    pub fn stub(&mut self, st: &mut State, name: &str, av: &mut Vec<V>) -> R<Option<V>> {
        // the float formatter: a function of its argument that writes 3 to 15 (24) bytes of a number's text
        let dbl = name.ends_with("3ryu6pretty8format64");
        if !(dbl || name.ends_with("3ryu6pretty8format32")) || self.tape.is_some() || av.len() != 2 { return Ok(None); }
        let x = match &av[0] { V::E(e) => *e, _ => return self.bad(st, "undefined value given to the float formatter").map(Some) };
        let x = self.refine(st, x);
        if self.ar.as_const(x).is_some() { return Ok(None); }
        let p = self.argc(st, av, 1)?;
        let key = (0xfff8_0000 + dbl as u64, x as u64);
        if !st.memo.contains_key(&key) {
            let lk = (0xfff7_0000, 0);
            let v = self.memo_get(st, lk, |s, st| vec![s.cpuvar(st, 5)])[0];
            let (lo, hi) = (self.ar.c(3, 5), self.ar.c(if dbl { 24 } else { 15 }, 5));
            let (a, b) = (self.ar.cmp(Cop::Ule, lo, v), self.ar.cmp(Cop::Ule, v, hi));
            let q = self.ar.and(a, b);
            self.hist_cons(st, q);
            self.assume(st, q)?;
            let n = self.concretize(st, v)?;
            Rc::make_mut(&mut st.memo).remove(&lk);
            let tab: Vec<u128> = b"0123456789.e-678".iter().map(|x| *x as u128).collect();
            let l: Vec<Id> = (0..n).map(|_| { let c = self.cpuvar(st, 4); self.ar.table(tab.clone(), c, 8) }).collect();
            Rc::make_mut(&mut st.memo).insert(key, Rc::new(l));
        }
        let l = st.memo[&key].clone();
        self.write(st, p, &l, 1)?;
        Ok(Some(V::E(self.k64(l.len() as u64))))
    }
}
/// particular CPUs: 0 nothing beyond the instruction set's base, 1 up to SSE4.2, 2 AVX without AVX2, 3 AVX2
pub fn cpu_profile(p: u32, leaf: u64) -> [u32; 4] {
    let sse = 1 << 0 | 1 << 9 | 1 << 19 | 1 << 20 | 1 << 23;
    let os = 1 << 26 | 1 << 27 | 1 << 28;
    match leaf {
        0 => [if p == 0 { 1 } else { 13 }, u32::from_le_bytes(*b"Genu"), u32::from_le_bytes(*b"ntel"), u32::from_le_bytes(*b"ineI")],
        0x8000_0000 => [0x8000_0008, 0, 0, 0],
        1 => match p { 0 => [0; 4], 1 => [0, 0, sse, 1 << 25 | 1 << 26], _ => [0, 0, sse | os | 1 << 12 | 1 << 29, 1 << 25 | 1 << 26] },
        7 => if p == 3 { [0, 1 << 3 | 1 << 5 | 1 << 8, 0, 0] } else { [0; 4] },
        0x8000_0001 => if p == 3 { [0, 0, 1 << 5, 0] } else { [0; 4] },
        _ => [0; 4],
    }
}
pub fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }
#[allow(dead_code)]
pub type _B = BTreeMap<u8, u8>;
