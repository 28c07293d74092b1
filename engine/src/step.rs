//! Instruction semantics, calls and intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
#[allow(unused_imports)]
use crate::fx::HashMap;
use std::rc::Rc;

impl<'m> Exec<'m> {
    /// run one entry point with the given parameters to exhaustion
    pub fn run(&mut self, entry: &str, params: &[i64]) {
        self.params = params.to_vec();
        let Some(f) = self.m.fn_ids.get(entry).copied() else { self.unsupported(&format!("no entry {}", entry)); return; };
        let st = self.initial(f);
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.violations.len() >= self.max_violations { break; }
            if self.over_budget() { self.st.budget = true; break; }
            self.run_state(st);
        }
    }
    fn over_budget(&self) -> bool { self.st.insts > self.max_insts || std::time::Instant::now() > self.deadline }
    fn run_state(&mut self, mut st: State) {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0x3ff == 0 && (self.over_budget()) { self.st.budget = true; self.work.clear(); return; }
            if self.violations.len() >= self.max_violations { return; }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Kill) => { self.st.killed += 1; return; }
                Err(Stop::Done) => { self.done(st); return; }
            }
        }
    }
    fn done(&mut self, st: State) {
        self.st.paths += 1;
        let n = self.st.paths;
        let new_marks = st.marks & !self.marks;
        if (self.samples.len() < self.max_samples && (n <= 2 || n.is_power_of_two())) || new_marks != 0 {
            match self.exact(&st, TRUE) {
                Some(Ok(m)) => { self.st.feas += 1; self.marks |= st.marks; if self.samples.len() < self.max_samples + 8 { let r = self.make_report(&st, "sample".into(), &m); self.samples.push(r); } }
                _ => {}
            }
        }
    }

    fn eval_args(&mut self, st: &State, args: &[(Ty, Op)]) -> Vec<V> { args.iter().map(|(_, o)| self.val(st, o)).collect() }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        self.st.insts += 1;
        st.steps += 1;
        let m = self.m;
        let (f, b, ip) = { let t = st.frames.last().unwrap(); (t.f, t.blk, t.ip) };
        let inst = &m.funcs[f as usize].blocks[b as usize].ins[ip];
        let dst = inst.dst;
        if self.trace { eprintln!("{:w$}{}:{} {} {:?}", "", f, b, ip, inst.ins, w = st.frames.len()); }
        match &inst.ins {
            Ins::Br(t) => return self.jump(st, *t),
            Ins::CondBr(c, t, e) => {
                let c = self.vald(st, c, "as a branch condition")?;
                let r = self.need(st, c)?;
                return self.jump(st, if r { *t } else { *e });
            }
            Ins::Switch(_, v, d, cases) => {
                let e = self.vald(st, v, "in a switch")?;
                let e = self.refine(st, e);
                let t = self.switch(st, e, *d, cases)?;
                return self.jump(st, t);
            }
            Ins::Ret(v) => {
                let v = match v { None => V::U, Some((_, o)) => self.val(st, o) };
                return self.ret(st, v);
            }
            Ins::Unreachable => return self.bad(st, "unreachable code executed"),
            Ins::Resume(_) => { self.pop_frame(st); return self.unwind(st); }
            Ins::Call { ret, callee, args, inv } => return self.call(st, dst, ret, callee, args, *inv),
            _ => {}
        }
        let v = match &inst.ins {
            Ins::Bin(op, ty, a, c, fl) => {
                let (x, y) = (self.val(st, a), self.val(st, c));
                if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) {
                    if let (V::E(_), V::E(d)) = (&x, &y) { let w = self.ar.w(*d); let z = self.ar.c(0, w); let ok = self.ar.ne(*d, z); self.check(st, ok, "division by zero")?; }
                }
                // poison on overflow of constants
                if *fl & 3 != 0 {
                    if let (V::E(p), V::E(q)) = (&x, &y) {
                        if let (Some(p), Some(q)) = (self.ar.as_const(*p), self.ar.as_const(*q)) {
                            let w = ty.bits();
                            let un = match op { Bop::Add => p.checked_add(q).map_or(true, |r| r > mask(w)), Bop::Sub => p < q, Bop::Mul => p.checked_mul(q).map_or(true, |r| r > mask(w)), _ => false };
                            let (sp, sq) = (sext(p, w), sext(q, w));
                            let sg = match op { Bop::Add => sp.checked_add(sq), Bop::Sub => sp.checked_sub(sq), Bop::Mul => sp.checked_mul(sq), _ => Some(0) }.map_or(true, |r| sext(r as u128 & mask(w), w) != r);
                            if *fl & 1 != 0 && un || *fl & 2 != 0 && sg { return self.bad(st, &format!("unchecked arithmetic overflow ({:?})", op)); }
                        }
                    }
                }
                self.bin_v(*op, &x, &y, *fl)
            }
            Ins::Icmp(p, _, a, c) => { let (x, y) = (self.val(st, a), self.val(st, c)); self.icmp_v(*p, &x, &y) }
            Ins::Fcmp(p, ty, a, c) => {
                let x = self.vald(st, a, "in a float comparison")?; let y = self.vald(st, c, "in a float comparison")?;
                match self.fcmp(p, ty, x, y) { Some(e) => V::E(e), None => return self.unsup(st, "fcmp") }
            }
            Ins::FBin(op, ty, a, c) => {
                let x = self.vald(st, a, "in float arithmetic")?; let y = self.vald(st, c, "in float arithmetic")?;
                let (x, y) = (self.refine(st, x), self.refine(st, y));
                match self.ar.fbin(op, ty, x, y) { Some(e) => V::E(e), None => return self.unsup(st, op) }
            }
            Ins::FNeg(ty, a) => { let x = self.vald(st, a, "in fneg")?; let w = ty.bits(); let s = self.ar.c(1u128 << (w - 1), w); V::E(self.ar.bin(Bop::Xor, x, s)) }
            Ins::Cast(k, from, a, to) => {
                let x = self.val(st, a);
                if matches!(k, CastK::FpToUi | CastK::FpToSi | CastK::UiToFp | CastK::SiToFp | CastK::FpExt | CastK::Other) {
                    let e = match x { V::U => { Self::set(st, dst, V::U); Self::top(st).ip += 1; return Ok(()); } x => self.scal(st, x, "in a conversion")? };
                    let e = self.refine(st, e);
                    let r = match k { CastK::FpToUi => self.ar.fp_to_int(e, from, to.bits(), false), CastK::FpToSi => self.ar.fp_to_int(e, from, to.bits(), true), CastK::UiToFp => self.ar.int_to_fp(e, to, false), CastK::SiToFp => self.ar.int_to_fp(e, to, true), CastK::FpExt => self.ar.float_cast(e, from, to), _ => None };
                    match r { Some(v) => { Self::set(st, dst, V::E(v)); Self::top(st).ip += 1; return Ok(()); } None => return self.unsup(st, "float conversion") }
                }
                match self.cast(*k, x, from, to) { Some(v) => v, None => return self.unsup(st, "cast") }
            }
            Ins::Gep(base, off, idx, _) => {
                let mut e = match self.val(st, base) { V::E(e) => e, _ => { Self::set(st, dst, V::U); Self::top(st).ip += 1; return Ok(()); } };
                if *off != 0 { let k = self.k64(*off as u64); e = self.ar.bin(Bop::Add, e, k); }
                for (sz, ty, o) in idx {
                    let i = self.vald(st, o, "as an index")?;
                    let i = if ty.bits() < 64 { self.ar.sext_to(i, 64) } else { i };
                    let s = self.k64(*sz);
                    let d = self.ar.bin(Bop::Mul, i, s);
                    e = self.ar.bin(Bop::Add, e, d);
                }
                V::E(e)
            }
            Ins::Load(ty, p, al, at) => {
                let a = self.vald(st, p, "as an address")?;
                if ty.store_size() == 0 { Self::undef_of(ty) } else {
                    let n = ty.store_size();
                    let b = if *at > 0 || st.atom.on { let a = self.concretize(st, a)? as u64; self.read_atomic(st, a, n, *al, *at)? } else { self.load_at(st, a, n, *al)? };
                    self.get(&b, ty, 0)
                }
            }
            Ins::Store(ty, v, p, al, at) => {
                let x = self.val(st, v);
                let a = self.vald(st, p, "as an address")?;
                let a = self.concretize(st, a)? as u64;
                let n = ty.store_size() as usize;
                if n > 0 {
                    // padding between fields keeps its old bytes undefined
                    let mut b = vec![UNDEF; n];
                    self.put(&x, ty, &mut b, 0);
                    self.write_atomic(st, a, &b, *al, *at)?;
                }
                V::U
            }
            Ins::Alloca(sz, al, n) => {
                let mut sz = *sz;
                if let Some(o) = n { let k = self.vald(st, o, "as a size")?; let k = self.concretize(st, k)? as u64; sz *= k; }
                let t = Self::top(st);
                let num = STACK_BASE + t.depth * 4096 + t.nalloca;
                t.nalloca += 1;
                let base = num << 32 | (0x1000 + if *al >= 0x1000 { 0 } else { *al });
                self.add_obj(st, num, base, sz, *al, Kind::Stack, vec![UNDEF; sz as usize]);
                V::E(self.k64(base))
            }
            Ins::Select(ty, c, a, b, ct) => {
                let cv = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                if let (V::A(l), Ty::Vec(..)) = (&cv, ct) {
                    let xs = match &x { V::A(v) => v.to_vec(), _ => return self.unsup(st, "select") };
                    let ys = match &y { V::A(v) => v.to_vec(), _ => return self.unsup(st, "select") };
                    let mut out = vec![];
                    for i in 0..l.len() { out.push(match (&l[i], &xs[i], &ys[i]) { (V::E(c), V::E(p), V::E(q)) => V::E(self.ar.ite(*c, *p, *q)), _ => V::U }); }
                    V::A(out.into())
                } else {
                    let e = self.scal(st, cv, "as a select condition")?;
                    let e = self.refine(st, e);
                    match (self.ar.as_const(e), &x, &y) {
                        (Some(1), ..) => x,
                        (Some(_), ..) => y,
                        (None, V::E(p), V::E(q)) if *ty != Ty::Ptr => V::E(self.ar.ite(e, *p, *q)),
                        _ => if self.need(st, e)? { x } else { y },
                    }
                }
            }
            Ins::ExtractValue(a, ix) => { let mut v = self.val(st, a); for i in ix { v = match v { V::A(l) => l[*i as usize].clone(), V::U => V::U, _ => return self.unsup(st, "extractvalue") }; } v }
            Ins::InsertValue(ty, a, b, ix) => {
                let v = self.val(st, a); let x = self.val(st, b);
                fn ins(v: V, ty: &Ty, ix: &[u32], x: V) -> V {
                    if ix.is_empty() { return x; }
                    let i = ix[0] as usize;
                    let mut l: Vec<V> = match v { V::A(l) => l.to_vec(), _ => vec![V::U; ty.nfields()] };
                    let ft = ty.field(i);
                    l[i] = ins(l[i].clone(), &ft, &ix[1..], x);
                    V::A(l.into())
                }
                ins(v, ty, ix, x)
            }
            Ins::ExtractElement(a, i) => { let v = self.val(st, a); let k = self.vald(st, i, "as an index")?; let k = self.concretize(st, k)? as usize; match v { V::A(l) if k < l.len() => l[k].clone(), _ => V::U } }
            Ins::InsertElement(ty, a, b, i) => {
                let v = self.val(st, a); let x = self.val(st, b); let k = self.vald(st, i, "as an index")?; let k = self.concretize(st, k)? as usize;
                let mut l: Vec<V> = match v { V::A(l) => l.to_vec(), _ => vec![V::U; ty.nfields()] };
                if k < l.len() { l[k] = x; }
                V::A(l.into())
            }
            Ins::Shuffle(n, a, b, mk) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let g = |v: &V, i: usize| match v { V::A(l) => l[i].clone(), _ => V::U };
                let n = *n as i64;
                let out: Vec<V> = mk.iter().map(|i| if *i < 0 { V::U } else if *i < n { g(&x, *i as usize) } else { g(&y, (*i - n) as usize) }).collect();
                V::A(out.into())
            }
            Ins::LandingPad(_) => { let p = self.k64(EXT_BASE << 32 | 8); let z = self.ar.c(0, 32); V::A(vec![V::E(p), V::E(z)].into()) }
            Ins::Freeze(ty, a) => { let v = self.val(st, a); match v { V::B(b) => { let b: Vec<Id> = b.iter().map(|x| if *x == UNDEF { 0 } else { *x }).collect(); let e = self.ar.concat(&b); let w = ty.bits(); V::E(if w < self.ar.w(e) { self.ar.extract(e, 0, w) } else { e }) } V::U | V::B(_) if ty.bits() > 0 && !matches!(ty, Ty::Vec(..)) => { let w = ty.bits(); V::E(self.ar.c(0, w)) } v => v } }
            Ins::Fence => V::U,
            Ins::Rmw(op, ty, p, v, od) => {
                let a = self.vald(st, p, "as an address")?; let a = self.concretize(st, a)? as u64;
                let x = self.vald(st, v, "in an atomic operation")?;
                let n = ty.store_size();
                let b = self.read_rmw(st, a, n, *od)?;
                let old = match self.get(&b, ty, 0) { V::E(e) => e, _ => return self.bad(st, "atomic operation on undefined memory") };
                let new = match &**op { "xchg" => x, "add" => self.ar.bin(Bop::Add, old, x), "sub" => self.ar.bin(Bop::Sub, old, x), "and" => self.ar.bin(Bop::And, old, x), "or" => self.ar.bin(Bop::Or, old, x), "xor" => self.ar.bin(Bop::Xor, old, x), _ => return self.unsup(st, "atomicrmw") };
                let mut nb = vec![UNDEF; n as usize];
                self.put(&V::E(new), ty, &mut nb, 0);
                self.write_atomic(st, a, &nb, 1, *od)?;
                V::E(old)
            }
            Ins::CmpXchg(ty, p, c, n, od) => {
                let a = self.vald(st, p, "as an address")?; let a = self.concretize(st, a)? as u64;
                let c = self.vald(st, c, "in an atomic operation")?; let nv = self.val(st, n);
                let sz = ty.store_size();
                let b = self.read_rmw(st, a, sz, *od)?;
                let old = match self.get(&b, ty, 0) { V::E(e) => e, _ => return self.bad(st, "atomic operation on undefined memory") };
                let q = self.ar.eq(old, c);
                let r = self.need(st, q)?;
                if r { let mut nb = vec![UNDEF; sz as usize]; self.put(&nv, ty, &mut nb, 0); self.write_atomic(st, a, &nb, 1, *od)?; }
                let k = self.ar.b(r);
                V::A(vec![V::E(old), V::E(k)].into())
            }
            Ins::Unsupported(s) => return self.unsup(st, s),
            Ins::Phi(..) => unreachable!("phi"),
            _ => unreachable!(),
        };
        let t = Self::top(st);
        if let Some(d) = dst { t.regs[d as usize] = v; }
        t.ip += 1;
        Ok(())
    }

    fn switch(&mut self, st: &mut State, e: Id, d: u32, cases: &[(u128, u32)]) -> R<u32> {
        if let Some(c) = self.ar.as_const(e) { return Ok(cases.iter().find(|x| x.0 == c).map_or(d, |x| x.1)); }
        let w = self.ar.w(e);
        if let Some(v) = self.ar.small_var(e) {
            // one decision per target
            let t = self.ar.truth(e);
            let mut by: BTreeMap<u32, Dom> = BTreeMap::new();
            for (i, x) in t.iter().enumerate() { let tg = cases.iter().find(|c| c.0 == *x).map_or(d, |c| c.1); by.entry(tg).or_insert([0; 4])[i >> 6] |= 1 << (i & 63); }
            let n = by.len();
            for (k, (tg, dm)) in by.into_iter().enumerate() {
                if k + 1 == n { return Ok(tg); }
                let c = self.ar.in_dom(v, &dm);
                if self.need(st, c)? { return Ok(tg); }
            }
            unreachable!()
        }
        for (c, t) in cases { let k = self.ar.c(*c, w); let q = self.ar.eq(e, k); if self.need(st, q)? { return Ok(*t); } }
        Ok(d)
    }

    fn jump(&mut self, st: &mut State, t: u32) -> R<()> {
        let m = self.m;
        let (f, from) = { let x = st.frames.last().unwrap(); (x.f, x.blk) };
        let blk = &m.funcs[f as usize].blocks[t as usize];
        let mut n = 0;
        let mut vals: Vec<(u32, V)> = vec![];
        for i in &blk.ins {
            if let Ins::Phi(_, l) = &i.ins {
                n += 1;
                let o = &l.iter().find(|x| x.1 == from).expect("phi edge").0;
                if let Some(d) = i.dst { vals.push((d, self.val(st, o))); }
            } else { break; }
        }
        let top = Self::top(st);
        for (d, v) in vals { top.regs[d as usize] = v; }
        top.prev = from; top.blk = t; top.ip = n;
        if blk.preds >= 2 && st.forked && self.merge { return self.join(st); }
        Ok(())
    }

    /// registers needed after instruction `ip` of a block (excluding its result)
    fn live_after(&mut self, f: u32, b: u32, ip: usize) -> Rc<[u32]> {
        if let Some(l) = self.live_at.get(&(f, b, ip)) { return l.clone(); }
        let fu = &self.m.funcs[f as usize];
        let blk = &fu.blocks[b as usize];
        let mut s: std::collections::BTreeSet<u32> = Default::default();
        for t in succs(&blk.ins.last().unwrap().ins) {
            let tb = &fu.blocks[t as usize];
            let phis: Vec<u32> = tb.ins.iter().take_while(|i| matches!(i.ins, Ins::Phi(..))).filter_map(|i| i.dst).collect();
            for r in fu.live[t as usize].iter() { if !phis.contains(r) { s.insert(*r); } }
            for i in &tb.ins { if let Ins::Phi(_, v) = &i.ins { for (o, p) in v { if *p == b { if let Op::Reg(r) = o { s.insert(*r); } } } } else { break; } }
        }
        for k in (ip + 1..blk.ins.len()).rev() {
            if let Some(d) = blk.ins[k].dst { s.remove(&d); }
            uses(&blk.ins[k].ins, &mut |r| { s.insert(r); });
        }
        if let Some(d) = blk.ins[ip].dst { s.remove(&d); }
        let l: Rc<[u32]> = s.into_iter().collect::<Vec<_>>().into();
        self.live_at.insert((f, b, ip), l.clone());
        l
    }
    fn hash_v(h: &mut H, v: &V) {
        match v {
            V::E(e) => { h.add(1); h.add(*e as u64); }
            V::U => h.add(2),
            V::A(l) => { h.add(3); h.add(l.len() as u64); for x in l.iter() { Self::hash_v(h, x); } }
            V::B(b) => { h.add(4); for x in b.iter() { h.add(*x as u64); } }
        }
    }
    fn refine_v(&mut self, st: &State, v: &V) -> V {
        match v {
            V::E(e) => V::E(self.refine(st, *e)),
            V::A(l) => { let n: Vec<V> = l.iter().map(|x| self.refine_v(st, x)).collect(); V::A(n.into()) }
            v => v.clone(),
        }
    }
    fn join(&mut self, st: &mut State) -> R<()> {
        {
            // blocks where states hardly ever meet are mostly passed over
            let x = st.frames.last().unwrap();
            let e = self.joins.entry((x.f, x.blk)).or_insert((0, 0));
            e.0 += 1;
            if e.0 > 1000 && (e.1 as u64) * 50 < e.0 as u64 && e.0 & 31 != 0 { return Ok(()); }
        }
        self.absorb(st)?;
        let m = self.m;
        let n = st.frames.len();
        {
            let (f, b) = { let x = st.frames.last().unwrap(); (x.f, x.blk) };
            let live = m.funcs[f as usize].live[b as usize].clone();
            let nr = m.funcs[f as usize].nregs as usize;
            let mut regs = vec![V::U; nr];
            for r in live.iter() { let v = st.frames[n - 1].regs[*r as usize].clone(); regs[*r as usize] = self.refine_v(st, &v); }
            Self::top(st).regs = regs;
        }
        self.widen(st);
        let mut h = H::new();
        for k in 0..n {
            let fr = st.frames[k].clone();
            let c = fr.hash.get();
            if c != 0 && k + 1 < n { h.add128(c); continue; }
            let mut g = H::new();
            g.add(fr.f as u64); g.add(fr.blk as u64); g.add(fr.ip as u64); g.add(fr.catch as u64); g.add(fr.nalloca);
            let live = if k + 1 == n { m.funcs[fr.f as usize].live[fr.blk as usize].clone() } else { self.live_after(fr.f, fr.blk, fr.ip) };
            for r in live.iter() { Self::hash_v(&mut g, &fr.regs[*r as usize]); }
            let x = g.fin();
            if k + 1 < n { fr.hash.set(x); }
            h.add128(x);
        }
        for (k, o) in st.mem.iter() { h.add(*k); h.add128(o.hash()); }
        h.add(0x77);
        for (v, d) in st.dom.iter() { h.add(*v as u64); for x in d { h.add(*x); } }
        let mut pc = st.pc.to_vec(); pc.sort();
        for p in pc { h.add(p as u64); }
        h.add(0x78);
        for p in st.lazy.iter() { h.add(*p as u64); }
        h.add(0x79);
        for i in st.spec.iter() { match i { Item::Lit(e) => h.add(*e as u64), Item::Esc(e) => h.add(1 << 40 | *e as u64) } }
        h.add(st.front.0); h.add(st.front.1 as u64); h.add(st.front.2 as u64); h.add(st.phase as u64); h.add(st.out); h.add(st.nvars as u64); h.add(st.ncpu as u64); h.add(st.ninputs as u64);
        for ((a, b), l) in st.memo.iter() { h.add(*a); h.add(*b); for x in l.iter() { h.add(*x as u64); } }
        h.add(st.unwind.is_some() as u64); if st.limit < 1000 { h.add(st.nspec as u64); } h.add(st.marks);
        if st.track { h.add(st.allocs); }
        if st.atom.on {
            h.add(st.atom.thread as u64);
            for (k, l) in &st.atom.hist { h.add(*k); for (v, w) in l { for x in v { h.add(*x as u64); } if let Some(w) = w { for (a, b) in w { h.add(*a); h.add(*b as u64); } } } }
            for (t, w) in &st.atom.view { h.add(*t as u64); for (a, b) in w { h.add(*a); h.add(*b as u64); } }
        }
        let key = h.fin();
        if std::env::var("LYDBG").is_ok() {
            let fr = st.frames.last().unwrap();
            eprintln!("JOIN {} {} front {:?} pc {} lazy {} dom {:?}", demangle(&m.funcs[fr.f as usize].name), m.funcs[fr.f as usize].blocks[fr.blk as usize].name, st.front, st.pc.len(), st.lazy.len(), st.dom.iter().map(|(v, d)| format!("{}:{}", self.ar.show(*v), dom_count(d))).collect::<Vec<_>>());
            for v in &fr.regs { if let V::E(e) = v { eprint!(" {}", self.ar.show(*e)); } }
            eprintln!();
            for (k, o) in st.mem.iter() { eprintln!("  {:x} {} {}: {}", k, o.size, o.alive, o.bytes.iter().take(40).map(|b| if *b == UNDEF { "_".into() } else { self.ar.show(*b) }).collect::<Vec<_>>().join(" ")); }
        }
        if let Some(l) = self.visited.get_mut(&key) {
            if l.len() < 64 { l.push(st.hist); }
            let x = st.frames.last().unwrap();
            self.joins.entry((x.f, x.blk)).or_insert((0, 0)).1 += 1;
            self.st.merged += 1;
            return Err(Stop::Kill);
        }
        self.visited.insert(key, vec![st.hist]);
        self.st.states += 1;
        self.hist.push(HistNode::Merge(st.hist, key));
        st.hist = (self.hist.len() - 1) as u32;
        Ok(())
    }
    /// which ordinary character an input byte is no longer matters once nothing live depends on it: keep only
    /// that it is not special (an over-approximation; violations are confirmed on the exact history)
    fn widen(&mut self, st: &mut State) {
        if st.spec.is_empty() || st.dom.is_empty() { return; }
        let mut cand: std::collections::BTreeSet<Id> = Default::default();
        let sp = { let mut d = [0u64; 4]; for c in [b'"', b'&', b'\'', b'<', b'>'] { d[(c >> 6) as usize] |= 1 << (c & 63); } d };
        for i in st.front.1..st.spec.len() {
            if let Item::Esc(v) = st.spec[i] { if let Some(d) = st.dom.get(&v) { if self.ar.w(v) == 8 && dom_count(d) < 251 && dom_empty(&dom_and(d, &sp)) { cand.insert(v); } } }
        }
        if cand.is_empty() { return; }
        for p in st.pc.iter() { for v in self.ar.vars(*p).iter() { cand.remove(v); } }
        for (k, x) in st.facts.iter() { for v in self.ar.vars(*k).iter().chain(self.ar.vars(*x).iter()) { cand.remove(v); } }
        let mut used = Default::default();
        for k in 0..st.frames.len() {
            let fr = st.frames[k].clone();
            let live = if k + 1 == st.frames.len() { self.m.funcs[fr.f as usize].live[fr.blk as usize].clone() } else { self.live_after(fr.f, fr.blk, fr.ip) };
            for &r in live.iter() { self.mention_set(&fr.regs[r as usize], &cand, &mut used); }
        }
        for (_, o) in st.mem.iter() {
            if o.kind == Kind::Input || !o.alive { continue; }
            for e in &o.bytes { if *e >= 256 && *e != UNDEF { if let Node::Var(0, _) = self.ar.node(*e) { continue; } for v in self.ar.vars(*e).iter() { if cand.contains(v) { used.insert(*v); } } } }
        }
        let dm = dom_not(&sp);
        let d = Rc::make_mut(&mut st.dom);
        for v in cand { if !used.contains(&v) { d.insert(v, dm); } }
    }
    /// replace output that already agrees with the specification by opaque bytes
    fn absorb(&mut self, st: &mut State) -> R<()> {
        if st.out == 0 || st.spec.is_empty() { return Ok(()); }
        let num = st.out >> 32;
        let Some(b) = st.mem.get(&num).cloned() else { return Ok(()) };
        let off = (st.out - b.base) as usize;
        let mut target = None;
        for w in 0..3 {
            if off + w * 8 + 8 > b.bytes.len() { break; }
            let mut a = 0u64; let mut ok = true;
            for i in 0..8 { match b.bytes[off + w * 8 + i] { x if x < 256 => a |= (x as u64) << (8 * i), _ => { ok = false; break; } } }
            if ok { if let Some(o) = st.mem.get(&(a >> 32)) { if o.kind == Kind::Heap && o.align == 1 && o.base == a { target = Some(a >> 32); break; } } }
        }
        let Some(tn) = target else { return Ok(()) };
        let o = st.mem[&tn].clone();
        let (mut j, mut item, mut inner) = st.front;
        // the prefix must already be opaque bytes of this phase
        if j > 0 {
            if j > o.size { return Ok(()); }
            let last = self.ar.var(1 + st.phase, (j - 1) as u32, 8);
            if o.bytes[(j - 1) as usize] != last { return Ok(()); }
        }
        let start = j;
        let first_item = item;
        let mut nspec = st.nspec;
        let mut conds = vec![];
        while j < o.size && item < st.spec.len() {
            let e = o.bytes[j as usize];
            if e == UNDEF { break; }
            let e = self.refine(st, e);
            let (ok, len) = match st.spec[item] {
                Item::Lit(x) => { let x = self.refine(st, x); (self.same(st, e, x), 1) }
                Item::Esc(x) => match self.class(st, x) {
                    Some(None) => { let x = self.refine(st, x); (self.same(st, e, x), 1) }
                    Some(Some(c)) => { let t = entity(c).unwrap(); (self.same(st, e, t[inner] as Id), t.len()) }
                    None => match self.same_entity(st, e, x, inner) { Some(l) => (true, l), None => break },
                },
            };
            if !ok { break; }
            let sv = self.ar.var(1 + st.phase, j as u32, 8);
            let c = self.ar.eq(sv, e);
            conds.push((j, sv, c));
            j += 1; inner += 1;
            if inner == len { if len > 1 { nspec += 1; } inner = 0; item += 1; }
        }
        if j == start { return Ok(()); }
        for (k, sv, c) in conds {
            self.hist_cons(st, c);
            let mem = Rc::make_mut(&mut st.mem);
            let ob = Rc::make_mut(mem.get_mut(&tn).unwrap());
            ob.bytes[k as usize] = sv;
            ob.touch();
        }
        st.front = (j, item, inner);
        st.nspec = nspec;
        if nspec > st.limit { self.st.outside += 1; return Err(Stop::Kill); }
        // forget what is known about the variables that are done with
        let mut done: std::collections::BTreeSet<Id> = Default::default();
        for i in first_item..item { let e = match st.spec[i] { Item::Lit(e) | Item::Esc(e) => e }; for v in self.ar.vars(e).iter() { done.insert(*v); } }
        if !done.is_empty() {
            for i in item..st.spec.len() { let e = match st.spec[i] { Item::Lit(e) | Item::Esc(e) => e }; for v in self.ar.vars(e).iter() { done.remove(v); } }
        }
        // what still depends on them elsewhere is made concrete where it can be, or keeps them
        if done.iter().any(|v| st.dom.contains_key(v) && dom_count(&st.dom[v]) < 256) || !st.pc.is_empty() {
            let mut keep: std::collections::BTreeSet<Id> = Default::default();
            for k in 0..st.frames.len() {
                let fr = st.frames[k].clone();
                let live = if k + 1 == st.frames.len() { self.m.funcs[fr.f as usize].live[fr.blk as usize].clone() } else { self.live_after(fr.f, fr.blk, fr.ip) };
                for &r in live.iter() {
                    let r = r as usize;
                    if !self.mentions(&fr.regs[r], &done) { continue; }
                    let v = self.refine_v(st, &fr.regs[r]);
                    self.mention_set(&v, &done, &mut keep);
                    let f = Rc::make_mut(&mut st.frames[k]);
                    f.hash.set(0);
                    f.regs[r] = v;
                }
            }
            let objs: Vec<(u64, Rc<Obj>)> = st.mem.iter().filter(|(_, o)| o.kind != Kind::Input && o.alive).map(|(k, o)| (*k, o.clone())).collect();
            for (k, o) in objs {
                for i in 0..o.bytes.len() {
                    let e = o.bytes[i];
                    if e < 256 || e == UNDEF || !self.ar.vars(e).iter().any(|v| done.contains(v)) { continue; }
                    let r = self.refine(st, e);
                    for v in self.ar.vars(r).iter() { if done.contains(v) { keep.insert(*v); } }
                    if r != e { let ob = Rc::make_mut(Rc::make_mut(&mut st.mem).get_mut(&k).unwrap()); ob.bytes[i] = r; ob.touch(); }
                }
            }
            for v in keep { done.remove(&v); }
        }
        if !done.is_empty() {
            let d = Rc::make_mut(&mut st.dom);
            for v in &done { d.remove(v); }
            if !st.pc.is_empty() || !st.facts.is_empty() {
                let ar = &*self.ar;
                let hits = |e: Id| ar.vars(e).iter().any(|v| done.contains(v));
                if st.pc.iter().any(|p| hits(*p)) { Rc::make_mut(&mut st.pc).retain(|p| !hits(*p)); }
                if st.facts.iter().any(|(k, v)| hits(*k) || hits(*v)) { Rc::make_mut(&mut st.facts).retain(|k, v| !hits(*k) && !hits(*v)); }
            }
        }
        Ok(())
    }
    fn mentions(&self, v: &V, set: &std::collections::BTreeSet<Id>) -> bool {
        match v { V::E(e) => *e >= 256 && self.ar.vars(*e).iter().any(|x| set.contains(x)), V::A(l) => l.iter().any(|x| self.mentions(x, set)), V::B(b) => b.iter().any(|e| *e != UNDEF && self.ar.vars(*e).iter().any(|x| set.contains(x))), V::U => false }
    }
    fn mention_set(&self, v: &V, set: &std::collections::BTreeSet<Id>, out: &mut std::collections::BTreeSet<Id>) {
        match v {
            V::E(e) => for x in self.ar.vars(*e).iter() { if set.contains(x) { out.insert(*x); } },
            V::A(l) => for x in l.iter() { self.mention_set(x, set, out) },
            V::B(b) => for e in b.iter() { if *e != UNDEF { for x in self.ar.vars(*e).iter() { if set.contains(x) { out.insert(*x); } } } },
            V::U => {}
        }
    }
    fn same(&mut self, st: &State, e: Id, want: Id) -> bool {
        if e == want { return true; }
        let q = self.ar.eq(e, want);
        self.refine(st, q) == TRUE
    }
    /// an input byte that is one of several special characters, all written with the same length: is `e`
    /// the byte at `inner` of whichever it is?
    fn same_entity(&mut self, st: &State, e: Id, x: Id, inner: usize) -> Option<usize> {
        let x = self.refine(st, x);
        let v = self.ar.small_var(x)?;
        let d = self.dom_of(st, v);
        if dom_count(&d) > 5 { return None; }
        if self.ar.as_const(e).is_none() && self.ar.small_var(e) != Some(v) { return None; }
        let tx = self.ar.truth(x);
        let te = if let Some(c) = self.ar.as_const(e) { vec![c; tx.len()].into() } else { self.ar.truth(e) };
        let mut len = 0;
        for i in 0..tx.len() {
            if !dom_has(&d, i) { continue; }
            let t = entity(tx[i] as u8)?;
            if len != 0 && len != t.len() { return None; }
            len = t.len();
            if inner >= len || te[i] != t[inner] as u128 { return None; }
        }
        if len == 0 { None } else { Some(len) }
    }
    /// Some(Some(c)): certainly the special character c; Some(None): certainly not special
    fn class(&mut self, st: &State, e: Id) -> Option<Option<u8>> {
        let e = self.refine(st, e);
        if let Some(c) = self.ar.as_const(e) { return Some(if entity(c as u8).is_some() { Some(c as u8) } else { None }); }
        for c in [b'"', b'&', b'\'', b'<', b'>'] {
            let q = self.ar.eq(e, c as Id);
            if self.feasible(st, q) { return None; }
        }
        Some(None)
    }
    /// decide the class, forking
    fn class_need(&mut self, st: &mut State, e: Id) -> R<Option<u8>> {
        for c in [b'"', b'&', b'\'', b'<', b'>'] { let q = self.ar.eq(e, c as Id); if self.need(st, q)? { return Ok(Some(c)); } }
        Ok(None)
    }
    /// memory `p..p+n` holds exactly the specified text
    pub fn check_out(&mut self, st: &mut State, p: u64, n: u64, code: u64) -> R<()> {
        let b = if n == 0 { vec![] } else { self.read(st, p, n, 1)? };
        if self.soft {
            for j in 0..n as usize { if b[j] == UNDEF { return self.bad(st, &format!("uninitialised byte at {} of the output (check {})", j, code)); } }
            return Ok(());
        }
        // decisions first: walk with classes decided
        let mut j = 0u64; let mut item = 0; 
        if st.front.0 > 0 && n >= st.front.0 {
            let fj = st.front.0;
            let all = (0..fj).all(|k| b[k as usize] == self.ar.var(1 + st.phase, k as u32, 8));
            if all { j = fj; item = st.front.1; let inner = st.front.2; if inner > 0 {
                // finish the entity the frontier is in
                let e = match st.spec[item] { Item::Esc(e) | Item::Lit(e) => e };
                let c = self.class_need(st, e)?;
                if let Some(c) = c { let t = entity(c).unwrap(); for k in inner..t.len() { if j >= n { return self.bad(st, &format!("output is shorter than specified (check {})", code)); } if b[j as usize] == UNDEF { return self.bad(st, &format!("uninitialised byte at {} of the output (check {})", j, code)); } let q = self.ar.eq(b[j as usize], t[k] as Id); let m = format!("output byte {} differs from the specification (check {})", j, code); self.check(st, q, &m)?; j += 1; } }
                item += 1;
            } }
        }
        while item < st.spec.len() {
            let (text, e): (Option<&'static [u8]>, Id) = match st.spec[item] {
                Item::Lit(e) => (None, e),
                Item::Esc(e) => { let c = self.class_need(st, e)?; (c.map(|c| entity(c).unwrap()), e) }
            };
            let len = text.map_or(1, |t| t.len());
            for k in 0..len {
                if j >= n { return self.bad(st, &format!("output is shorter than specified: {} bytes (check {})", n, code)); }
                let x = b[j as usize];
                if x == UNDEF { return self.bad(st, &format!("uninitialised byte at {} of the output (check {})", j, code)); }
                let want = match text { Some(t) => t[k] as Id, None => e };
                if x != want {
                    let q = self.ar.eq(x, want);
                    let m = format!("output byte {} differs from the specification (check {})", j, code);
                    self.check(st, q, &m)?;
                }
                j += 1;
            }
            item += 1;
        }
        if j != n { return self.bad(st, &format!("output is longer than specified: {} bytes instead of {} (check {})", n, j, code)); }
        Ok(())
    }

    // ---- control -----------------------------------------------------------------------------
    fn pop_frame(&mut self, st: &mut State) -> Frame {
        let f = st.frames.pop().unwrap();
        if f.nalloca > 0 {
            let mem = Rc::make_mut(&mut st.mem);
            for k in 0..f.nalloca { mem.remove(&(STACK_BASE + f.depth * 4096 + k)); }
        }
        Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone())
    }
    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = self.pop_frame(st);
        if st.frames.is_empty() { return Err(Stop::Done); }
        let v = if fr.catch { V::E(self.ar.c(0, 32)) } else { v };
        self.finish_call(st, v)
    }
    /// the call instruction the top frame stands at has returned `v`
    fn finish_call(&mut self, st: &mut State, v: V) -> R<()> {
        let m = self.m;
        let (f, b, ip) = { let t = st.frames.last().unwrap(); (t.f, t.blk, t.ip) };
        let i = &m.funcs[f as usize].blocks[b as usize].ins[ip];
        if let Some(d) = i.dst { Self::top(st).regs[d as usize] = v; }
        if let Ins::Call { inv: Some((n, _)), .. } = &i.ins { return self.jump(st, *n); }
        Self::top(st).ip += 1;
        Ok(())
    }
    /// a panic is looking for a handler; the callee frame is already gone
    fn unwind(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let mut catching = false;
        loop {
            if st.frames.is_empty() { let msg = st.unwind.clone().unwrap_or_default(); return self.bad(st, &format!("panic: {}", msg)); }
            if catching {
                st.unwind = None;
                let v = V::E(self.ar.c(1, 32));
                return self.finish_call(st, v);
            }
            let (f, b, ip) = { let t = st.frames.last().unwrap(); (t.f, t.blk, t.ip) };
            if let Ins::Call { inv: Some((_, u)), .. } = &m.funcs[f as usize].blocks[b as usize].ins[ip].ins { return self.jump(st, *u); }
            let fr = self.pop_frame(st);
            catching = fr.catch;
            if st.frames.is_empty() && !catching {
                let msg = st.unwind.clone().unwrap_or_default();
                // report with the location of the panic
                self.violation(st, TRUE, &format!("panic: {}", msg));
                return Err(Stop::Kill);
            }
        }
    }
    fn panic_info(&mut self, st: &State, p: &V) -> String {
        let V::E(e) = p else { return "?".into() };
        let Some(a) = self.ar.as_const(*e) else { return "?".into() };
        let word = |s: &mut Self, a: u64| -> Option<u64> {
            let o = s.obj(st, a >> 32)?;
            if a < o.base || a + 8 > o.base + o.size { return None; }
            let i = (a - o.base) as usize; let mut v = 0u64;
            for k in 0..8 { let b = o.bytes[i + k]; if b >= 256 { return None; } v |= (b as u64) << (8 * k); }
            Some(v)
        };
        for k in 0..3 {
            if let Some(l) = word(self, a as u64 + k * 8) {
                if let (Some(fp), Some(fl), Some(lc)) = (word(self, l), word(self, l + 8), word(self, l + 16)) {
                    if fl > 2 && fl < 400 && fp >> 32 >= GL_BASE {
                        if let Some(o) = self.obj(st, fp >> 32) {
                            let i = fp.wrapping_sub(o.base) as usize;
                            if i + fl as usize <= o.bytes.len() {
                                let s: String = o.bytes[i..i + fl as usize].iter().map(|b| if *b < 256 { *b as u8 as char } else { '?' }).filter(|c| *c != '\0').collect();
                                if s.ends_with(".rs") { return format!("{}:{}", s, lc & 0xffff_ffff); }
                            }
                        }
                    }
                }
            }
        }
        "somewhere".into()
    }
    /// a value only the CPU decides (reported by leaf, not on the tape)
    pub fn cpuvar(&mut self, st: &mut State, w: u32) -> Id {
        let v = self.ar.var(5, st.ncpu, w);
        st.ncpu += 1;
        if self.tape.is_some() { return self.ar.c(0, w); }
        v
    }
    pub fn fresh(&mut self, st: &mut State, w: u32) -> Id {
        if let Some(t) = &self.tape { let x = t.get(st.nvars as usize).copied().unwrap_or(0); st.nvars += 1; return self.ar.c(x, w); }
        let v = self.ar.var(0, st.nvars, w);
        st.nvars += 1;
        Rc::make_mut(&mut st.vars).push(v);
        v
    }
    fn initial(&mut self, f: u32) -> State {
        let fr = Self::new_frame(self.m, f, 1, false);
        self.funcs.insert(f);
        State { frames: vec![Rc::new(fr)], mem: Rc::new(BTreeMap::new()), dom: Rc::new(BTreeMap::new()), pc: Rc::new(vec![]), facts: Rc::new(HashMap::default()), lazy: Rc::new(vec![]), hist: 0, spec: Rc::new(vec![]), front: (0, 0, 0), phase: 0, nspec: 0, limit: u32::MAX, out: 0, nvars: 0, ncpu: 0, vars: Rc::new(vec![]), ninputs: 0, heapseq: Rc::new(BTreeMap::new()), allocs: 0, track: false, memo: Rc::new(BTreeMap::new()), atom: Rc::new(Atom::default()), unwind: None, forked: false, steps: 0, marks: 0 }
    }
    fn call(&mut self, st: &mut State, _dst: Option<u32>, ret: &Ty, callee: &Callee, args: &[(Ty, Op)], _inv: Option<(u32, u32)>) -> R<()> {
        let m = self.m;
        let name: Rc<str> = match callee {
            Callee::Fn(i) => return self.call_fn(st, *i, args),
            Callee::Ext(n) => n.clone(),
            Callee::Asm(a) => return self.asm(st, &a.clone(), args),
            Callee::Ind(o) => {
                let e = self.vald(st, o, "as a function pointer")?;
                let a = self.concretize(st, e)? as u64;
                let n = a >> 32;
                if n >= FN_BASE && n < EXT_BASE && a & 0xffff_ffff == 16 && ((n - FN_BASE) as usize) < m.funcs.len() { return self.call_fn(st, (n - FN_BASE) as u32, args); }
                match self.ext_addrs.get(&a) { Some(n) => n.clone(), None => return self.bad(st, &format!("call of {:#x}, which is not a function", a)) }
            }
        };
        if &*name == "vf_catch" {
            let f = self.vald(st, &args[0].1, "as a function pointer")?;
            let a = self.concretize(st, f)? as u64;
            let d = self.val(st, &args[1].1);
            let i = ((a >> 32) - FN_BASE) as u32;
            let depth = st.frames.last().unwrap().depth + 1;
            let mut fr = Self::new_frame(m, i, depth, true);
            fr.regs[m.funcs[i as usize].params[0].1 as usize] = d;
            self.funcs.insert(i);
            st.frames.push(Rc::new(fr));
            return Ok(());
        }
        if name.contains("rust_begin_unwind") {
            let p = self.val(st, &args[0].1);
            let i = self.panic_info(st, &p);
            self.st.panics += 1;
            st.unwind = Some(i);
            return self.unwind(st);
        }
        let av = self.eval_args(st, args);
        let v = self.ext(st, &name, ret, &av, args)?;
        self.finish_call(st, v)
    }
    fn call_fn(&mut self, st: &mut State, i: u32, args: &[(Ty, Op)]) -> R<()> {
        let m = self.m;
        let fu = &m.funcs[i as usize];
        if self.funcs.insert(i) { }
        if fu.name.contains("panicking") && (fu.name.contains("panic_nounwind") || fu.name.contains("panic_cannot_unwind") || fu.name.contains("panic_in_cleanup")) {
            return self.bad(st, &format!("abort: {}", demangle(&fu.name)));
        }
        if !fu.features.is_empty() { self.features(st, &fu.features.clone(), &fu.name.clone())?; }
        if st.frames.len() > 2000 { return self.bad(st, "stack overflow (recursion deeper than 2000 calls)"); }
        let mut av = self.eval_args(st, args);
        if let Some(v) = self.stub(st, &fu.name.clone(), &mut av)? { return self.finish_call(st, v); }
        let depth = st.frames.last().unwrap().depth + 1;
        let mut fr = Self::new_frame(m, i, depth, false);
        if fu.params.len() != av.len() { return self.bad(st, &format!("call of {} with {} arguments", demangle(&fu.name), av.len())); }
        for ((_, r), v) in fu.params.iter().zip(av) { fr.regs[*r as usize] = v; }
        st.frames.push(Rc::new(fr));
        Ok(())
    }
}
