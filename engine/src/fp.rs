//! floating point: constants with the machine's arithmetic, conversions also symbolically
use crate::expr::*;
use crate::ir::Ty;

fn fmt_of(t: &Ty) -> Option<(u32, u32)> { match t { Ty::F64 => Some((11, 52)), Ty::F32 => Some((8, 23)), _ => None } }
impl Arena {
    pub fn fbin(&mut self, op: &str, ty: &Ty, a: Id, b: Id) -> Option<Id> {
        let (x, y) = (self.as_const(a)?, self.as_const(b)?);
        let r = match ty {
            Ty::F64 => { let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64)); (match op { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, "frem" => x % y, _ => return None }).to_bits() as u128 }
            Ty::F32 => { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, "frem" => x % y, _ => return None }).to_bits() as u128 }
            _ => return None,
        };
        Some(self.c(r, ty.bits()))
    }
    fn cw(&mut self, v: u128, w: u32) -> Id { self.c(v, w) }
    /// whether the number is of one of the classes of the mask
    pub fn fclass(&mut self, e: Id, k: u128) -> Id {
        let w = self.w(e);
        let (eb, m) = if w == 64 { (11u32, 52u32) } else { (8, 23) };
        let ex = self.extract(e, m, eb); let fr = self.extract(e, 0, m); let sg = self.extract(e, w - 1, 1);
        let (z, o, zf) = (self.cw(0, eb), self.cw(mask(eb), eb), self.cw(0, m));
        let (e0, e1, f0) = (self.eq(ex, z), self.eq(ex, o), self.eq(fr, zf));
        let (n0, n1, nf, ns) = (self.not(e0), self.not(e1), self.not(f0), self.not(sg));
        let q = self.extract(fr, m - 1, 1); let nq = self.not(q);
        let nan = self.and(e1, nf); let inf = self.and(e1, f0); let norm = self.and(n0, n1); let sub = self.and(e0, nf); let zero = self.and(e0, f0);
        let parts = [(nan, nq), (nan, q), (inf, sg), (norm, sg), (sub, sg), (zero, sg), (zero, ns), (sub, ns), (norm, ns), (inf, ns)];
        let mut r = FALSE;
        for (i, (a, b)) in parts.into_iter().enumerate() { if k >> i & 1 == 1 { let x = self.and(a, b); r = self.or(r, x); } }
        r
    }
    /// to an integer of n bits, saturating (or with no meaning out of range)
    pub fn fp_to_int(&mut self, e: Id, from: &Ty, n: u32, signed: bool) -> Option<Id> {
        let (eb, m) = fmt_of(from)?;
        let w = eb + m + 1; let bias = (1u128 << (eb - 1)) - 1;
        let (smin, smax) = if signed { (1u128 << (n - 1), (1u128 << (n - 1)) - 1) } else { (0, mask(n)) };
        if let Some(c) = self.as_const(e) {
            let v = if m == 52 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
            let r = if signed { let r = v as i128; let (lo, hi) = (sext(smin, n), smax as i128); (if r < lo { lo } else if r > hi { hi } else { r }) as u128 & mask(n) } else { let r = v as u128; if r > smax { smax } else { r } };
            return Some(self.c(r, n));
        }
        let wide = n + m + 1;
        if wide > 128 { return None; }
        let ex = self.extract(e, m, eb); let fr = self.extract(e, 0, m); let sg = self.extract(e, w - 1, 1);
        let one = TRUE; let man = self.concat(&[fr, one]);
        let man = self.zext(man, wide);
        let (cb, exw) = (self.cw(bias, eb), self.zext(ex, wide));
        let bw = self.cw(bias, wide);
        let sh = self.bin(Bop::Sub, exw, bw);
        let sm = self.bin(Bop::Shl, man, sh);
        let v = self.extract(sm, m, n);
        let small = self.cmp(Cop::Ult, ex, cb);
        let z = self.cw(0, n);
        let lim = self.cw(bias + n as u128 - signed as u128, eb + 1); let exl = self.zext(ex, eb + 1);
        let big = self.cmp(Cop::Ule, lim, exl);
        let neg = self.bin(Bop::Sub, z, v);
        let (cmin, cmax) = (self.cw(smin, n), self.cw(smax, n));
        let (bv, sv) = (self.ite(sg, cmin, cmax), if signed { self.ite(sg, neg, v) } else { self.ite(sg, z, v) });
        let r = self.ite(big, bv, sv);
        let r = self.ite(small, z, r);
        let all = self.cw(mask(eb), eb); let q = self.eq(ex, all); let zf = self.cw(0, m); let nz = self.ne(fr, zf);
        let nan = self.and(q, nz);
        Some(self.ite(nan, z, r))
    }
    pub fn int_to_fp(&mut self, e: Id, to: &Ty, signed: bool) -> Option<Id> {
        let (eb, m) = fmt_of(to)?;
        let n = self.w(e);
        if let Some(c) = self.as_const(e) {
            let r = if signed { let v = sext(c, n); if m == 52 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 } } else if m == 52 { (c as f64).to_bits() as u128 } else { (c as f32).to_bits() as u128 };
            return Some(self.c(r, eb + m + 1));
        }
        if n > 64 { return None; }
        let z = self.cw(0, n);
        let sg = if signed { self.extract(e, n - 1, 1) } else { FALSE };
        let ng = self.bin(Bop::Sub, z, e);
        let mag = self.ite(sg, ng, e);
        let k = 64; let mut x = self.zext(mag, k); let mut lz = self.cw(0, eb + m);
        for s in [32u32, 16, 8, 4, 2, 1] {
            let top = self.extract(x, k - s, s); let zs = self.cw(0, s); let c = self.eq(top, zs);
            let ks = self.cw(s as u128, k); let y = self.bin(Bop::Shl, x, ks);
            x = self.ite(c, y, x);
            let kl = self.cw(s as u128, eb + m); let l2 = self.bin(Bop::Add, lz, kl); lz = self.ite(c, l2, lz);
        }
        let bias = (1u128 << (eb - 1)) - 1;
        let fr = self.extract(x, k - 1 - m, m);
        let base = self.cw(bias + k as u128 - 1, eb + m); let ex = self.bin(Bop::Sub, base, lz);
        let km = self.cw(m as u128, eb + m); let exs = self.bin(Bop::Shl, ex, km);
        let frz = self.zext(fr, eb + m); let mut bits = self.bin(Bop::Or, exs, frz);
        // to nearest, ties to even
        let g = self.extract(x, k - 2 - m, 1); let rest = self.extract(x, 0, k - 2 - m); let zr = self.cw(0, k - 2 - m); let st = self.ne(rest, zr); let odd = self.extract(fr, 0, 1);
        let up = self.or(st, odd); let up = self.and(g, up); let upz = self.zext(up, eb + m);
        bits = self.bin(Bop::Add, bits, upz);
        let zz = self.cw(0, eb + m); let z64 = self.cw(0, k); let mz = self.zext(mag, k); let isz = self.eq(mz, z64);
        let bits = self.ite(isz, zz, bits);
        Some(self.concat(&[bits, sg]))
    }
    pub fn float_cast(&mut self, e: Id, from: &Ty, to: &Ty) -> Option<Id> {
        if let Some(c) = self.as_const(e) {
            let v = match (from, to) {
                (Ty::F32, Ty::F64) => (f32::from_bits(c as u32) as f64).to_bits() as u128,
                (Ty::F64, Ty::F32) => (f64::from_bits(c as u64) as f32).to_bits() as u128,
                _ => return None,
            };
            return Some(self.c(v, to.bits()));
        }
        if let (Ty::F32, Ty::F64) = (from, to) {
            let ex = self.extract(e, 23, 8); let fr = self.extract(e, 0, 23); let sg = self.extract(e, 31, 1);
            // denormal: normalise
            let mut x = fr; let mut sh = self.cw(0, 11);
            for s in [16u32, 8, 4, 2, 1] {
                let top = self.extract(x, 23 - s, s); let zs = self.cw(0, s); let c = self.eq(top, zs);
                let ks = self.cw(s as u128, 23); let y = self.bin(Bop::Shl, x, ks); x = self.ite(c, y, x);
                let kl = self.cw(s as u128, 11); let l = self.bin(Bop::Add, sh, kl); sh = self.ite(c, l, sh);
            }
            let k1 = self.cw(1, 23); let xd = self.bin(Bop::Shl, x, k1);
            let b = self.cw(1023 - 127, 11); let exd = self.bin(Bop::Sub, b, sh);
            let exz = self.zext(ex, 11); let exn = self.bin(Bop::Add, exz, b);
            let (z8, o8, z23, o11, z11) = (self.cw(0, 8), self.cw(255, 8), self.cw(0, 23), self.cw(2047, 11), self.cw(0, 11));
            let den = self.eq(ex, z8); let sp = self.eq(ex, o8); let zf = self.eq(fr, z23);
            let ed = self.ite(zf, z11, exd);
            let fd = self.ite(zf, z23, xd);
            let en = self.ite(sp, o11, exn);
            let eo = self.ite(den, ed, en); let fo = self.ite(den, fd, fr);
            // a NaN becomes quiet
            let q = self.cw(1 << 22, 23); let fq = self.bin(Bop::Or, fo, q); let nzf = self.not(zf); let nan = self.and(sp, nzf); let fo = self.ite(nan, fq, fo);
            let pad = self.cw(0, 29);
            return Some(self.concat(&[pad, fo, eo, sg]));
        }
        None
    }
    /// trunc, floor, ceil; others of constants only
    pub fn fround(&mut self, op: &str, e: Id) -> Option<Id> {
        let w = self.w(e);
        if let Some(c) = self.as_const(e) {
            let r = if w == 64 { let v = f64::from_bits(c as u64); (match op { "trunc" => v.trunc(), "floor" => v.floor(), "ceil" => v.ceil(), "round" => v.round(), "rint" | "nearbyint" | "roundeven" => v.round_ties_even(), "sqrt" => v.sqrt(), _ => return None }).to_bits() as u128 }
            else { let v = f32::from_bits(c as u32); (match op { "trunc" => v.trunc(), "floor" => v.floor(), "ceil" => v.ceil(), "round" => v.round(), "rint" | "nearbyint" | "roundeven" => v.round_ties_even(), "sqrt" => v.sqrt(), _ => return None }).to_bits() as u128 };
            return Some(self.c(r, w));
        }
        if !matches!(op, "trunc" | "floor" | "ceil") { return None; }
        let (eb, m) = if w == 64 { (11u32, 52u32) } else { (8, 23) };
        let bias = (1u128 << (eb - 1)) - 1;
        let ex = self.extract(e, m, eb); let sg = self.extract(e, w - 1, 1);
        let (cb, cm) = (self.cw(bias, eb), self.cw(bias + m as u128, eb));
        let small = self.cmp(Cop::Ult, ex, cb); let big = self.cmp(Cop::Ule, cm, ex);
        let sh = self.bin(Bop::Sub, ex, cb); let sh = self.zext(sh, w);
        let fm = self.cw(mask(m), w); let fmask = self.bin(Bop::LShr, fm, sh);
        let am = self.cw(mask(w), w); let keep = self.bin(Bop::Xor, fmask, am);
        let cut = self.bin(Bop::And, e, keep);
        let sbit = self.cw(1u128 << (w - 1), w); let zsg = self.bin(Bop::And, e, sbit);
        let away = match op { "trunc" => FALSE, "floor" => sg, _ => self.not(sg) };
        // away from zero: add all of the fraction's mask, carry into the kept part
        let plus = self.bin(Bop::Add, e, fmask); let plus = self.bin(Bop::And, plus, keep);
        let mid = self.ite(away, plus, cut);
        let one = self.cw(bias << m, w); let sone = self.bin(Bop::Or, one, zsg);
        let mm = self.extract(e, 0, w - 1); let zm = self.cw(0, w - 1); let nz = self.ne(mm, zm);
        let aw = self.and(away, nz); let sv = self.ite(aw, sone, zsg);
        let r = self.ite(big, e, mid);
        Some(self.ite(small, sv, r))
    }
}

#[cfg(test)]
mod test {
    use super::*;
    use crate::fx::HashMap;
    #[test]
    fn same_as_the_machine() {
        let mut ar = Arena::new();
        let (v64, v32) = (ar.var(0, 0, 64), ar.var(0, 1, 32));
        let mut l64: Vec<(&str, Id)> = vec![]; let mut l32 = vec![]; let mut li = vec![];
        for op in ["trunc", "floor", "ceil"] { l64.push((op, ar.fround(op, v64).unwrap())); l32.push((op, ar.fround(op, v32).unwrap())); }
        for (n, s, name) in [(64, true, "i64"), (64, false, "u64"), (32, true, "i32"), (8, false, "u8"), (8, true, "i8")] { l64.push((name, ar.fp_to_int(v64, &Ty::F64, n, s).unwrap())); l32.push((name, ar.fp_to_int(v32, &Ty::F32, n, s).unwrap())); }
        l32.push(("ext", ar.float_cast(v32, &Ty::F32, &Ty::F64).unwrap()));
        for (t, s, name) in [(Ty::F64, true, "i64f64"), (Ty::F64, false, "u64f64"), (Ty::F32, true, "i64f32"), (Ty::F32, false, "u64f32")] { li.push((name, ar.int_to_fp(v64, &t, s).unwrap())); }
        for (t, s, name) in [(Ty::F64, true, "i32f64"), (Ty::F32, false, "u32f32"), (Ty::F32, true, "i32f32")] { li.push((name, ar.int_to_fp(v32, &t, s).unwrap())); }
        let mut r = 0x1234_5678_9abc_def1u64;
        for i in 0..40000u32 {
            r ^= r << 13; r ^= r >> 7; r ^= r << 17;
            let b = match i % 6 { 0 => r, 1 => (r as i32 as f64 / 16.0).to_bits(), 2 => (r >> (i % 64)) as f64 as u64, 3 => ((r >> (i % 64)) as f64).to_bits(), 4 => r & 0x8000_0000_0000_0000 | (1023 + (r >> 8) % 70) << 52 | r >> (i % 50) & mask(52) as u64, _ => (-((r >> (i % 64)) as f64) / 2.0).to_bits() };
            let c = match i % 5 { 0 => r as u32, 1 => (r as i16 as f32 / 4.0).to_bits(), 2 => ((r >> (i % 64)) as f32).to_bits(), 3 => r as u32 & 0x8000_0000 | (127 + (r >> 40) as u32 % 70) << 23 | (r as u32 & 0x7f_ffff) >> i % 23, _ => (r as u32 & 0x807f_ffff) >> (i % 20) };
            let mut env = HashMap::default(); env.insert(v64, b as u128); env.insert(v32, c as u128);
            let mut memo = HashMap::default();
            let (x, y) = (f64::from_bits(b), f32::from_bits(c));
            for (n, e) in &l64 {
                let want = match *n { "trunc" => x.trunc().to_bits() as u128, "floor" => x.floor().to_bits() as u128, "ceil" => x.ceil().to_bits() as u128, "i64" => x as i64 as u64 as u128, "u64" => x as u64 as u128, "i32" => x as i32 as u32 as u128, "u8" => x as u8 as u128, _ => x as i8 as u8 as u128 };
                if x.is_nan() && want > 255 { continue; }
                assert_eq!(ar.eval(*e, &env, &mut memo), want, "{n} {x:?} {b:x}");
            }
            for (n, e) in &l32 {
                let want = match *n { "ext" => (y as f64).to_bits() as u128, "trunc" => y.trunc().to_bits() as u128, "floor" => y.floor().to_bits() as u128, "ceil" => y.ceil().to_bits() as u128, "i64" => y as i64 as u64 as u128, "u64" => y as u64 as u128, "i32" => y as i32 as u32 as u128, "u8" => y as u8 as u128, _ => y as i8 as u8 as u128 };
                if y.is_nan() && want > 255 { continue; }
                assert_eq!(ar.eval(*e, &env, &mut memo), want, "{n} {y:?} {c:x}");
            }
            for (n, e) in &li {
                let want = match *n { "i64f64" => (b as i64 as f64).to_bits() as u128, "u64f64" => (b as f64).to_bits() as u128, "i64f32" => (b as i64 as f32).to_bits() as u128, "u64f32" => (b as f32).to_bits() as u128, "i32f64" => (c as i32 as f64).to_bits() as u128, "u32f32" => (c as f32).to_bits() as u128, _ => (c as i32 as f32).to_bits() as u128 };
                assert_eq!(ar.eval(*e, &env, &mut memo), want, "{n} {b:x} {c:x}");
            }
        }
    }
}
