//! Native runtime for replaying a counterexample (or a sampled passing input) on the compiled code.
//! usage: replay ENTRY params=1,2,.. tape=v,v,.. cpu=leaf,sub,a,b,c,d;..  [profile via vf_cpu]
#![allow(static_mut_refs, non_snake_case)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::Mutex;

const ALLOC_LIMIT: usize = 1 << 20;
const ROOMY_LIMIT: usize = 1 << 24;
const BIG_LIMIT: usize = 1 << 34;
const RED: usize = 512;

struct Block { size: usize, align: usize, alive: bool, raw: usize, total: usize }
#[derive(Default)]
struct S {
    params: Vec<i64>, tape: Vec<u128>, pos: usize,
    spec: Vec<(bool, u8)>,
    blocks: HashMap<usize, Block>, allocs: u64,
    cpu: HashMap<(u32, u32), [u32; 4]>, xcr0: Option<u64>, profile: Option<u32>,
    last: String, over: bool, soft: bool, large: bool, roomy: bool,
}
static ST: Mutex<Option<S>> = Mutex::new(None);
fn with<T>(f: impl FnOnce(&mut S) -> T) -> T { let mut g = match ST.lock() { Ok(g) => g, Err(e) => e.into_inner() }; f(g.get_or_insert_with(S::default)) }
fn fail(m: &str) -> ! { println!("FAIL {}", m); std::process::exit(10) }
fn next(bits: u32) -> u128 { with(|s| { let v = match s.tape.get(s.pos) { Some(v) => *v, None => { s.over = true; 0 } }; s.pos += 1; if bits >= 128 { v } else { v & ((1u128 << bits) - 1) } }) }

#[no_mangle] pub extern "C-unwind" fn vf_param(i: u32) -> u64 { with(|s| s.params.get(i as usize).copied().unwrap_or(0) as u64) }
#[no_mangle] pub extern "C-unwind" fn vf_u8() -> u8 { next(8) as u8 }
#[no_mangle] pub extern "C-unwind" fn vf_u16() -> u16 { next(16) as u16 }
#[no_mangle] pub extern "C-unwind" fn vf_u32() -> u32 { next(32) as u32 }
#[no_mangle] pub extern "C-unwind" fn vf_u64() -> u64 { next(64) as u64 }
#[no_mangle] pub extern "C-unwind" fn vf_bool() -> u8 { next(1) as u8 }
#[no_mangle] pub extern "C-unwind" fn vf_choose(n: u64) -> u64 { let v = next(if n > 256 { 16 } else { 8 }) as u64; if v >= n { println!("ASSUMPTION choose"); std::process::exit(77) } v }
#[no_mangle] pub extern "C-unwind" fn vf_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C-unwind" fn vf_input(n: usize, mis: usize) -> *const u8 {
    // exact size, nothing readable behind it is promised: the text ends at the end of its own block
    unsafe {
        let l = Layout::from_size_align(n + 8192, 4096).unwrap();
        let p = System.alloc(l);
        std::ptr::write_bytes(p, 0xA5, n + 8192);
        let q = p.add(mis % 4096);
        for i in 0..n { *q.add(i) = next(8) as u8; }
        q
    }
}
#[no_mangle] pub extern "C-unwind" fn vf_utf8(p: *const u8, n: usize) { let s = unsafe { std::slice::from_raw_parts(p, n) }; if std::str::from_utf8(s).is_err() { println!("ASSUMPTION utf8"); std::process::exit(77) } }
#[no_mangle] pub extern "C-unwind" fn vf_ascii(p: *const u8, n: usize) { let s = unsafe { std::slice::from_raw_parts(p, n) }; if !s.is_ascii() { println!("ASSUMPTION ascii"); std::process::exit(77) } }
#[no_mangle] pub extern "C-unwind" fn vf_assume(c: u8) { if c == 0 { println!("ASSUMPTION"); std::process::exit(77) } }
#[no_mangle] pub extern "C-unwind" fn vf_assert(c: u8, code: u32) { if c == 0 && (code == 3 || !with(|s| s.soft)) { fail(&format!("assertion {} fails", code)) } }
fn spec(p: *const u8, n: usize, e: bool) { let b = if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() }; with(|s| s.spec.extend(b.into_iter().map(|x| (e, x)))) }
#[no_mangle] pub extern "C-unwind" fn vf_spec_lit(p: *const u8, n: usize) { spec(p, n, false) }
#[no_mangle] pub extern "C-unwind" fn vf_spec_esc(p: *const u8, n: usize) { spec(p, n, true) }
#[no_mangle] pub extern "C-unwind" fn vf_spec_reset() { with(|s| s.spec.clear()) }
#[no_mangle] pub extern "C-unwind" fn vf_out(_: *const u8) {}
#[no_mangle] pub extern "C-unwind" fn vf_limit(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn vf_mark(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn vf_atomics(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn vf_thread(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn vf_cpu(k: u32) { with(|s| s.profile = Some(k)) }
#[no_mangle] pub extern "C-unwind" fn vf_check(p: *const u8, n: usize, code: u32) {
    canaries();
    if with(|s| s.soft) { return }
    let got = if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() };
    let mut want = vec![];
    with(|s| for (e, b) in &s.spec {
        if *e { match b { b'"' => want.extend(b"&quot;"), b'&' => want.extend(b"&amp;"), b'\'' => want.extend(b"&#39;"), b'<' => want.extend(b"&lt;"), b'>' => want.extend(b"&gt;"), b => want.push(*b) } } else { want.push(*b) }
    });
    if got != want { fail(&format!("check {}: output {:?} expected {:?}", code, String::from_utf8_lossy(&got), String::from_utf8_lossy(&want))) }
}
#[no_mangle] pub extern "C-unwind" fn vf_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))) { Ok(()) => 0, Err(_) => 1 } }
#[no_mangle] pub extern "C-unwind" fn vf_allocs() -> u64 { with(|s| s.allocs) }
#[no_mangle] pub extern "C-unwind" fn vf_live() -> u64 { canaries(); with(|s| s.blocks.values().filter(|b| b.alive).count() as u64) }
#[no_mangle] pub extern "C-unwind" fn vf_block(p: *const u8) -> u64 { with(|s| s.blocks.get(&(p as usize)).filter(|b| b.alive).map_or(0, |b| b.size as u64)) }
fn canaries() {
    let bad = with(|s| {
        for (p, b) in &s.blocks { if b.total == 0 { continue } unsafe {
            let m = std::slice::from_raw_parts(b.raw as *const u8, b.total);
            let a = *p - b.raw;
            if m[..a].iter().chain(&m[a + b.size..]).any(|x| *x != 0x5A) { return Some(format!("write outside a heap block of {} bytes", b.size)); }
            if !b.alive && m[a..a + b.size].iter().any(|x| *x != 0xDD) { return Some("write to a freed heap block".to_string()); }
        } }
        None
    });
    if let Some(m) = bad { fail(&m) }
}
// ---- allocator ----
extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; fn munmap(a: *mut u8, n: usize) -> i32; }
fn alloc_limit() -> usize { if with(|s| s.roomy) { ROOMY_LIMIT } else { ALLOC_LIMIT } }
fn large(size: usize, align: usize) -> *mut u8 {
    if !with(|s| s.large) || size > BIG_LIMIT || align > 4096 { return std::ptr::null_mut(); }
    // private, anonymous, not reserved
    let p = unsafe { mmap(std::ptr::null_mut(), size, 3, 0x4022, -1, 0) };
    if p as isize == -1 { println!("OUT-OF-MEMORY"); std::process::exit(78) }
    with(|s| { s.allocs += 1; s.blocks.insert(p as usize, Block { size, align, alive: true, raw: 0, total: 0 }); });
    p
}
#[no_mangle] pub extern "C-unwind" fn vf_roomy() { with(|s| s.roomy = true) }
#[no_mangle] pub extern "C-unwind" fn vf_large() { with(|s| s.large = true) }
#[no_mangle] pub extern "C-unwind" fn vfn_alloc(size: usize, align: usize) -> *mut u8 {
    if size == 0 { fail("allocation of zero bytes") }
    if size > isize::MAX as usize - (align - 1) { fail("allocation of more than isize::MAX bytes") }
    if size > alloc_limit() { return large(size, align); }
    unsafe {
        let total = size + 2 * RED + 8192;
        let raw = System.alloc(Layout::from_size_align(total, 4096).unwrap());
        std::ptr::write_bytes(raw, 0x5A, total);
        let p = raw.add(4096 + if align >= 4096 { 0 } else { align });
        std::ptr::write_bytes(p, 0xA5, size);
        with(|s| { s.allocs += 1; s.blocks.insert(p as usize, Block { size, align, alive: true, raw: raw as usize, total }); });
        p
    }
}
#[no_mangle] pub extern "C-unwind" fn vfn_alloc_zeroed(size: usize, align: usize) -> *mut u8 { let p = vfn_alloc(size, align); if !p.is_null() { unsafe { std::ptr::write_bytes(p, 0, size) } } p }
#[no_mangle] pub extern "C-unwind" fn vfn_dealloc(p: *mut u8, size: usize, align: usize) {
    let r = with(|s| match s.blocks.get_mut(&(p as usize)) {
        Some(b) if b.alive => if b.size != size || b.align != align { Some(format!("dealloc with size {} alignment {} of a block of size {} alignment {}", size, align, b.size, b.align)) } else { b.alive = false; unsafe { if b.total == 0 { munmap(p, size); } else { std::ptr::write_bytes(p, 0xDD, size) } }; None },
        Some(_) => Some("block freed twice".to_string()),
        None => Some("dealloc of a block that is not allocated".to_string()),
    });
    if let Some(m) = r { fail(&m) }
}
#[no_mangle] pub extern "C-unwind" fn vfn_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8 {
    if new == 0 { fail("realloc to zero bytes") }
    if new > isize::MAX as usize - (align - 1) { fail("realloc to more than isize::MAX bytes") }
    if new > alloc_limit() && !with(|s| s.large && new <= BIG_LIMIT) {
        let ok = with(|s| matches!(s.blocks.get(&(p as usize)), Some(b) if b.alive && b.size == size && b.align == align));
        if !ok { fail("realloc of a block with another size or alignment") }
        return std::ptr::null_mut();
    }
    let ok = with(|s| matches!(s.blocks.get(&(p as usize)), Some(b) if b.alive && b.size == size && b.align == align));
    if !ok { fail("realloc of a block that is not allocated with this size") }
    let q = vfn_alloc(new, align);
    unsafe { std::ptr::copy_nonoverlapping(p, q, size.min(new).min(ROOMY_LIMIT)); }
    vfn_dealloc(p, size, align);
    q
}
#[no_mangle] pub extern "C-unwind" fn vfn_alloc_error(_: usize, _: usize) -> ! { println!("OUT-OF-MEMORY"); std::process::exit(78) }
#[no_mangle] pub extern "C-unwind" fn vfn_noop() {}
#[no_mangle] pub extern "C-unwind" fn vfn_panic(info: &core::panic::PanicInfo<'static>) -> ! {
    let m = format!("{} at {}", info.message(), info.location().map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line())));
    with(|s| s.last = m);
    std::panic::resume_unwind(Box::new(()))
}
#[no_mangle] pub extern "C-unwind" fn vfn_unreachable() { fail("code marked unreachable is reached") }
// ---- CPU ----
fn profile(p: u32, leaf: u32) -> [u32; 4] {
    let sse = 1u32 | 1 << 9 | 1 << 19 | 1 << 20 | 1 << 23;
    let os = 1u32 << 26 | 1 << 27 | 1 << 28;
    let w = |b: &[u8; 4]| u32::from_le_bytes(*b);
    match leaf {
        0 => [if p == 0 { 1 } else { 13 }, w(b"Genu"), w(b"ntel"), w(b"ineI")],
        0x8000_0000 => [0x8000_0008, 0, 0, 0],
        1 => match p { 0 => [0; 4], 1 => [0, 0, sse, 1 << 25 | 1 << 26], _ => [0, 0, sse | os | 1 << 12 | 1 << 29, 1 << 25 | 1 << 26] },
        7 => if p == 3 { [0, 1 << 3 | 1 << 5 | 1 << 8, 0, 0] } else { [0; 4] },
        0x8000_0001 => if p == 3 { [0, 0, 1 << 5, 0] } else { [0; 4] },
        _ => [0; 4],
    }
}
fn cpuid(leaf: u32, sub: u32) -> [u32; 4] { with(|s| { if let Some(r) = s.cpu.get(&(leaf, sub)) { return *r; } match s.profile { Some(p) => profile(p, leaf), None => if s.cpu.is_empty() { profile(3, leaf) } else { [0; 4] } } }) }
fn xcr0() -> u64 { with(|s| s.xcr0.unwrap_or(match s.profile { Some(_) => 7, None => if s.cpu.is_empty() { 7 } else { 0 } })) }
#[no_mangle] pub extern "C-unwind" fn vfn_cpuid(leaf: u32, sub: u32, out: *mut u32) { let r = cpuid(leaf, sub); for i in 0..4 { unsafe { *out.add(i) = r[i] } } }
#[no_mangle] pub extern "C-unwind" fn vfn_xgetbv(i: u32) -> u64 {
    if cpuid(1, 0)[2] >> 27 & 1 == 0 { fail("XGETBV executed on a CPU without OSXSAVE") }
    if i == 0 { xcr0() } else { 0 }
}
/// bits: 0 sse 1 sse2 2 sse3 3 ssse3 4 sse4.1 5 sse4.2 6 popcnt 7 avx 8 avx2 9 fma 10 bmi 11 bmi2 12 lzcnt 31 other
#[no_mangle] pub extern "C-unwind" fn vfn_feat(bits: u32) {
    // the most advanced one implies the others
    let bits = if bits >> 8 & 1 == 1 { bits & !0xff } else if bits >> 7 & 1 == 1 { bits & !0x7f } else { let s = bits & 0x3f; if s != 0 { bits & !0x3f | 1 << (31 - s.leading_zeros()) } else { bits } };
    let l1 = cpuid(1, 0);
    let avx = l1[2] >> 28 & 1 == 1 && l1[2] >> 27 & 1 == 1 && xcr0() & 6 == 6;
    let has = |i: u32| match i { 0 | 1 => true, 2 => l1[2] & 1 == 1, 3 => l1[2] >> 9 & 1 == 1, 4 => l1[2] >> 19 & 1 == 1, 5 => l1[2] >> 20 & 1 == 1, 6 => l1[2] >> 23 & 1 == 1, 7 => avx, 8 => avx && cpuid(7, 0)[1] >> 5 & 1 == 1, 9 => avx && l1[2] >> 12 & 1 == 1, 10 => cpuid(7, 0)[1] >> 3 & 1 == 1, 11 => cpuid(7, 0)[1] >> 8 & 1 == 1, 12 => cpuid(0x8000_0001, 0)[2] >> 5 & 1 == 1, _ => false };
    let names = ["sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "fma", "bmi1", "bmi2", "lzcnt"];
    for i in 0..32 { if bits >> i & 1 == 1 && !has(i) { fail(&format!("code compiled for {} executed on a CPU that does not support it", names.get(i as usize).unwrap_or(&"an unknown feature"))) } }
}
extern "C" { fn dlsym(h: *const u8, n: *const u8) -> *const u8; }
#[no_mangle] pub extern "C" fn main(argc: i32, argv: *const *const std::os::raw::c_char) -> i32 {
    let a: Vec<String> = (0..argc as usize).map(|i| unsafe { std::ffi::CStr::from_ptr(*argv.add(i)).to_string_lossy().into_owned() }).collect();
    if a.len() < 2 { return 2; }
    for x in &a[2..] {
        if x == "soft=1" { with(|s| s.soft = true); }
        if let Some(v) = x.strip_prefix("params=") { let l = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); with(|s| s.params = l); }
        if let Some(v) = x.strip_prefix("tape=") { let l = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); with(|s| s.tape = l); }
        if let Some(v) = x.strip_prefix("cpu=") { for l in v.split(';').filter(|x| !x.is_empty()) {
            let w: Vec<u64> = l.split(',').map(|x| x.parse().unwrap()).collect();
            if w[0] == 0xffff_0000 { with(|s| s.xcr0 = Some(w[2])); } else { let mut r = [0u32; 4]; for i in 0..4 { r[i] = w.get(2 + i).copied().unwrap_or(0) as u32; } with(|s| { s.cpu.insert((w[0] as u32, w[1] as u32), r); }); }
        } }
    }
    let n = std::ffi::CString::new(a[1].clone()).unwrap();
    let f = unsafe { dlsym(std::ptr::null(), n.as_ptr() as *const u8) };
    if f.is_null() { println!("no entry {}", a[1]); return 2; }
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| { let f: extern "C-unwind" fn() = unsafe { std::mem::transmute(f) }; f() });
    canaries();
    if r.is_err() { let l = with(|s| s.last.clone()); println!("FAIL panic: {}", l); return 10; }
    println!("OK");
    0
}
