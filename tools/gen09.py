#!/opt/veriftools/pyvenv/bin/python
"""Writes harness/src/flt9.rs: floats and the text they must render as (digits from Python and numpy, laid out by the
rules ryu documents; nothing here is taken from laby or ryu)."""
import os, random, struct, sys, math
import numpy as np
def bits64(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def f64(b): return struct.unpack('<d', struct.pack('<Q', b))[0]
def bits32(x): return int(np.float32(x).view(np.uint32))
def lay(neg, digits, k, hi, lo):
    kk = len(digits) + k; s = '-' if neg else ''
    if k >= 0 and kk <= hi: return s + digits + '0' * k + '.0'
    if 0 < kk <= hi: return s + digits[:kk] + '.' + digits[kk:]
    if lo < kk <= 0: return s + '0.' + '0' * -kk + digits
    if len(digits) == 1: return s + digits + 'e' + str(kk - 1)
    return s + digits[0] + '.' + digits[1:] + 'e' + str(kk - 1)
def text(x, sci, hi, lo, neg):
    if math.isnan(x): return 'NaN'
    if math.isinf(x): return '-inf' if neg else 'inf'
    if x == 0: return '-0.0' if neg else '0.0'
    m, e = sci.lstrip('-').split('e'); d = m.replace('.', ''); k = int(e) - (len(d) - 1)
    t = d.rstrip('0'); k += len(d) - len(t)
    return lay(neg, t, k, hi, lo)
def t64(b): x = f64(b); r = repr(x); return text(x, ('%r' % x if 'e' in r else sci(r)), 16, -5, b >> 63)
def sci(r):
    r = r.lstrip('-')
    if r in ('inf', 'nan'): return '0e0'
    a, _, f = r.partition('.'); d = a + f; n = len(a)
    z = len(d) - len(d.lstrip('0')); d2 = d.lstrip('0') or '0'
    return d2[0] + '.' + (d2[1:] or '0') + 'e' + str(n - 1 - z)
def t32(b): x = np.array([b], np.uint32).view(np.float32)[0]; return text(float(x), np.format_float_scientific(x, unique=True, trim='-') if np.isfinite(x) else '', 13, -6, b >> 31)
def values(n):
    r = random.Random(9)
    v = [0.0, 0.1, 0.2, 0.3, 0.5, 1.5, 2.5, 3.5, 0.75, 1.25, 99.99, 100.5, 123.456, 1e-3, 12345.678, 0.30000000000000004, math.pi, math.e, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 4.9406564584124654e-320, 9007199254740993.0, 0.1 + 0.7]
    for k in list(range(-12, 25)) + [30, 38, 50, 100, 200, 300, -20, -38, -45, -100, -300]: v += [10.0 ** k, 1.2345 * 10.0 ** k, 9.9999999 * 10.0 ** k]
    for k in range(0, 70, 3): v += [2.0 ** k, 2.0 ** k - 1, 2.0 ** k + 0.5, 2.0 ** -k]
    v += [float(i) for i in list(range(0, 21)) + [42, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1001, 9999, 32767, 32768, 65535, 65536, 99999, 100000, 16777215, 16777216, 16777217, 2147483647, 2147483648, 4294967295, 4294967296, 1e15, 1e16, 123456789012345, 1234567890123456]]
    v += [r.uniform(-1000, 1000) for _ in range(n)] + [round(r.uniform(-100, 100), 2) for _ in range(n)] + [r.uniform(1, 10) * 10.0 ** r.randint(-40, 40) for _ in range(n)]
    return v
def main():
    v = values(25); l64, l32 = [], []
    for x in v:
        for s in (x, -x): l64.append(bits64(s))
        with np.errstate(over='ignore'):
            for s in (x, -x):
                b = bits32(s)
                if b & 0x7f800000 != 0x7f800000: l32.append(b)
    r = random.Random(10)
    l64 += [r.getrandbits(64) for _ in range(40)] + [0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8 << 48, (0x7ff0 << 48) + 1, 0x7fffffffffffffff, 1 << 63 | 1]
    l32 += [r.getrandbits(32) for _ in range(40)] + [0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0x7f7fffff, 0xff7fffff, 1, 1 << 31 | 1, 0x007fffff, 0x00800000]
    out = ['//! floats and their texts (written by tools/gen09.py)', 'use crate::pre::*;']
    for n, l, t, ty in (('64', l64, t64, 'u64'), ('32', l32, t32, 'u32')):
        l = list(dict.fromkeys(l))
        out.append('pub static F%s: &[(%s, &str)] = &[%s];' % (n, ty, ', '.join('(0x%x, "%s")' % (b, t(b)) for b in l)))
        out.append('#[no_mangle] pub fn h_f%s_list() { for (i, &(x, s)) in F%s.iter().enumerate() { if i %% 16 != p(2) { continue; } let b = start(p(0), p(1)); lit(s); finish(b, f%s::from_bits(x)); spec_reset(); } }' % (n, n, n))
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src', 'flt9.rs'), 'w').write('\n'.join(out) + '\n')
main()
