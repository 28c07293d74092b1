"""Which jobs decide each property: (flavour, "entry params", seconds). CPU column: 0 = any processor (symbolic), k = profile k-1.
Limit column: 0 = none, k = at most k-1 special characters."""
import os, re

FALLBACK, SSE2, AVX, AVX2 = 1, 2, 3, 4
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/src')
PLAIN = False
def cases(f):
    """the template programs of a harness file"""
    s = open(os.path.join(SRC, f + '.rs')).read()
    if PLAIN: return re.findall(r'\b(h_\w+)\(b\) \{', s)
    g = os.path.join(SRC, 'g' + f[1:] + '.rs')
    if os.path.exists(g): s += open(g).read()
    for k in ('len', 'near', 'only', 'wide'):
        g = os.path.join(SRC, k + f[1:] + '.rs')
        if os.path.exists(g): s += open(g).read()
    return re.findall(r'\b(h_\w+)\(b\) \{', s)
def tpl(f, t, caps=((4096, 3), (0, 0)), fl=('rel',), secs=40):
    if t != 'quick': caps = tuple(caps) + ((1, 0), (7, 5), (16, 2), (33, 0)); fl = ('rel', 'dev')
    return [(x, '%s %d %d%s' % (h, c, q, ' merge=0' if re.match('h_22_w1[5-9]|h_18_fixed', h) else ''), secs) for x in fl for h in cases(f) for c, q in caps]

def named(hs, t): return [(fl, '%s %d %d' % (h, c, q), 40) for fl in (('rel',) if t == 'quick' else ('rel', 'dev')) for i, h in enumerate(hs) for c, q in (((4096, 3), (0, 0))[i % 2:][:1] if t == 'quick' else ((4096, 3), (0, 0)))]

def esc_jobs(t, small):
    """escape(): the list C01 and C02 share"""
    j = []
    q = t == 'quick'
    def e(n, mis, cap, pre, cpu, lim, secs=60, fl='rel'): j.append((fl, 'h_escape %d %d %d %d %d %d' % (n, mis, cap, pre, cpu, lim), secs))
    def w(n, mis, cap, pre, cpu, win, secs=60, fl='rel', h='h_escape_win'): j.append((fl, '%s %d %d %d %d %d 0 %d merge=0' % (h, n, mis, cap, pre, cpu, win), secs))
    for n in range(0, 16):
        for cap, pre in ((0, 0), (6 * n, 0), (n, 3), (6 * n + 1, 7)): e(n, n * 5 % 9, cap, pre, AVX2, 0, 30)
    for n in (16, 17, 23, 24, 31) if q else range(16, 36):
        for cpu in (FALLBACK, SSE2, AVX2): e(n, (n * 3 + cpu) % 16, 6 * n, n & 1, cpu, 4 if q and n > 24 and cpu != AVX2 else 0, 90)
    for n in (19, 22, 28, 32, 33, 39, 41, 48, 63, 64, 65) if q else range(18, 131, 3):
        for cpu in (FALLBACK, SSE2, AVX2): e(n, (n + 3 * cpu) % 32, (6 * n, n)[n % 2], n % 4, cpu, (3 if n <= 41 else 2) + (not q), 60)
    for n in (34, 47, 49, 66, 72, 97, 128, 129, 131, 160, 191, 192, 193, 224, 255, 256, 257, 300) if q else list(range(33, 330)) + [383, 384, 385, 511, 512, 513, 640, 1023, 1024, 1025, 2047, 2049, 4097]:
        for cpu in (FALLBACK, SSE2, AVX2): w(n, (n + cpu) % 33, (0, n, 6 * n)[(n + cpu) % 3], n % 3, cpu, (2 if n in (49, 72, 129) else 1) if q else 2 if n < 260 else 1, 120)
    # long texts of fixed content, two bytes symbolic: dense, sparse, only, no, no late special characters
    def g(n, cap, pre, cpu, kind, secs=60): j.append(('rel', 'h_escape_long %d %d %d %d %d 0 %d merge=0' % (n, n % 7, cap, pre, cpu, kind), secs))
    for i, n in enumerate((383, 511, 512, 513, 640, 768, 1000, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8192, 10001) if q else list(range(330, 2100, 7)) + list(range(2100, 20000, 211))):
        for cpu in (FALLBACK, SSE2, AVX2):
            for k in ((i + cpu) % 5, (i + cpu + 2) % 5, 5 + (i + cpu) % 3) if q else range(8):
                if n < 5000 or k != 2: g(n, (0, n, 6 * n)[(i + k) % 3], i % 4, cpu, k)
    for cpu in (FALLBACK, SSE2, AVX2):
        g(16385, 0, 1, cpu, cpu % 2, 120); g(13110, 0, 0, cpu, 2, 120); g(65600, (0, 65600)[cpu % 2], 1, cpu, 3, 120); g(16390, 0, 1, cpu, 5 + cpu % 2, 120); g(65603, 70000, 0, cpu, 6 - cpu % 2, 120)
        if not q: g(65600, 0, 0, cpu, 0, 400); g(32768, 0, 0, cpu, 1, 400); g(32769, 40000, 0, cpu, 4, 400); g(70000, 0, 0, cpu, 1, 400)
    # every alignment of the text
    for mis in range(0, 8):
        for n in (16, 23, 24): e(n, mis, n + 8, 1, FALLBACK, 3, 40)
    for mis in range(0, 32, 7 if q else 1):
        for cpu in (SSE2, AVX2): e(33, mis, 40, 0, cpu, 2, 40)
    # every amount of spare room
    for cap in range(0, 24): e(16, 3, cap, 2, (FALLBACK, SSE2, AVX2)[cap % 3], 3, 40)
    for cap in range(30, 70, 5 if q else 1): e(33, 3, cap, 0, (FALLBACK, SSE2, AVX2)[cap // 5 % 3], 3, 40)
    if small: return j
    for n in (0, 1, 3, 4): j.append(('rel', 'h_escape_str %d 1 0 0 %d 0' % (n, AVX2), 40))
    for n in (7, 16, 33, 48):
        for cpu in (FALLBACK, SSE2, AVX2): w(n, 1, 0, 0, cpu, 1 if q else 2, h='h_escape_str_win')
    for a, b in ((3, 5), (16, 3), (7, 17), (32, 5))[:3 if q else 4]:
        for cpu in (FALLBACK, SSE2, AVX2): j.append(('rel', 'h_escape_twice %d 1 0 0 %d %d %d' % (a, cpu, 3, b), 60))
    # any processor at all
    for n in (16, 33): e(n, 1, 6 * n, 0, 0, 1, 60)
    return j

def c01(t, rnd): return esc_jobs(t, False)

def c02(t, rnd):
    q = t == 'quick'
    j = []
    def e(n, mis, cap, pre, cpu, lim, secs=60, fl='rel'): j.append((fl, 'h_escape %d %d %d %d %d %d' % (n, mis, cap, pre, cpu, lim), secs))
    def w(n, mis, cap, pre, cpu, win, secs=60, fl='rel'): j.append((fl, 'h_escape_win %d %d %d %d %d 0 %d' % (n, mis, cap, pre, cpu, win), secs))
    # every length around the block sizes, text ending at the end of what may be read
    for n in range(0, 16): e(n, 0, 0, 0, AVX2, 0, 30)
    for n in range(16, 50 if q else 140):
        for cpu in (FALLBACK, SSE2, AVX2): w(n, (n * 7 + cpu) % 32, (0, n, 5 * n // 2)[(n + cpu) % 3], n % 2, cpu, 1)
    for n in (16, 17, 24, 32, 33, 40) if q else range(16, 70):
        for cpu in (FALLBACK, SSE2, AVX2): e(n, (n + cpu) % 16, 0, 0, cpu, 3 if n < 33 or not q else 2)
    for mis in range(0, 8): e(21, mis, 0, 0, FALLBACK, 2)
    for mis in range(0, 32, 5 if q else 1):
        for cpu in (SSE2, AVX2): w(37 + mis % 9, mis, 0, 0, cpu, 1)
    for cap in range(0, 30, 1): e(17, 1, cap, cap % 4, (FALLBACK, SSE2, AVX2)[cap % 3], 3, 40)
    for n in (3, 17, 33): e(n, 1, 0, 0, AVX2, 2, 60, 'dev'); e(n, 1, 0, 0, FALLBACK, 2, 60, 'dev')
    for cap in range(0, 9):
        for pre in (0, 3, cap): j.append(('rel', 'h_char %d %d' % (cap, pre), 30))
    for cap in range(0, 12, 1 if not q else 3):
        for n in (0, 1, 4): j.append(('rel', 'h_mix %d %d %d' % (cap, cap % 4, n), 30))
    for cap in range(0, 30, 3 if q else 1):
        j.append(('rel', 'h_f32 %d %d' % (cap, cap % 4), 40)); j.append(('rel', 'h_f64 %d %d' % (cap, cap % 4), 40))
    for h, d in INTS:
        for cap in (0, 1, d - 1, d, d + 1, d + 3): j.append(('rel', '%s %d 0 1 2 %d 0 %d %d' % (h, d if 'u' in h[2:4] else d - 1, 0 if 'u' in h[2:4] else 1, cap, cap % 3), 30))
    return j

def c03(t, rnd):
    j = []
    q = t == 'quick'
    for n in (0, 1, 5, 15, 16, 17, 31, 32, 33, 40) if q else range(0, 66):
        for cap in (0, 6 * n): j.append(('rel', 'h_escape %d 1 %d 0 0 %d' % (n, cap, (2 if n < 18 else 1) if q else 2), 90 if q else 600))
    j.append(('rel', 'h_escape 33 1 198 0 0 2', 100))
    for c in range(0, 5):
        for threads in (1, 2, 3):
            for calls in (2, 3, 4):
                if q and (calls + threads > 5 + (c > 0) or calls + threads > 6): continue
                j.append(('rel', 'h_threads %d %d %d %d' % (calls, threads, c, 33 if c % 2 else 16), 90 if q else 900))
    for cpu in (FALLBACK, SSE2, AVX2):
        for n in (16, 20, 31, 32, 33, 64, 100) if q else (16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 200): j.append(('rel', 'h_history 2 %d %d merge=0' % (cpu, n), 60))
        if not q: j.append(('rel', 'h_history 3 %d 16 merge=0' % cpu, 600))
    for n in (16, 33): j.append(('dev', 'h_escape %d 1 0 0 0 %d' % (n, 2 if n == 16 else 1), 60))
    return j

def c04(t, rnd):
    q = t == 'quick'; j = []
    for cap, pre in ((0, 0), (1, 0), (3, 2), (8, 8), (16, 5)) if q else [(c, x) for c in range(0, 12) for x in (0, 1, c)]:
        for k in range(1, 12): j.append(('rel', 'h_ops 2 2 %d %d %d' % (cap, pre, k), 60))
    for k in range(1, 12): j.append(('rel', 'h_ops 3 %d 2 1 %d' % (1 if q else 2, k), 120)); j.append(('dev', 'h_ops 2 1 2 1 %d' % k, 60))
    if not q:
        for k in range(1, 12):
            for l in range(1, 12): j.append(('rel', 'h_ops 4 1 1 0 %d %d' % (k, l), 300))
    for cap in (0, 1, 4, 7, 16, 31):
        for a in (1, 2, 5, 9, 17, 33): j.append(('rel', 'h_push %d %d %d %d %d' % (cap, cap % 4, a, 1 + (a * 3 + cap) % 7, 1 + (a + cap) % 40), 40))
    for i in range(24):
        for cap, pre in ((0, 0), ((7, 100, 5000, 65536)[i % 4], 3)): j.append(('rel', 'h_long %d %d %d %d merge=0' % (cap, pre, 2 if q else 3, i), 120 if q else 600))
    for cap in (0, 4, 13): j.append(('rel', 'h_fmt %d 1 3' % cap, 60))
    return j

def c05(t, rnd):
    q = t == 'quick'; j = []
    for fl in ('rel', 'dev'):
        for cap, pre in ((0, 0), (1, 0), (1, 1), (2, 1), (7, 3), (8, 8), (16, 3), (33, 40)):
            j.append((fl, 'h_reserve %d %d %d 0' % (cap, pre, 70 if q else 250), 60)); j.append((fl, 'h_reserve %d %d %d 1' % (cap, pre, 40), 60))
            j.append((fl, 'h_huge %d %d 0' % (cap, pre), 40)); j.append((fl, 'h_huge %d %d 2' % (cap, pre), 40)); j.append((fl, 'h_huge %d %d 1' % (cap, pre), 40)); j.append((fl, 'h_vast %d %d merge=0' % (cap, pre), 60))
        j.append((fl, 'h_with 64 0', 40)); j.append((fl, 'h_with 64 1', 40)); j.append((fl, 'h_with 64 2', 40))
        for cap, pre in ((0, 0), (3, 1), (9, 9)): j.append((fl, 'h_series %d %d 2 12' % (cap, pre), 60))
        for cap, pre in ((0, 0), (30, 30), (1000, 3), (40000, 1)):
            for k in (0, 1, 2):
                if not q or fl == 'rel' or (cap == 0 and k != 1): j.append((fl, 'h_large %d %d %d' % (cap, pre, k), 120))
        for cap in range(0, 10): j.append((fl, 'h_grow %d %d %d' % (cap, cap % 3, cap % 4), 60))
    return j

def c06(t, rnd):
    j = []
    R = (0, 1, 3) if t == 'quick' else (0, 1, 2, 3, 8)
    for fl in ('rel',) if t == 'quick' else ('rel', 'dev'):
        for spare in (0, 1, 7):
            for n in R:
                for x in (0, 2): j.append((fl, 'h_from_string %d %d %d %d' % (spare, n, x, 1), 40))
        for n in R:
            for x in (0, 2): j.append((fl, 'h_from_str %d %d' % (n, x), 40))
        for cap in (0, 2, 5):
            for n in R:
                for x in (0, 1, 3): j.append((fl, 'h_clone %d %d %d %d' % (cap, n, x, 2 if x == 0 else 1), 40)); j.append((fl, 'h_clear %d %d %d' % (cap, n, x), 40))
        for cap in range(0, 6):
            for x in (0, 1, 4): j.append((fl, 'h_into %d %d %d' % (cap, cap % 3, x), 40))
        for k in range(8):
            for cap in (0, 9): j.append((fl, 'h_big %d %d merge=0' % (cap, k), 120))
            for m in (1, 2): j.append((fl, 'h_big 0 %d merge=0' % (16 * m + k), 120))
    return j

def c07(t, rnd):
    j = []
    for fl in ('rel', 'dev'):
        for cap in range(0, 11):
            for pre in (0, 1, 5): j.append((fl, 'h_char %d %d' % (cap, pre), 30))
    for cap in (0, 3, 6, 40): j += [('rel', 'h_chars %d 2 0' % cap, 60), ('rel', 'h_chars %d 2 1' % cap, 60)]
    return j

INTS = (('h_u8', 3), ('h_i8', 4), ('h_u16', 5), ('h_i16', 6), ('h_u32', 10), ('h_i32', 11), ('h_u64', 20), ('h_i64', 20), ('h_usize', 20), ('h_isize', 20), ('h_u128', 39), ('h_i128', 40))
DIG = {'h_u8': 3, 'h_i8': 3, 'h_u16': 5, 'h_i16': 5, 'h_u32': 10, 'h_i32': 10, 'h_u64': 20, 'h_usize': 20, 'h_i64': 19, 'h_isize': 19, 'h_u128': 39, 'h_i128': 39}
def c08(t, rnd):
    q = t == 'quick'; j = []
    for ty in (0, 1):
        for nz in (0, 1):
            for cap, pre in ((0, 0), (40, 2)): j.append(('rel', 'h_all8 %d %d %d %d' % (ty, nz, cap, pre), 60)); j.append(('rel', 'h_all16 %d %d %d %d' % (ty, nz, cap, pre), 90))
    for k, (h, d) in enumerate(DIG.items()):
        sg = h[2] == 'i'
        for n in range(1, d + 1):
            for at in range(0, (n + 1) // 2):
                for fill in ((0, 1, 2, 3) if d < 30 or at in (0, (n + 1) // 2 - 1) else (3,)) if q else range(0, 8):
                    for neg in (0, 1) if sg else (0,):
                        x = n + at + fill
                        j.append(('rel', '%s %d %d 1 %d %d %d %d %d' % (h, n, at, fill, neg, x % 2, (0, 39, 20, d, d - 1)[x % 5], x % 4), 20))
    if q:
        j = [x for i, x in enumerate(j) if i < 8 or i % 2 == 0 or ' 2 ' in x[1]]
    else:
        for h in ('h_u32', 'h_i32', 'h_u64', 'h_i64'):
            for n in range(2, DIG[h] + 1):
                for at in range(0, (n + 1) // 2 - 1): j.append(('rel', '%s %d %d 2 3 %d 0 0 0' % (h, n, at, h[2] == 'i'), 600))
    return j

def c09(t, rnd):
    j = []
    for fl in ('rel', 'dev'):
        for cap in range(0, 34, 3 if t == 'quick' else 1):
            for h in ('h_f32', 'h_f64'): j.append((fl, '%s %d %d' % (h, cap, cap % 4), 60))
        for cap in (40, 0) if t == 'quick' else (40, 0, 13, 25):
            for h in ('h_f32_list', 'h_f64_list'): j += [(fl, '%s %d %d %d' % (h, cap, cap % 3, i), 60) for i in range(16)]
    return j

BIG = (65, 100, 129, 200, 255, 256, 257, 500, 513, 1000, 1025, 2049, 4097, 5000, 9000)
def big(h, t, top=0, kinds=(0, 1, 3, 5, 6, 7)):
    l = BIG if t == 'quick' else tuple(range(33, 700, 13)) + BIG + (16385, 20000, 33000)
    return [('rel', '%s %d %d %d %d merge=0' % (h, (0, n, 70000)[i % 3], i % 3, n, k), 90) for i, n in enumerate(l) for k in (kinds if t != 'quick' else (kinds[i % len(kinds)],))] + ([('rel', '%s 0 0 %d 3 merge=0' % (h, n), 120) for n in (16385, 65600)] if top else [])
def c10(t, rnd): return tpl('c10', t, caps=((64, 3), (0, 0), (3, 1))) + big('h_10_big', t)
def c11(t, rnd):
    j = tpl('c11', t, caps=((64, 3), (0, 0)), secs=90)
    for n, k in ((16, 8), (17, 16), (20, 3), (33, 17)): j.append(('rel', 'h_11_long 0 0 %d %d' % (n, k), 90))
    return j + [x for x in big('h_11_big', t) if t != 'quick' or int(x[1].split()[3]) < 5000]
def c12(t, rnd):
    j = tpl('c12', t, caps=((64, 3), (0, 0)))
    for h in ('h_12_iter', 'h_12_delim', 'h_12_lines'):
        for n in range(0, 5):
            for m in (0, 1, 2):
                for d in range(5 if h == 'h_12_iter' else 3):
                    if h == 'h_12_lines' and d: continue
                    j.append(('rel', '%s %d %d %d %d %d' % (h, n, m, d, (0, 64)[(n + m + d) % 2], n % 3), 60))
    for n in range(0, 5): j.append(('rel', 'h_12_once 0 1 %d' % n, 20))
    for i, n in enumerate((5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 300) if t == 'quick' else list(range(5, 140)) + [200, 255, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025]):
        for d in (0, 1, 2, 3): j.append(('rel', 'h_12_many %d %d %d %d merge=0' % ((0, n, 10000)[i % 3], i % 4, n, d), 60))
    for n in (1000, 2001, 4097, 65540): j += [('rel', 'h_12_huge %d 3 %d %d merge=0' % ((0, 200000)[d & 1], n, d), 60) for d in range(4)]
    return j
def c13(t, rnd):
    j = tpl('c13', t, caps=((64, 3), (0, 0)))
    for n in (0, 1, 2, 5, 8, 15, 16, 17, 32, 33, 64): j += [('rel', 'h_13_raw 0 0 %d' % n, 40), ('rel', 'h_13_raw %d 2 %d' % (n + 2, n), 40), ('rel', 'h_13_raw %d 2 %d' % (n + 1, n), 40)]
    return j + big('h_13_big', t, 1)

def c14(t, rnd):
    j = tpl('c14', t)
    for f in range(0, 12):
        for c, q in ((4096, 3), (0, 0)) if t == 'quick' else ((4096, 3), (0, 0), (1, 1), (17, 2), (64, 64)): j.append(('rel', 'h_14_tags %d %d %d' % (c, q, f), 90))
    return j
def c15(t, rnd):
    j = tpl('c15', t)
    for f in range(0, 10):
        for c, q in ((4096, 3), (0, 0)) if t == 'quick' else ((4096, 3), (0, 0), (1, 1), (17, 2), (64, 64)): j.append(('rel', 'h_15_tags %d %d %d' % (c, q, f), 90))
    return j
for _n in range(16, 30):
    def _f(t, rnd, n=_n): return tpl('c%d' % n, t)
    globals()['c%d' % _n] = _f
def c24(t, rnd):
    q = t == 'quick'
    src = open(os.path.join(SRC, 'c24.rs')).read()
    src = src[src.index('text! {'):]
    j = [(fl, h, 90) for fl in (('rel',) if q else ('rel', 'dev')) for h in re.findall(r'\b(h_\w+) \{', src)]
    for cap, pre in ((0, 0), (1, 1), (5, 2), (64, 3), (4096, 0)) if q else [(c, x) for c in range(0, 40) for x in (0, 1, 3)]:
        for n in (1, 2) if q else (1, 2, 3): j.append(('rel', 'h_24_seq %d %d %d' % (cap, pre, n), 60 if q else 300))
        j.append(('rel', 'h_24_reused %d merge=0' % cap, 60)); j.append(('rel', 'h_24_alone %d' % cap, 60))
    return j + tpl('c24', t)

def c25(t, rnd):
    q = t == 'quick'; j = []
    hs = re.findall(r'\b(h_25_\w+)\(x\)', open(os.path.join(SRC, 'c25.rs')).read())
    for i, h in enumerate(hs):
        for n in range(0, 3 if q else 5): j.append(('rel', '%s %d %d 0 %d 0' % (h, (0, 4096, 5)[(n + i) % 3], n % 3, n), 60))
        for c, n in ((1, 17), (2, 24), (4, 33)) if q else [(c, n) for c in (1, 2, 3, 4) for n in (15, 16, 17, 24, 31, 32, 33, 40, 64, 65)]:
            j.append(('rel', '%s %d 1 1 %d %d' % (h, (0, 4096, 20)[(n + i) % 3], n, c), 60))
        for k, (c, m, n) in enumerate(((1, 3, 300), (4, 3, 1000), (2, 4, 5000), (4, 3, 257), (1, 4, 1025), (2, 3, 130), (4, 9, 8200), (1, 8, 520), (2, 10, 1030))):
            if (not q or k % 3 == i % 3) and 'char' not in h: j.append(('rel', '%s %d 1 %d %d %d merge=0' % (h, (0, n)[i % 2], m, n, c), 90))
        if not q:
            for c in (1, 2, 4): j.append(('rel', '%s 0 1 2 %d %d' % (h, 20 + 13 * (c > 1), c), 300))
            j.append(('dev', '%s 0 1 0 2 0' % h, 60)); j.append(('dev', '%s 0 1 1 33 4' % h, 60))
    if q:
        for h in ('h_25_text', 'h_25_attr', 'h_25_args'):
            for c, n in ((1, 20), (2, 20), (4, 36)):
                if h != 'h_25_args' or n == 20: j.append(('rel', '%s 0 1 2 %d %d' % (h, n, c), 60))
    return j

def c26(t, rnd):
    """the other harnesses' jobs, in both profiles"""
    global PLAIN
    q = t == 'quick'; j = []
    PLAIN = True
    for n in (1, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24):
        if n == 1:
            l = [('rel', 'h_escape %d %d %d 1 %d %d' % (k, k % 8, c, cpu, 0 if k < 16 else 1 + (k < 33)), 60) for k in ((0, 1, 3, 7, 15, 16, 17, 23, 32, 33, 64) if q else range(0, 70)) for c, cpu in ((0, FALLBACK), (k, SSE2), (6 * k, AVX2), (0, AVX2)) if k > 15 or cpu == AVX2]
            l += [('rel', 'h_escape_str %d 1 0 0 %d 0' % (k, AVX2), 40) for k in (0, 1, 3)] + [('rel', 'h_escape_str_win %d 1 0 0 %d 0 1' % (k, cpu), 40) for k in (16, 33) for cpu in (FALLBACK, SSE2, AVX2)]
        elif n == 6: l = [x for x in c06('quick', rnd) if q == 0 or 'h_big' in x[1] or x[1].endswith(' 1')]
        elif n in (8,): l = c08('quick', rnd)[::1 if not q else 24]
        elif n in (14, 15): l = [x for x in globals()['c%02d' % n]('quick', rnd) if '_tags' not in x[1] or ' 0 0 ' in x[1]]
        else: l = globals()['c%02d' % n]('quick' if q else t, rnd)
        if q and n in (12, 13): l = l[::2]
        for fl, line, secs in l:
            w = line.split()
            if q and w[0] in ('h_14_tags', 'h_15_tags') and int(w[3]) % 3: continue
            if q and (line.startswith('h_ops 3') or w[0] == 'h_i128' and len(w) > 3 and int(w[1]) % 3): continue
            if q and n in (10, 11) and '_long' in w[0]: continue
            if q and w[0] == 'h_12_many' and (int(w[4]) != int(w[3]) % 4 or int(w[3]) > 130): continue
            if q and w[0] == 'h_16_value_kinds' and ' 0 0' in line: continue
            # cap 0 in both profiles, other capacities in the dev one
            if 'dev' == fl and w[0].startswith('h_c') is False and any(x[1] == line and x[0] == 'rel' for x in l): continue
            j.append(('dev', line, secs))
            if not q or ' 0 0' in line or n < 10: j.append(('rel', line, secs))
    PLAIN = False
    # every length in each variant: no special character, and one
    for k in range(16, 131) if q else range(16, 300):
        for cpu in (FALLBACK, SSE2, AVX2):
            for fl in ('dev', 'rel') if not q else ('dev',): j.append((fl, 'h_escape_plain %d %d %d 0 %d 0' % (k, (k * 5 + cpu) % 33, k, cpu), 40))
            if not q or k % 4 == cpu: j.append(('dev', 'h_escape_win %d %d %d 0 %d 0 1' % (k, (k * 3 + cpu) % 33, k, cpu), 60))
    return list(dict.fromkeys(j))

def c27(t, rnd):
    q = t == 'quick'; j = []
    src = open(os.path.join(SRC, 'c27.rs')).read()
    hs = re.findall(r'\b(h_27_\w+)\((?:b, )?x, ', src) + ["h_27_twice"]
    for h in hs:
        for c, pre in ((0, 0), (5, 3), (4096, 1)) if q else ((0, 0), (1, 1), (3, 0), (5, 3), (8, 8), (17, 2), (64, 0), (4096, 1)):
            for n in ((1, 0) if c != 5 else (1,)) if q else (0, 1, 2): j.append(('rel', '%s %d %d %d%s' % (h, c, pre, n, ' merge=0' if h == 'h_27_twice' else ''), 60))
        if not q: j.append(('dev', '%s 0 0 1' % h, 60))
    for h in ('h_27_render', 'h_27_render_one', 'h_27_dropped'): j += [(fl, h + ' 0 0 1', 60) for fl in ('rel', 'dev')]
    for c, pre in ((0, 0), (1, 1), (4, 2)): j += [('rel', 'h_27_ops %d %d 1 %d' % (c, pre, 2 if q else 3), 120), ('rel', 'h_27_refused %d %d' % (c, pre), 30)]
    for c in (0, 100, 16380, 65000, 131072) if q else (0, 3, 100, 4095, 16380, 20000, 40000, 65000, 65535, 65536, 131072, 1 << 20):
        for n in (5000, 66000) if q else (1000, 5000, 20000, 33000, 66000, 70000): j.append(('rel', 'h_27_big %d %d %d merge=0' % (c, n, 2 if q else 3), 120))
    j.append(('rel', 'h_27_ops 0 0 0 3', 120))
    return j

def c28(t, rnd):
    q = t == 'quick'; j = []
    hs = re.findall(r'\b(h_28_\w+)\(x, c', open(os.path.join(SRC, 'c28.rs')).read())
    for h in hs:
        for fl in ('rel',) if q else ('rel', 'dev'):
            for c, pre in ((4096, 3), (0, 0)) if q else ((4096, 3), (0, 0), (1, 1), (7, 5), (40, 0)):
                for n in (1,) if q else (0, 1, 2): j.append((fl, '%s %d %d %d' % (h, c, pre, n), 60))
            for n in (17, 40, 90) if q else (9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 90, 128, 140):
                for cpu in (FALLBACK, SSE2, AVX2):
                    if not q or (n + cpu) % 3 == 0: j.append((fl, '%s 16384 1 %d %d' % (h, n, cpu), 60))
            for i, n in enumerate((141, 300, 1025, 5000) if q else (141, 256, 300, 513, 1000, 1025, 4096, 4097, 5000, 9000)): j.append((fl, '%s %d 1 %d %d merge=0' % (h, 0 if i % 2 and q and n < 5000 else 700000, n, (FALLBACK, SSE2, AVX2)[(i + n) % 3]), 90))
    j += [(fl, 'h_28_empty 0 0 %d' % n, 60) for n in (1, 2, 40) for fl in ('rel', 'dev')]
    for n in (17, 90): j += [('rel', 'h_28_render 0 0 %d' % n, 60), ('rel', 'h_28_again 0 0 %d' % n, 60)]
    for fl in ('rel', 'dev'): j += [(fl, 'h_28_render 0 0 1', 60), (fl, 'h_28_again 0 0 1', 60)]
    return j

def c29(t, rnd): return tpl('c29', t) + [(fl, h, 60) for fl in ('rel', 'dev') for h in ('h_29_render', 'h_29_render_into')]

ALL = {k: v for k, v in globals().items() if re.match(r'c\d\d$', k)}
ALL = {k.upper(): v for k, v in ALL.items()}
F32 = [0x00000000, 0x80000000, 0x00000001, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x3f800000, 0xbfb504f3, 0xe51a4c3b, 0x9a83f92b, 0x8d3a9f4d, 0xc2f6e979, 0x4b800000, 0x0da24260]
F64 = [0, 1 << 63, 1, 1 << 63 | 1, 0x7fefffffffffffff, 0xffefffffffffffff, 0x3ff0000000000000, 0xbff6a09e667f3bcd, 0xffe1ccf385ebc8a0, 0x801fffffffffffff, 0x8010000000000000, 0xc05edd2f1a9fbe77, 0x4340000000000000, 0x3eb0c6f7a0b5ed8d]
FLT = {w: [int(x, 16) for x in re.findall(r'\((0x[0-9a-f]+), "', l)] for w, l in re.findall(r'static F(\d\d)[^\n]*?= (&\[.*)', open(os.path.join(SRC, 'flt9.rs')).read())}
F32 += FLT['32'][::3]; F64 += FLT['64'][::3]
def floats(entry, v):
    """other floats for the same job: every length of output"""
    if not entry.startswith('h_f') or 'list' in entry: return []
    return [[(32 if '32' in entry else 64, x)] + v['tape'][1:] for x in (F32 if '32' in entry else F64)]
META = {
    'C03': {'interpreter_only': lambda e: e == 'h_threads'},
    'C02': {'alternatives': floats, 'soft': lambda fl: True, 'ignore': r'panic'},
    'C26': {'alternatives': floats, 'soft': lambda fl: fl == 'rel', 'differs': True}, 'C09': {'alternatives': floats},
}
TXT = 'texts of every content up to %s bytes'
BOUNDS = {
    'C01': 'every content of lengths 0..15; lengths 16..65 with at most 2-4 special characters anywhere and every ordinary content around them; lengths up to 300 (thorough 330, and to 4097) with one (some lengths and thorough: two) special characters anywhere; texts of 383 to 65600 bytes whose content is fixed (ordinary, sparse, dense, only special, one at the end) but for two symbolic bytes; every alignment 0..31; spare room 0..69; long texts of 2-, 3- and 4-byte characters as well; scalar, SSE2 and AVX2 code each',
    'C02': 'as C01 with lengths up to 49 (thorough 140) and the text ending at the end of readable memory; values (char, ints, floats, mixtures) with every spare room around their size',
    'C03': 'every CPUID answer (all bits of leaves 0, 1, 7, 0xd, 0x80000000..., XCR0 symbolic); texts up to 40 bytes; up to 3 threads and 4 calls in every interleaving of the atomic operations, plain accesses checked for races; histories of three calls with texts of different lengths',
    'C04': 'sequences of 2-3 operations (thorough 4) of 11 kinds with symbolic arguments; capacities 0..16, previous length up to the capacity; single and repeated pushes of up to 65537 bytes',
    'C05': 'requests 0..70 (thorough 0..250), requests up to 16 GiB that succeed and every request above 2^20 including those that overflow; capacities 0..40000; three requests in a row',
    'C06': 'texts of 0, 1 and 3 bytes (thorough 8) of any content, spare room 0..7, followed by up to 4 further appended bytes',
    'C07': 'all 1,112,064 characters, spare room 0..10, two characters in a row',
    'C08': 'all values of the 8 and 16 bit types; wider types: every value of one digit pair (thorough: two) at every position, other digits zeros, nines, the maximum and pseudo-random ones, both signs, every digit count',
    'C09': 'all bit patterns; the text of the digits is whatever the formatter may write within its documented 24/16 byte bound (modelled), spare room 0..33; about 700 fixed values of each width through the real formatter (powers of ten, two, subnormals, extremes, integers around 2^24/2^53)',
    'C10': 'texts of 1-4 symbolic bytes; texts of 65..9000 bytes with a symbolic byte', 'C11': 'texts up to 33 bytes split at every place the writers in the corpus split them; texts of 65..4097 bytes in pieces of doubling lengths; every formatter flag',
    'C12': 'iterators of up to 4 items that may go on after their end, items and delimiters of 0..2 symbolic bytes; 5..300 items of one symbolic byte with four delimiters; up to 65540 items, mostly empty',
    'C13': 'raw texts up to 64 bytes of any content; 65..65600 bytes with a symbolic byte', 'C24': 'up to 2 (thorough 3) renderables in turn out of a corpus; capacities up to 4096; outputs beyond render!\'s 16384 bytes',
    'C25': 'untrusted texts of every content of 0..2 bytes (thorough 0..4); longer ones of 17..33 bytes (thorough 65) with one, or a run of four, symbolic bytes at any multiple of five; fixed long texts of 130..5000 bytes with a symbolic byte; for each processor variant',
    'C26': 'the inputs of the other harnesses, dev and release profiles, and every length 16..130 in each processor variant; messages about content are reported only if the profiles differ',
    'C27': 'up to 9 events at each of which user code may panic, one panic per run; texts of one symbolic byte (thorough 0..2); capacities 0, 5, 4096; growing to and beyond 131072 bytes',
    'C28': 'texts of 0..2 symbolic bytes and fixed ones of 17..5000 bytes, every char, u8 and bool; capacities 0, 4096 and enough',
}
PROG = 'programs: the template corpus in harness/src/%s.rs and the files of that number (up to 129 children, attributes or arguments side by side and 80 levels deep; the macros are expanded from /repo on every run); inputs: texts of 1-3 symbolic bytes, every u8, char and bool in them; buffers with room and empty ones'
for _k in ALL:
    m = META.setdefault(_k, {})
    m['bounds'] = BOUNDS.get(_k) or PROG % _k.lower()
    if _k in BOUNDS and _k >= 'C10': m['bounds'] += '; ' + (PROG % _k.lower()).split(';')[0]
    m['assumptions'] = []
    # documented uses that no longer compile
    if _k >= 'C07' and _k != 'C26': m['compile_is_violation'] = True
META['C09']['assumptions'] = META['C02']['assumptions'] = META['C26']['assumptions'] = ["ryu is replaced by its documented contract (it writes at most 24/16 ASCII bytes and returns how many), except for constants, where its code is executed"]
META['C03']['assumptions'] = ['sequentially consistent interleavings of the atomic operations; weaker orderings only through the race check on plain accesses']
