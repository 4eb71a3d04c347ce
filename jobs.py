"""Jobs per property: each is one harness entry with a fixed structure (parameters) and symbolic data."""
def job_name(j): return j['entry'] + ' ' + ' '.join('%d=%d' % kv for kv in sorted(j['p'].items())) + ' ' + j['cpu']
P = {}
BOUNDS = {}
EXTRA = {}
ASSUME = ['release profile: integer overflow wraps', 'the thread pool is replaced by a sequential stand-in (job order is a parameter); native replays use the real pool',
          'x86-64 LLVM IR of the optimised build; allocation never fails']
def jobs(prop, tier):
    r = []
    for q, j in P[prop]:
        if q <= (1 if tier == 'quick' else 2): r.append(dict(j, p=dict(j['p'])))
    return r
def assumes(prop): return [a.replace('release profile: integer overflow wraps', 'release profile with overflow-checks and debug-assertions switched on for zune-jpeg') if prop in VARIANT else a for a in ASSUME]
def bounds(prop): return BOUNDS.get(prop, '')
def assume(prop): return EXTRA.get(prop, [])
def add(prop, tier, entry, p, cpu='avx2', **k): P.setdefault(prop, []).append((tier, dict(entry=entry, p=p, cpu=cpu, **k)))
def base(w, h, n=3, hs=1, vs=1, cs=0, u=0, dri=0, dc=6, ac=1, ace=3, q=0, sq=0, tb=0, se=1, cat=3):
    return {0: w, 1: h, 2: n, 3: hs, 4: vs, 5: cs, 6: u, 7: dri, 8: dc, 9: ac, 10: ace, 11: q, 12: sq, 13: tb, 14: se, 15: cat}
SM = [(1, 1), (2, 1), (1, 2), (2, 2)]
# ---- baseline-image properties (h_baseline compares every sample with the reference reconstruction)
B = 'h_baseline'
def bl(prop, tier, cpu='avx2', weight=1, **k):
    kk = {x: k.pop(x) for x in ('wall', 'wit', 'mem', 'instr', 'paths', 'hang', 'qtimeout') if x in k}
    add(prop, tier, B, base(**k), cpu, cover=['decoded'], weight=weight, **kk)
CPUS = ('avx2', 'sse41', 'none')
KW = ('wall', 'wit', 'mem', 'instr', 'paths', 'hang', 'qtimeout', 'sched', 'race')
def pg(prop, tier, script, cpu='avx2', weight=1, dri2=0, late=0, sig=2, corr=0, eobmax=0, eobshift=0, x23=0, **k):
    kk = {x: k.pop(x) for x in KW if x in k}
    p = base(**k); p.update({16: script, 17: dri2, 18: late, 19: sig, 20: corr, 21: eobmax, 22: eobshift, 23: x23})
    add(prop, tier, 'h_prog', p, cpu, cover=['decoded'], weight=weight, **kk)
def ent(prop, tier, entry, p, cpu='avx2', **k): add(prop, tier, entry, p, cpu, **k)
def up(d, **k): d = dict(d); d.update({int(a[1:]): v for a, v in k.items()}); return d

# ---- bounds, as reported in the evidence
_IMG = 'structure (size, sampling, tables, which coefficients are coded with which category) is fixed per job and listed in jobs.py; within it all magnitude bits named symbolic range over every value. '
_TH = ' The thorough tier adds the jobs marked 2 in jobs.py.'
BOUNDS.update({
 'C01': _IMG + 'sizes 1x1, 9x17, 33x3 and four images up to 520 pixels wide, all five output formats, four samplings, baseline and progressive; frame width, height symbolic (all 2^32 values) for the getters and header reading with 1 and 3 components.' + _TH,
 'C02': 'width, height and both limits are symbolic 16-bit values (any limits, and the defaults), 1 and 3 components, baseline and progressive; an image beyond 32x32 is cut before the pixels are decoded.',
 'C03': 'one header field at a time over all its values (precision, length, component count, ids, sampling, table numbers; scan length, count, component ids, selectors, spectral and approximation bytes) in an otherwise valid image of one or two MCUs; every scan of seven progressive scripts.' + _TH,
 'C04': 'DQT: precision/number byte, length, table values symbolic; DHT: class/number byte, symbolic code-length counts at 2..6 lengths with the rest 0, symbols symbolic; DRI: all lengths and intervals; several tables per segment.' + _TH,
 'C05': 'up to 10 fully symbolic header bytes after SOI, or up to 4..20 symbolic bytes at one of 28 places (frame header, scan header, tables, entropy-coded data, between scans) in an otherwise valid file, 1 and 3 components, baseline and progressive; every read and write is checked for bounds and initialisation, loops by an instruction limit.' + _TH,
 'C06': 'code tables of 47 length shapes (each length 1..16 occurs, incomplete codes included), all symbols of the tables in groups of 6, magnitudes symbolic up to category 10; and 6..10 (thorough 16) arbitrary entropy-coded bits against a bit-by-bit decoder.' + _TH,
 'C07': _IMG + 'one and two MCU images in which any entropy-coded byte may become 0xFF (forked on), and 1..3 fill bytes before markers; four samplings/restart combinations.' + _TH,
 'C08': _IMG + 'single blocks with one, some or all 64 coefficients, categories up to 8, fixed quantisation values and, in one job, all quantisation values symbolic; AVX2 and portable code.' + _TH,
 'C09': _IMG + 'DC categories 1..11, AC categories 1..10 at every zigzag position, three code tables, four samplings, images of two MCUs.' + _TH,
 'C10': _IMG + 'each job decodes one image with and without vector code (and compares with the reference), CPU features AVX2, SSE4.1 and none, sizes up to 47x25, five output formats.' + _TH,
 'C11': 'luma and chroma of one block symbolic (up to 15 bits over the three channels; in the thorough tier all 2^22 combinations reachable by DC values) against BT.601 with tolerance 2; wider images compared exactly with the reference.' + _TH,
 'C12': _IMG + 'three subsamplings, widths and heights of one to three chroma blocks and odd sizes, one job of 80x80; exact comparison with the reference filter.' + _TH,
 'C13': _IMG + 'every width 1..35 and height 1..49 for the four samplings and for gray (1..49), plus images up to 260 pixels; block values symbolic.' + _TH,
 'C14': _IMG + 'restart intervals 1..9 MCUs (and 1..65535 symbolic as a header value in C04; one job with an interval of 260), images of up to 40 MCUs with up to 40 intervals, interval changed between scans.' + _TH,
 'C15': _IMG + 'ten scan scripts (spectral selection, successive approximation of DC and AC, separate and interleaved DC scans), end-of-band runs up to 2^3+ blocks, up to 63 correction bits per block, images up to 136x72 (thorough 520x264).' + _TH,
 'C16': _IMG + 'ten scan scripts with tables, DRI, COM and APP segments between scans, the scan limit symbolic from 1 to 64.' + _TH,
 'C17': 'sequences of one or two earlier inputs (14 kinds: valid, failing, headers only) and one compared image, coefficient data symbolic; output format changed in between in some.' + _TH,
 'C18': 'option values symbolic (sizes, scans, threads); the pixels for symbolic thread counts and vector code on/off; strict mode with 0..6 bytes between segments and down-sampled gray images.',
 'C19': _IMG + 'every truncation point of the entropy-coded data of images of up to 3x3 MCUs, with and without an EOI marker, with and without restart markers.' + _TH,
 'C20': 'segment content fully symbolic up to 40 bytes (fixed content up to 65533 bytes), eight marker codes (and the reserved ones), at every place between header segments and scans.' + _TH,
 'C21': _IMG + 'thread counts 1..31; images of 3 to 8 row jobs run at the join in every order, or interleaved in every way with the steps of the thread that submits them.' + _TH,
 'C22': _IMG + 'images of 3 to 8 row jobs (baseline and progressive, AVX2, SSE4.1 and portable code, five output formats), and two decoders in two threads; every access of every explored path is compared with the accesses of all unordered jobs, so a race is found in whatever order the jobs run (immediately, at the join in every order, between submissions). Races on locations of thread-local variables and accesses through atomics are not reported.' + _TH,
 'C23': 'the standard library code is executed on stand-ins for open, statx, fstat, read, lseek and close: reported size right, zero (as for /proc), without statx, or a pipe; up to two (thorough three) reads complete, of one byte, half, one byte short, or interrupted, in every combination; open failing with five error codes; the first to third read failing with three; missing file and a path with a NUL byte. Contents: valid images with symbolic coefficient data (baseline, progressive), truncated ones, with a segment of up to 65535 bytes, empty, and SOI with up to 6 (thorough 8) symbolic bytes; the same path with another image before. Files changed during the read and mmap are outside.' + _TH,
 'C24': 'the build has overflow checks and debug assertions of zune-jpeg switched on. Extreme images: DC categories 11 and 15, AC categories 1, 8 and 15 at 1..7 positions with all magnitudes symbolic, quantiser 255 or all 64 values symbolic, 1 and 3 components, five output formats, AVX2 and portable code (thorough: SSE4.1); progressive scans with a point transform of 0 or 13 refined at 0, 3 and 12 with symbolic correction bits in four shapes. And every n-th job of C01, C03..C20 and C23 (thorough: more of them), with the oracle and the bounds of that property.' + _TH,
})

# C01 dimensions and size of the output
for cs in range(5):
    for (hs, vs) in SM:
        for w, h in ((1, 1), (9, 17), (33, 3)):
            bl('C01', 1, w=w, h=h, hs=hs, vs=vs, cs=cs, u=1, dc=3, ac=0, se=4)
            pg('C01', 1, 1, w=w, h=h, hs=hs, vs=vs, cs=cs, u=1, dc=3, ac=1, se=4, cat=1)
    for w, h in ((1, 1), (9, 17), (33, 3)):
        bl('C01', 1, w=w, h=h, n=1, cs=cs, u=1, dc=3, ac=0, se=4)
        pg('C01', 1, 1, w=w, h=h, n=1, cs=cs, u=1, dc=3, ac=1, se=4, cat=1)
for w, h, hs, vs in ((257, 65, 2, 2), (520, 9, 2, 1), (9, 520, 1, 2), (200, 130, 1, 1)):
    bl('C01', 1, w=w, h=h, hs=hs, vs=vs, cs=3, u=1, dc=3, ac=0, se=97, weight=30)
    bl('C01', 2, w=w * 2, h=h * 2, hs=hs, vs=vs, cs=3, u=1, dc=3, ac=0, se=97, weight=80)
for n in (1, 3):
    for pr in (0, 1): ent('C01', 1, 'h_dims', {2: n, 16: pr, 17: 0}, cover=['accepted', 'rejected'])

# C02 limits
for n in (1, 3):
    for pr in (0, 1):
        for k in (0, 1):
            ent('C02', 1, 'h_dims', {2: n, 16: pr, 17: k, 18: 0}, cover=['accepted', 'rejected'])
            ent('C02', 1, 'h_dims', {2: n, 16: pr, 17: k, 18: 1}, cover=['rejected'])

# C03 frame and scan headers
for n in (1, 3):
    for pr in (0, 1):
        for hs, vs in (SM if n == 3 else SM[:1]):
            for f in list(range(0, 5)) + ([5, 6] if n == 3 else []) + list(range(7, 7 + n)):
                for u in (0, 1): ent('C03', 1 if u or f < 5 else 2, 'h_sof', {2: n, 3: hs, 4: vs, 16: pr, 20: f, 6: u}, cover=['accepted', 'rejected'], weight=3 if 4 <= f <= 6 else 1)
            for sc in ((0, 1, 2, 3, 4, 5, 6) if pr else (0,)):
                for which in range(2 if pr and sc != 2 else 1):
                    for f in range(5):
                        ent('C03', 1 if (sc in (0, 2) and (hs, vs) in ((1, 1), (2, 2))) else 2, 'h_sos', {2: n, 3: hs, 4: vs, 16: pr, 18: sc, 19: which, 20: f}, weight=2)

# C04 table segments
for k in (0, 1, 2, 4): ent('C04', 1, 'h_tables', {20: k}, cover=['accepted'] + (['rejected'] if k != 7 else []))
for k in (0, 1): ent('C04', 1, 'h_tables', {20: 3, 19: k}, cover=['accepted', 'rejected'])
ent('C04', 1, 'h_tables', {20: 7}, cover=['decoded'])
for k in (5, 6):
    for n in (250, 254): ent('C04', 1, 'h_tables', {20: k, 19: 4, 21: 2, 22: n}, cover=['accepted', 'rejected'], weight=3)
    ent('C04', 1, 'h_tables', {20: k, 19: 4, 21: 3, 22: 248}, cover=['accepted', 'rejected'], weight=8)
    ent('C04', 1, 'h_tables', {20: k, 19: 2, 21: 3, 22: 252}, cover=['rejected'] + (['accepted']), weight=8)
for l in range(5):
    for k in (5, 6):
        for b in (2, 3, 4): ent('C04', 1 if b < 4 else 2, 'h_tables', {20: k, 19: l, 21: b}, cover=['accepted'], weight=b)
    ent('C04', 2, 'h_tables', {20: 5, 19: l, 21: 6}, cover=['accepted'], weight=60)
# C08 dequantisation, zigzag, inverse transform
for cpu in ('avx2', 'none'):
    for u in ((0, 1) if cpu == 'avx2' else (1,)):
        for ac in (1, 3, 4): bl('C08', 1, cpu, w=16, h=8, n=1, cs=1, u=u, ac=ac, ace=1, cat=5, dc=8)
        bl('C08', 1, cpu, w=8, h=8, n=1, cs=1, u=u, ac=2, ace=1, cat=2, dc=5, weight=5)
        bl('C08', 1, cpu, w=24, h=8, n=1, cs=1, u=u, ac=1, ace=2, cat=3, dc=5, sq=1, weight=3)
        for k in range(1, 64): bl('C08', 1 if k % 3 == 0 else 2, cpu, w=8, h=8, n=1, cs=1, u=u, ac=4 + k, ace=1, cat=6, dc=6)

for k in range(1, 64, 7): bl('C08', 2, 'avx2', w=16, h=16, hs=2, vs=2, cs=0, u=1, ac=4 + k, ace=1, cat=6, dc=6, weight=3)

# C05 arbitrary bytes
for t in (0, 10):
    for v in (0, 1, 8, 64, 7, 9, 65):
        q = 1 if v in (0, 1, 7, 8) else 2
        ent('C05', q, 'h_any', {16: 4 + t, 17: 3, 18: v, 6: 1})
        ent('C05', q, 'h_any', {16: 6 + t, 17: 1, 18: v, 6: 1})
        ent('C05', q, 'h_any', {16: 3 + t, 17: 3, 18: v, 19: 0, 20: 0, 6: 1})
        ent('C05', q, 'h_any', {16: 3 + t, 17: 4, 18: v, 19: 0, 20: 2, 6: 1}, weight=3)
        for k in range(12): ent('C05', q, 'h_any', {16: 7 + t, 19: k, 18: v, 6: 1})
        for k in (15, 27): ent('C05', q, 'h_any', {16: 1 + t, 17: 20, 18: v, 20: k, 21: 17, 6: 1}, weight=2)
        ent('C05', 1 if v in (0, 1) else 2, 'h_any', {16: 1 + t, 17: 20, 18: v, 20: 23, 21: 17, 6: 1}, weight=14 if v & 1 else 2)
        ent('C05', q, 'h_any', {16: 1 + t, 17: 20, 18: v, 20: 28, 21: 17, 6: 1}, weight=5)
        ent('C05', 2, 'h_any', {16: 1 + t, 17: 20, 18: v, 20: 28, 21: 32, 6: 0}, weight=15)
        for f in (0, 4): ent('C05', q if f == 4 or not v & 1 or t == 0 else 2, 'h_any', {16: 2 + t, 17: 20, 18: v, 19: 0, 20: f, 6: 1}, weight=5, wall=100)
    for v in (0, 16, 1, 17, 8, 9):
        if t: ent('C05', 1, 'h_any', {16: 15, 17: 2, 18: v, 6: 1}, weight=4)
        if t: ent('C05', 1 if v in (0, 1, 17) else 2, 'h_any', {16: 15, 17: 3, 18: v, 6: 1}, weight=14)
        if t: ent('C05', 2, 'h_any', {16: 15, 17: 4, 18: v, 6: 1}, weight=50)
        if t: ent('C05', 1 if v in (0, 17) else 2, 'h_any', {16: 15, 17: 2, 18: v, 19: 1, 6: 1}, weight=10)
        if t and v & 16: ent('C05', 1 if v == 16 else 2, 'h_any', {16: 15, 17: 2, 18: v, 19: 2, 6: 1}, weight=10)
        if not t: ent('C05', 1 if v in (0, 1) else 2, 'h_any', {16: 5, 17: 1, 18: v, 6: 1}, weight=20)
    for v in (0, 1):
        ent('C05', 1 if t == 0 and v == 0 else 2, 'h_any', {16: 6 + t, 17: 3, 18: v, 6: 1}, weight=30, wall=120)
        if t == 0: ent('C05', 1 if v == 0 else 2, 'h_any', {16: 3, 17: 3, 18: v, 19: 1, 20: 10, 6: 1}, weight=30)
for n, q in ((1, 1), (2, 1), (3, 1), (4, 1), (6, 1), (7, 1), (8, 2), (10, 2)):
    for v in (0, 32, 64) if n > 1 else (32, 96): ent('C05', q, 'h_any', {16: 0, 17: n, 18: v, 6: 1}, weight=n if n < 8 else 30)

# C06 Huffman tables
for (a, b, sd) in ((0, 0, 0), (1, 1, 0), (4, 9, 0), (22, 35, 3), (25, 41, 9), (31, 55, 4), (6, 10, 1)):
    for i in range(0, 164, 6):
        ent('C06', 1 if (i // 6) % 3 == 0 or a == 1 else 2, 'h_huff', {16: a, 17: b, 18: i, 19: 6, 20: 10, 21: sd, 23: 3}, cover=['decoded'])
    for i in (0, 30, 60):
        ent('C06', 1, 'h_huff', {16: a, 17: b, 18: i, 19: 6, 20: 5, 21: sd + 1}, cover=['decoded'])
for (a, b, sd) in ((0, 1, 0), (1, 37, 5), (22, 35, 3), (25, 41, 9)):
    for i in range(0, 256, 16): ent('C06', 1 if i % 64 == 0 else 2, 'h_huff', {16: a, 17: b, 18: i, 19: 6, 20: 10, 21: sd, 23: 3, 25: 1}, cover=['decoded'])
for seed in range(20, 60): ent('C06', 1 if seed < 40 else 2, 'h_huff', {16: seed, 17: seed + 100, 18: seed, 19: 8, 20: 6, 21: seed, 23: 3}, cover=['decoded'])
for (a, b, sd) in ((0, 0, 0), (1, 1, 0), (4, 6, 0), (21, 33, 0), (24, 39, 5), (33, 47, 2)):
    for n in (6, 8, 10): ent('C06', 1, 'h_bits', {16: a, 17: b, 18: n, 19: 1, 21: sd}, weight=n)
    ent('C06', 2, 'h_bits', {16: a, 17: b, 18: 13, 19: 1, 21: sd}, weight=40)
    ent('C06', 2, 'h_bits', {16: a, 17: b, 18: 16, 19: 2, 21: sd}, weight=60)
    ent('C06', 1, 'h_bits', {16: a, 17: b, 18: 8, 19: 2, 21: sd}, weight=8)

# C07 byte stuffing and fill bytes
for x in (1, 2, 3, 4, 6, 7):
    for n, hs, vs, dri in ((1, 1, 1, 0), (1, 1, 1, 1), (3, 1, 1, 0), (3, 2, 2, 1)):
        p = base(16 * hs, 8 * vs, n, hs, vs, 0, 1, dri, 6, 1, 2, cat=3, se=1 if n == 1 else 3); p[23] = x
        ent('C07', 1, B, p, cover=['decoded'], weight=2)
        p = dict(p); p[8] = 2; p[15] = 8; ent('C07', 2, B, p, cover=['decoded'], weight=2)
        for sc in (0, 1, 5):
            pg('C07', 1 if sc == 1 else 2, sc, w=16 * hs, h=8 * vs, n=n, hs=hs, vs=vs, u=1, dri=dri, dc=5, ac=1, ace=2, cat=2, se=2, x23=x, late=16)

# C09 entropy decoding: DC prediction, runs, end of block
for n in (1, 3):
    for t in (0, 1, 2):
        for hs, vs in (SM if n == 3 else SM[:1]):
            for dc in ((1, 4, 7, 9, 11) if (hs, vs) == (1, 1) else (5, 9)):
                bl('C09', 1, w=16 * hs + 1, h=8 * vs + 1, n=n, hs=hs, vs=vs, u=1, dc=dc, ac=0, tb=t, q=1 if dc > 8 else 0, se=1)
            for cat in (1, 2, 4, 6, 8, 10) if t < 2 else (4,):
                bl('C09', 1, w=16, h=8, n=n, hs=hs, vs=vs, u=1, dc=3, ac=3, ace=1, cat=cat, tb=t, q=1, se=2)
                if t < 2: bl('C09', 2, w=16, h=8, n=n, hs=hs, vs=vs, u=1, dc=3, ac=2, ace=2, cat=cat, tb=t, q=1, se=4, weight=4)
    for k in range(1, 64):
        for cat in (1, 7): bl('C09', 1 if k % 4 == 1 or k > 60 else 2, w=16, h=8, n=n, u=1, dc=2, ac=4 + k, ace=1, cat=cat, q=1, se=1)

# C10 vectorised routines and the scalar ones
for cpu in CPUS:
    for u in (0, 1):
        for cs in range(5):
            for (hs, vs) in SM:
                for w, h in ((17, 9), (40, 24)):
                    bl('C10', 1 if w == 17 else 2, cpu, w=w, h=h, hs=hs, vs=vs, cs=cs, u=u, dc=5, ac=1, ace=3, se=3, cat=3)
        for w in (1, 15, 16, 17, 31, 32, 47): bl('C10', 1, cpu, w=w, h=8, hs=1, vs=1, cs=0, u=u, dc=7, ac=1, ace=1, se=1, cat=5)
for k in (0, 7):
    for (hs, vs) in SM:
        for cpu in CPUS:
            for cs in (0, 1, 2, 3):
                if k == 7 and cs: continue
                p = base(25, 17, 3, hs, vs, cs, 1, 0, 6, 1, 2, se=2); p[27] = k
                ent('C10', 1, 'h_pair', p, cpu, cover=['decoded'])
                p = dict(p); p.update({24: 1, 16: 1, 19: 2}); ent('C10', 1 if cs == 0 else 2, 'h_pair', p, cpu, cover=['decoded'])
for k in range(1, 64): # one coefficient, at every position
    for cpu in CPUS:
        p = base(8, 8, 1, 1, 1, 1, 1, 0, 5, 4 + k, 1, se=1, cat=4); p[27] = 0; ent('C10', 1 if cpu == 'avx2' else 2, 'h_pair', p, cpu, cover=['decoded'])
for n in (1,):
    for cpu in CPUS:
        p = base(25, 17, 1, 1, 1, 1, 1, 0, 6, 2, 1, se=1, cat=2); p[27] = 0; ent('C10', 1, 'h_pair', p, cpu, cover=['decoded'])

# C11 colours and output formats
for cs in range(5):
    for u in (0, 1):
        for cpu in CPUS:
            bl('C11', 1, cpu, w=19, h=9, cs=cs, u=u, dc=8, ac=0, se=1, q=8)
            bl('C11', 2, cpu, w=70, h=9, cs=cs, u=u, dc=8, ac=0, se=1, q=8, weight=3)
            for t in ((4, 4, 4), (0, 0, 0), (1, 6, 2)): ent('C11', 1, 'h_color', {0: 1, 5: cs, 6: u, 16: t[0], 17: t[1], 18: t[2]}, cpu, cover=['decoded'])
            ent('C11', 1, 'h_color', {0: 17, 5: cs, 6: u, 16: 5, 17: 5, 18: 3}, cpu, cover=['decoded'], weight=5)
            if cs in (0, 3): ent('C11', 2, 'h_color', {0: 1, 5: cs, 6: u, 16: 7, 17: 7, 18: 7}, cpu, cover=['decoded'], weight=100)
            if cs in (0, 3) and cpu != 'sse41': ent('C11', 1, 'h_color', {0: 1, 5: cs, 6: u, 16: 7, 17: 7, 18: 3}, cpu, cover=['decoded'], weight=12)
for k in (2, 3, 4):
    for hs, vs in SM:
        p = base(23, 9, 3, hs, vs, 0, 0, 0, 6, 1, 2, se=1); p[27] = k; ent('C11', 1, 'h_pair', p, cover=['decoded'])
        p = base(23, 9, 1, hs, vs, 0, 0, 0, 6, 1, 2, se=1); p[27] = k; p[24] = 1; ent('C11', 1, 'h_pair', p, cover=['decoded'])
for k in range(5): ent('C11', 1, 'h_opts', {16: 6, 17: k}, cover=['ok'])
for n in (1, 3):
    for k in (0, 1): ent('C11', 1, 'h_opts', {16: 5, 2: n, 17: k}, cover=['ok'])

# C12 chroma upsampling, C13 geometry
for cs in (0, 2):
    for (hs, vs) in SM[1:]:
        for u in (0, 1):
            for w, h in ((16 * hs, 8 * vs), (24 * hs, 16 * vs), (8 * hs + 1, 8 * vs + 1), (5, 5), (24 * hs - 3, 24 * vs - 3)):
                for cpu in CPUS: bl('C12', 1 if cpu == 'avx2' or w < 10 else 2, cpu, w=w, h=h, hs=hs, vs=vs, cs=cs, u=u, dc=6, ac=1, ace=1, se=1, cat=4)
                pg('C12', 1, 1, w=w, h=h, hs=hs, vs=vs, cs=cs, u=u, dc=5, ac=1, ace=2, se=1, cat=2)
            bl('C12', 1, w=40 * hs, h=40 * vs, hs=hs, vs=vs, cs=cs, u=u, dc=6, ac=1, ace=2, se=2, cat=4, weight=6)
for (hs, vs) in SM:
    for w in list(range(1, 36)):
        for h in (1, 8, 9, 16, 17, 33): bl('C13', 1 if h in (9, 17) or w in (1, 17) else 2, w=w, h=h, hs=hs, vs=vs, cs=0, u=1, dc=5, ac=0, se=2)
        bl('C13', 1, w=w, h=9, hs=hs, vs=vs, cs=3, u=0, dc=5, ac=0, se=2)
        pg('C13', 1 if w % 3 == 1 else 2, 1, w=w, h=17, hs=hs, vs=vs, cs=0, u=1, dc=4, ac=1, ace=5, se=3, cat=1)
        pg('C13', 1 if w % 3 == 2 else 2, 3, w=w, h=9, hs=hs, vs=vs, cs=1, u=0, dc=4, ac=1, ace=5, se=3, cat=1)
    for h in range(1, 50):
        bl('C13', 1 if h % 2 else 2, w=9, h=h, hs=hs, vs=vs, cs=0, u=1, dc=5, ac=0, se=2)
        pg('C13', 1 if h % 4 == 1 else 2, 1, w=17, h=h, hs=hs, vs=vs, cs=0, u=1, dc=4, ac=1, ace=5, se=3, cat=1)
    for w in range(1, 36):
        if (hs, vs) != (1, 1): # a single component with sampling factors
            bl('C13', 1 if w % 4 == 1 else 2, w=w, h=13, n=1, hs=hs, vs=vs, cs=1, u=1, dc=5, ac=0, se=1)
            pg('C13', 1 if w % 4 == 3 else 2, 1, w=w, h=13, n=1, hs=hs, vs=vs, cs=1, u=1, dc=4, ac=1, ace=2, se=1, cat=1)
for w in range(1, 50):
    bl('C13', 1 if w % 2 else 2, w=w, h=9, n=1, cs=1, u=w & 1, dc=6, ac=0, se=1)
    bl('C13', 1 if w % 2 else 2, w=9, h=w, n=1, cs=1, u=w & 1, dc=6, ac=0, se=1)
    pg('C13', 1 if w % 2 else 2, 1, w=w, h=9, n=1, cs=1, u=1, dc=6, ac=1, ace=2, se=1, cat=1)
    pg('C13', 1 if w % 2 == 0 else 2, 3, w=9, h=w, n=1, cs=1, u=1, dc=6, ac=1, ace=2, se=1, cat=1)
for w, h, hs, vs in ((130, 70, 2, 2), (260, 20, 2, 1), (20, 260, 1, 2)):
    bl('C13', 1, w=w, h=h, hs=hs, vs=vs, cs=0, u=1, dc=5, ac=1, ace=7, se=13, weight=20)
    pg('C13', 1, 1, w=w, h=h, hs=hs, vs=vs, cs=0, u=1, dc=4, ac=1, ace=7, se=13, cat=1, weight=25)

# C14 restart intervals
for (n, hs, vs) in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2), (1, 2, 2)):
    for dri in (1, 2, 3, 4, 5, 7, 9):
        bl('C14', 1, w=40, h=25, n=n, hs=hs, vs=vs, u=1, dri=dri, dc=5, ac=1, ace=2, se=3, cat=3, weight=2)
        bl('C14', 2, w=88, h=25, n=n, hs=hs, vs=vs, u=0, dri=dri, dc=7, ac=3, ace=2, se=5, cat=2, weight=4)
        for sc in (0, 1, 3, 5, 6):
            for d2 in (0, 1, 2, 4):
                pg('C14', 1 if sc in (1, 3) and dri < 6 and d2 != 4 else 2, sc, w=33, h=17, n=n, hs=hs, vs=vs, u=1, dri=dri, dri2=d2, late=8 if d2 == 2 else 0, dc=4, ac=1, ace=2, se=5, cat=1, sig=3, eobmax=3 if dri & 1 else 0, weight=2)
bl('C14', 1, w=160, h=17, n=1, cs=1, u=1, dri=1, dc=5, ac=1, ace=4, se=7, cat=3, weight=3)
for d in (255, 256, 260): bl('C14', 1 if d == 260 else 2, w=144, h=144, n=1, cs=1, u=1, dri=d, dc=5, ac=1, ace=4, se=27, cat=3, weight=6)
pg('C14', 1, 1, w=144, h=144, n=1, cs=1, u=1, dri=260, dri2=0, dc=4, ac=1, ace=4, se=47, cat=1, sig=40, weight=8)
bl('C14', 1, w=144, h=136, n=3, hs=1, vs=1, u=1, dri=259, dc=3, ac=0, se=40, weight=12)

# C15 progressive images, C16 scan structure
for (n, hs, vs) in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2), (1, 2, 2)):
    for sc in range(10):
        W = dict(wall=150) if sc == 4 and n == 3 else {}
        for em, es in ((0, 0), (1, 0), (2, 1), (7, 3), (0, 2)):
            for sig in (1, 2, 5, 0) if sc > 6 else (1, 2, 5):
                pg('C15', 1 if sig == 2 or (em, es) == (0, 0) else 2, sc, w=25, h=17, n=n, hs=hs, vs=vs, u=1, dc=5, ac=1, ace=2, se=3, cat=2, sig=sig, eobmax=em, eobshift=es, **W)
        for corr in (17, 31, 43): pg('C15', 2 if corr < 43 else 1, sc, w=24, h=16, n=n, hs=hs, vs=vs, u=1, dc=4, ac=1, ace=1, se=3, cat=2, sig=2, corr=corr + (20 if n == 3 else 0), weight=8)
        for t in (1, 2): pg('C15', 1, sc, w=16, h=16, n=n, hs=hs, vs=vs, u=1, dc=4, ac=3, ace=1, se=3, cat=3, tb=t)
        for k in range(1, 64, 3): pg('C15', 1 if (k % 9 == 1 or sc in (7, 8)) and n * hs * vs in (1, 12) else 2, sc, w=16, h=8, n=n, hs=hs, vs=vs, u=1, dc=3, ac=4 + k, ace=1, se=2, cat=4, sig=1)
for sc in (7, 8): # all coefficients with one end-of-band run over several blocks, coefficients at every single position
    for k in range(1, 64):
        pg('C15', 1 if sc == 7 and k % 2 or k % 5 == 0 else 2, sc, w=40, h=8, n=1, cs=1, u=1, dc=3, ac=4 + k, ace=2, se=2, cat=2, sig=0)
        pg('C15', 1 if k % 7 == 1 else 2, sc, w=40, h=8, n=1, cs=1, u=1, dc=3, ac=4 + k, ace=1, se=2, cat=2, sig=3, eobmax=2)
for sc in (1, 3, 5): 
    for em in (0, 40): pg('C15', 1, sc, w=136, h=72, n=1, cs=1, u=1, dc=5, ac=1, ace=50, se=33, cat=1, sig=40, eobmax=em, weight=6)
    pg('C15', 2, sc, w=520, h=264, n=1, cs=1, u=1, dc=5, ac=1, ace=900, se=333, cat=1, sig=900, weight=60)
for (n, hs, vs) in ((1, 1, 1), (3, 1, 1), (3, 2, 2)):
    for sc in range(10):
        for late in (1, 2, 4, 8, 16, 31):
            pg('C16', 1, sc, w=24, h=9, n=n, hs=hs, vs=vs, u=1, dc=4, ac=1, ace=2, se=3, cat=2, late=late)
        if n == 1 or hs == 1: ent('C16', 1, 'h_opts', {16: 4, 2: n, 17: sc}, cover=['accepted'])

# C17 reuse
K = range(14)
for last in K:
    for b in K:
        for cs in (0, 1, 3): ent('C17', 1 if cs == 0 or (b + last) % 3 == cs else 2, 'h_reuse', {16: b + 1, 19: last, 5: cs, 6: (b + cs) & 1})
        ent('C17', 1 if (b + last) % 2 else 2, 'h_reuse', {16: 100 + b, 19: last, 5: 0, 6: b & 1})
        for b2 in K: ent('C17', 1 if (b * 7 + b2 * 3 + last) % 9 == 0 else 2, 'h_reuse', {16: b2 + 1, 17: b + 1, 19: last, 5: (b + b2) % 5, 6: b & 1})
    for cs2 in (1, 2, 3, 4): ent('C17', 1, 'h_reuse', {16: (last * 5 + cs2) % 14 + 1, 19: last, 5: 0, 6: 1, 7: cs2})

T = 0
for n, hs, vs in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2)):
    for a in range(6):
        for b in range(6):
            for new in (0, 1):
                T += 1
                ent('C17', 1 if T % 5 == 0 or n == 1 and new == 0 else 2, 'h_series', {2: n, 3: hs, 4: vs, 5: 0, 6: T & 1, 16: a, 19: b, 20: new, 21: T // 3 % 4, 22: T // 2 % 4, 24: 0, 25: T // 7 % 3}, cover=['decoded'], weight=2)
    for new in (0, 1):
        for pr in range(4):
            for s in (1, 2, 3): ent('C17', 1 if n == 1 or pr == 0 and s == 3 else 2, 'h_series', {2: n, 3: hs, 4: vs, 5: 2, 6: 1, 16: 0, 19: 0, 20: new, 21: pr, 22: 0, 24: s, 25: 0}, cover=['decoded'], weight=4)

# C18 options
ent('C18', 1, 'h_opts', {16: 0}, cover=['ok']); ent('C18', 1, 'h_opts', {16: 1}, cover=['ok'])
for n in range(0, 7):
    for k in range(4): ent('C18', 1, 'h_opts', {16: 2, 17: n, 18: k}, cover=['ok'])
for hs, vs in SM:
    for pr in (0, 1): ent('C18', 1, 'h_opts', {16: 3, 17: hs, 18: vs, 24: pr}, cover=['ok'])
    for k in (5, 6):
        for n in (1, 3):
            if n == 1 and (hs, vs) != (1, 1): continue
            for pr in (0, 1):
                p = base(19, 11, n, hs, vs, 0, 0, 0, 5, 1, 2, se=1); p.update({27: k, 24: pr, 16: 1, 19: 2}); ent('C18', 1, 'h_pair', p, cover=['decoded'])
for k in range(5): ent('C18', 1, 'h_opts', {16: 6, 17: k}, cover=['ok'])

# C19 truncated files
for n, hs, vs in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2), (1, 2, 2)):
    for eoi in (0, 1):
        for dri in (0, 1):
            p = base(17, 17, n, hs, vs, 0, 1, dri, 4, 1, 2, se=0, cat=2); p[27] = eoi; p[28] = 1
            ent('C19', 1, 'h_trunc', p, weight=4, cover=['complete'])
            p = base(9, 9, n, hs, vs, 3, 0, dri, 4, 1, 2, se=2, cat=2); p[27] = eoi
            ent('C19', 1, 'h_trunc', p, weight=4, cover=['complete'])
            for sc in (0, 1, 3, 5):
                p = base(17, 17, n, hs, vs, 0, 1, dri, 4, 1, 2, se=0, cat=2); p.update({24: 1, 27: eoi, 16: sc, 19: 2})
                ent('C19', 1 if sc == 1 else 2, 'h_trunc', p, weight=4, cover=['complete'])

for (a, b, sd) in ((0, 0, 0), (4, 6, 0), (21, 33, 0)): # the bits that are missing are zeros
    for n in (8, 16):
        for cm in (1, 2, 3, 4):
            for nb in (1, 3): ent('C19', 1 if n == 8 else 2, 'h_bits', {16: a, 17: b, 18: n, 19: nb, 21: sd, 24: cm, 6: 1}, weight=n)

# C20 ancillary segments
for pr in (0, 1):
    for n, hs, vs in ((1, 1, 1), (3, 1, 1), (3, 2, 2)):
        for m in [0xe0, 0xe1, 0xe2, 0xe5, 0xed, 0xee, 0xef, 0xfe]:
            for pos in (0, 1, 2, 3, 4 if pr else 0):
                for ln in (0, 1, 5):
                    ent('C20', 1 if n == 3 and hs == 1 or ln == 5 else 2, 'h_segs', {2: n, 3: hs, 4: vs, 16: ln, 17: m, 18: pos, 24: pr, 5: 0}, cover=['decoded'] if (m, ln) not in ((0xe0, 0),) else [])
        ent('C20', 1, 'h_segs', {2: n, 3: hs, 4: vs, 16: 5, 17: 0xe0, 18: 3, 19: 15, 24: pr, 5: 0})
        for ln in (12, 13, 16, 40): ent('C20', 1, 'h_segs', {2: n, 3: hs, 4: vs, 16: ln, 17: 0xee, 18: 0, 24: pr, 5: 0})
        for fb in (1, 3): ent('C20', 1, 'h_segs', {2: n, 3: hs, 4: vs, 16: 3, 17: 0xe4, 18: fb, 20: fb, 24: pr, 5: 0}, cover=['decoded'])

    for m in (0xe0, 0xe2, 0xef, 0xfe):
        for t in (200, 255, 256, 300, 4095, 32767, 32768, 40000, 65533):
            for pos in (0, 1, 3, 4 if pr else 2): ent('C20', 1 if (t in (256, 40000) or m == 0xe2 and pos < 3) else 2, 'h_segs', {2: 1, 3: 1, 4: 1, 16: 2, 17: m, 18: pos, 21: t, 24: pr, 5: 0}, cover=['decoded'], weight=2)
    for m in (0xf0, 0xf7, 0xfd, 0x4f): # markers without a meaning of their own
        for ln in (0, 3): ent('C20', 1, 'h_segs', {2: 1, 3: 1, 4: 1, 16: ln, 17: m, 18: 1, 24: pr, 5: 0}, cover=['decoded'])

# C21 number of threads and order of the jobs
for n, hs, vs in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2)):
    for t in (0, 1, 2, 6, 30):
        for pr in (0, 1):
            p = base(24 * hs + 1, 24 * vs + 1, n, hs, vs, 0, 1, 0, 5, 1, 2, se=2); p.update({27: 1, 28: t, 24: pr, 16: 1, 19: 2}); ent('C21', 1, 'h_pair', p, cover=['decoded'])
for n, hs, vs in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2)):
    for cs in (0, 1, 2, 3) if n == 3 else (1,):
        for mode, rows in ((1, 4), (2, 3), (1, 5), (2, 4)):
            q = 1 if rows < 5 and cs in (0, 1) and (mode, rows) != (2, 4) else 2
            # rows of jobs: 16 luma rows each with vertical or horizontal subsampling
            r = 8 * (2 if hs * vs > 1 else 1) * (2 if hs * vs == 4 else 1)
            p = base(17, r * rows - 3, n, hs, vs, cs, 1, 0, 4, 1, 2, se=3, cat=2); p[31] = mode
            ent('C21', q, B, p, cover=['decoded'], sched=1, weight=4)
            p = dict(p); p.update({1: (8 * vs) * (rows - (mode == 2)) - 3, 8: 3, 16: 1, 19: 2}); ent('C21', q, 'h_prog', p, cover=['decoded'], sched=1, weight=4)
    for k in ('none', 'sse41'):
        p = base(33, 8 * 4 * (4 if hs * vs == 4 else 2 if hs * vs == 2 else 1), n, hs, vs, 0, 1, 0, 4, 0, 2, se=3, cat=2); p[31] = 1; ent('C21', 1, B, p, k, cover=['decoded'], sched=1, weight=4)

# C22 data races between the jobs, the submitting thread, and decoders in different threads
for n, hs, vs in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2)):
    for cs in (0, 1, 2, 3, 4) if n == 3 else (1,):
        for mode in (0, 1, 2):
            rows = 4 if mode == 1 else 3
            r = 8 * (2 if hs * vs > 1 else 1) * (2 if hs * vs == 4 else 1)
            for w in (17, 40) if mode == 0 else (17,):
                q = 1 if mode == 0 or mode == 1 and cs in (0, 1) else 2
                p = base(w, r * rows - 3, n, hs, vs, cs, 1, 0, 4, 1, 2, se=3, cat=2); p[31] = mode
                for k in CPUS if mode == 0 else ('avx2',): ent('C22', q, B, p, k, cover=['decoded'], race=1, wit=0, weight=4)
                g = dict(p); g.update({1: (8 * vs) * rows - 3, 8: 3, 16: 1, 19: 2})
                for k in CPUS if mode == 0 else ('avx2',): ent('C22', q, 'h_prog', g, k, cover=['decoded'], race=1, wit=0, weight=4)
        for a, b in ((0, 0), (0, 1), (1, 1)):
            p = base(17, 8 * vs * 3 - 3, n, hs, vs, cs, 1, 0, 4, 1, 2, se=3, cat=2); p.update({8: 3, 16: 1, 19: 2, 24: a, 25: b})
            for u in (0, 1): ent('C22', 1 if u == 0 or cs < 2 else 2, 'h_two', up(p, p6=u), cover=['decoded'], race=1, wit=0, weight=3)

# C23 reading the file: system calls with every outcome of the listed kinds
for n, hs, vs in ((1, 1, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (3, 2, 2)):
    for cs in (0, 1, 2, 3, 4) if n == 3 else (1,):
        for pr in (0, 1):
            f = base(9, 9, n, hs, vs, cs, cs & 1, 0, 3, 1, 1, se=2, cat=2); f[24] = pr; D = dict(cover=['decoded'])
            q = 1 if cs < 2 else 2
            for sz in (0, 1, 4, 5): ent('C23', 1 if sz < 2 or q == 1 else 2, 'h_file', up(f, p28=sz), **D)
            for sz in (0, 1, 5): ent('C23', q if sz < 2 else 2, 'h_file', up(f, p28=sz, p21=2), weight=4, **D)
            ent('C23', 2, 'h_file', up(f, p21=3, p28=1), weight=9, **D)
            for cut in (0, 1, 2, 3, 30, 100, 180, 300): ent('C23', q, 'h_file', up(f, p25=1, p26=cut))
            for m in (2, 31, 4096, 8190, 8192, 20000, 65535): ent('C23', q if m in (31, 8192, 65535) else 2, 'h_file', up(f, p25=3, p26=m), **D); ent('C23', q if m == 8190 else 2, 'h_file', up(f, p25=3, p26=m, p28=1, p21=1), weight=2, **D)
            for e in (2, 13, 21, 24, 40): ent('C23', q, 'h_file', up(f, p30=e), cover=['failed'])
            for k in (1, 2, 3):
                for e in (5, 11, 21): ent('C23', q if e == 5 else 2, 'h_file', up(f, p29=k, p22=e, p28=1), cover=['failed'] if k < 3 else [])
                ent('C23', q, 'h_file', up(f, p29=k, p22=5, p21=1), weight=2)
            for k in (1, 2): ent('C23', q, 'h_file', up(f, p27=k), cover=['failed'])
            ent('C23', q, 'h_file', up(f, p30=4), **D)
            for k in (1, 2, 3, 4): ent('C23', q, 'h_file', up(f, p20=k), **D)
for cs in (0, 1):
    f = base(9, 9, 1); f.update({5: cs, 25: 4}); ent('C23', 1, 'h_file', f, cover=['rejected'])
    for k in (3, 6, 8): f = base(9, 9, 1); f.update({5: cs, 25: 2, 26: k}); ent('C23', 1 if k < 8 else 2, 'h_file', f, cover=['rejected'], weight=5)
# ---- C24: the build with overflow checks and debug assertions (all jobs of this property run on that build)
X = 'h_extreme'
def ex(tier, cpu, weight=1, u=None, **k):
    p = {0: 16, 1: 8, 2: 1, 5: 1, 6: (cpu != 'none') if u is None else u, 16: 0, 18: 15, 21: 255}
    p.update({int(a[1:]): v for a, v in k.items() if a[0] == 'p'}); p = {a: int(v) for a, v in p.items()}
    add('C24', tier, X, p, cpu, cover=['decoded'], weight=weight, wall=90 if tier == 1 else 600)
for cpu in CPUS:
    t = 1 if cpu != 'sse41' else 2
    for dc in (11, 15):
        for cat in (1, 8, 15):
            for n in (1, 3, 7): ex(t, cpu, p18=dc, p19=n, p20=cat)
    ex(t, cpu, weight=5, p19=2, p20=15, p21=0)
    ex(t, cpu, weight=5, p0=8, p2=3, p5=0, p19=2, p20=15)
    ex(t, cpu, weight=5, p0=8, p2=3, p5=0, p19=0, p20=15, p21=0)
    for cs in range(1, 5): ex(t if cs < 3 else 2, cpu, weight=2, p0=8, p2=3, p5=cs, p19=1, p20=15)
    for al in (0, 13):
        for al2 in (0, 3, 12):
            for k in range(4): ex(t, cpu, weight=2, p16=1, p17=al, p19=3, p20=15, p22=al2, p23=4, p24=k)
for n in (1, 2): ex(1, 'avx2', weight=6, p0=8, p18=11, p19=n, p20=8, p21=16, p25=1)
# a selection of the other properties' jobs, with their own oracles
for prop, n1, n2 in (('C01', 24, 80), ('C03', 80, 200), ('C04', 35, 60), ('C05', 100, 203), ('C06', 40, 100), ('C07', 16, 48), ('C08', 16, 40), ('C09', 24, 60), ('C10', 40, 100), ('C11', 24, 60),
                     ('C12', 20, 60), ('C13', 60, 160), ('C14', 40, 100), ('C15', 90, 300), ('C16', 30, 100), ('C17', 16, 60), ('C18', 20, 63), ('C19', 24, 60), ('C20', 60, 200), ('C23', 16, 60)):
    l = [j for q, j in P[prop] if q == 1 and not j.get('sched') and not j.get('race')]
    for t, n in ((1, n1), (2, n2)):
        # spread over the list, cheap jobs first when the property has expensive ones
        m = max(1, len(l) // n)
        for j in l[(m - 1) // 2::m][:n]: P['C24'].append((t, dict(j, p=dict(j['p']))))
_seen = set(); _l = []
for q, j in sorted(P['C24'], key=lambda x: x[0]):
    if job_name(j) not in _seen: _seen.add(job_name(j)); _l.append((q, j))
P['C24'] = _l
VARIANT = {'C24': 'ovf'}
