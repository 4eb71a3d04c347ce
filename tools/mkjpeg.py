"""A small JPEG writer working on quantised coefficients, used to make the inputs of the demonstrations in seeded/.
It is not used by any check."""
import struct
def seg(m, b): return bytes([0xff, m]) + struct.pack('>H', len(b) + 2) + bytes(b)
def flat(symbols, length=None):
    "code table giving every symbol the same length"
    n = len(symbols); l = length or max(1, (n + 1 - 1).bit_length())
    while (1 << l) - 1 < n: l += 1
    bits = [0] * 16; bits[l - 1] = n
    return bits, list(symbols)
def codes(t):
    bits, vals = t; r = {}; c = 0; k = 0
    for l in range(1, 17):
        for _ in range(bits[l - 1]): r[vals[k]] = (c, l); c += 1; k += 1
        c <<= 1
    return r
DC = flat(range(12)); AC = flat([r << 4 | s for r in range(16) for s in range(11) if s or r in (0, 15)])
ACP = flat([r << 4 | s for r in range(16) for s in range(11)], 8)
def dht(c, i, t): return seg(0xc4, bytes([c << 4 | i]) + bytes(t[0]) + bytes(t[1]))
def dqt(i, q): return seg(0xdb, bytes([i]) + bytes(q))
class W:
    def __init__(s): s.o = bytearray(); s.a = 0; s.n = 0
    def put(s, v, n):
        for i in range(n - 1, -1, -1):
            s.a = s.a << 1 | (v >> i & 1); s.n += 1
            if s.n == 8:
                s.o.append(s.a)
                if s.a == 255: s.o.append(0)
                s.a = s.n = 0
    def flush(s):
        while s.n: s.put(1, 1)
def cat(v): return abs(v).bit_length()
def mag(w, v):
    n = cat(v); w.put(v if v > 0 else v + (1 << n) - 1, n)
class Img:
    """comps: (id,h,v,tq); coef[c][by][bx] = 64 values in zigzag order"""
    def __init__(s, w, h, comps, coef, dri=0):
        s.w, s.h, s.comps, s.coef, s.dri = w, h, comps, coef, dri
        s.hm = max(c[1] for c in comps); s.vm = max(c[2] for c in comps)
        s.mx = -(-w // (8 * s.hm)); s.my = -(-h // (8 * s.vm))
    def sof(s, m): return seg(m, struct.pack('>BHHB', 8, s.h, s.w, len(s.comps)) + b''.join(bytes([c[0], c[1] << 4 | c[2], c[3]]) for c in s.comps))
    def units(s, cs):
        if len(cs) == 1:
            c = cs[0]; k = s.comps[c]
            bw = -(-(-(-s.w * k[1] // s.hm)) // 8); bh = -(-(-(-s.h * k[2] // s.vm)) // 8)
            return [[(c, y, x)] for y in range(bh) for x in range(bw)]
        return [[(c, my * s.comps[c][2] + v, mx * s.comps[c][1] + h) for c in cs for v in range(s.comps[c][2]) for h in range(s.comps[c][1])] for my in range(s.my) for mx in range(s.mx)]
    def scan(s, cs, ss=0, se=63, ah=0, al=0, tabs=None, dc=DC, ac=AC, dri=None, prog=False, eobrun=False, ids=None):
        tabs = tabs or [0] * len(cs); hdr = seg(0xda, bytes([len(cs)]) + b''.join(bytes([(ids or [s.comps[c][0] for c in cs])[i], tabs[i]]) for i, c in enumerate(cs)) + bytes([ss, se, ah << 4 | al]))
        w = W(); pred = {c: 0 for c in cs}; dri = s.dri if dri is None else dri
        D = dc if isinstance(dc, list) else [dc] * 4; A = ac if isinstance(ac, list) else [ac] * 4
        D = [codes(t) for t in D]; A = [codes(t) for t in A]
        run = 0; pend = []
        def flushrun():
            nonlocal run, pend
            if run:
                n = run.bit_length() - 1; w.put(*A[tabs[0] & 15][n << 4]); w.put(run - (1 << n), n)
                for b in pend: w.put(b, 1)
                run = 0; pend = []
        for i, u in enumerate(s.units(cs)):
            if dri and i and i % dri == 0:
                flushrun(); w.flush(); w.o += bytes([0xff, 0xd0 + (i // dri - 1) % 8]); pred = {c: 0 for c in cs}
            for c, y, x in u:
                b = s.coef[c][y][x]; t = tabs[cs.index(c)]
                if ss == 0:
                    if ah: w.put(b[0] >> al & 1, 1)
                    else:
                        v = b[0] >> al; d = v - pred[c]; pred[c] = v; w.put(*D[t >> 4][cat(d)]); mag(w, d)
                if se and not ah:
                    a = A[t & 15]; k0 = max(ss, 1); r = 0
                    q = lambda v: (abs(v) >> al) * (1 if v > 0 else -1)
                    z = [q(v) for v in b[k0:se + 1]]
                    while z and z[-1] == 0: z.pop()
                    if z: flushrun()
                    for v in z:
                        if v == 0: r += 1; continue
                        while r > 15: w.put(*a[0xf0]); r -= 16
                        w.put(*a[r << 4 | cat(v)]); mag(w, v); r = 0
                    if len(z) < se + 1 - k0:
                        if eobrun: run += 1
                        else: w.put(*a[0])
                elif se and ah: # refinement
                    a = A[t & 15]; hist = [abs(v) >> (al + 1) for v in b]; cur = [abs(v) >> al for v in b]
                    last = max([k for k in range(ss, se + 1) if cur[k] == 1], default=ss - 1)
                    r = 0; corr = []; k = ss
                    if last >= ss: flushrun()
                    while k <= last:
                        if hist[k]: corr.append(cur[k] & 1)
                        elif cur[k] == 0:
                            r += 1
                            if r == 16: # ZRL covers 16 zero-history coefficients
                                w.put(*a[0xf0]); [w.put(x, 1) for x in corr]; corr = []; r = 0
                        else:
                            w.put(*a[r << 4 | 1]); w.put(1 if b[k] > 0 else 0, 1); [w.put(x, 1) for x in corr]; corr = []; r = 0
                        k += 1
                    if k <= se:
                        tail = corr + [cur[j] & 1 for j in range(k, se + 1) if hist[j]]
                        if eobrun: run += 1; pend += tail
                        else: w.put(*a[0]); [w.put(x, 1) for x in tail]
        flushrun(); w.flush()
        return hdr + bytes(w.o)
def grid(img_w, img_h, comps, f):
    "coefficients from f(component, by, bx) -> dict or list"
    hm = max(c[1] for c in comps); vm = max(c[2] for c in comps); mx = -(-img_w // (8 * hm)); my = -(-img_h // (8 * vm)); r = []
    for i, c in enumerate(comps):
        p = []
        for y in range(my * c[2]):
            row = []
            for x in range(mx * c[1]):
                v = f(i, y, x); b = [0] * 64
                if isinstance(v, dict):
                    for k, q in v.items(): b[k] = q
                else: b[:len(v)] = v
                row.append(b)
            p.append(row)
        r.append(p)
    return r
SOI = b'\xff\xd8'; EOI = b'\xff\xd9'
GRAY = [(1, 1, 1, 0)]
def ycc(h=1, v=1, tq=(0, 0, 0)): return [(1, h, v, tq[0]), (2, 1, 1, tq[1]), (3, 1, 1, tq[2])]
def dri(n): return seg(0xdd, struct.pack('>H', n))
Q1 = [1] * 64
def head(q=None): return SOI + dqt(0, q or Q1)
def baseline(img, q=None, dc=DC, ac=AC):
    return head(q) + dht(0, 0, dc) + dht(1, 0, ac) + img.sof(0xc0) + (dri(img.dri) if img.dri else b'') + img.scan(list(range(len(img.comps))), dc=dc, ac=ac) + EOI
def progressive(img, scans, q=None, between=None, **k):
    o = head(q) + dht(0, 0, DC) + dht(1, 0, ACP) + img.sof(0xc2) + (dri(img.dri) if img.dri else b'')
    for i, (cs, ss, se, ah, al) in enumerate(scans):
        if between and i in between: o += between[i]
        o += img.scan(cs, ss, se, ah, al, ac=ACP, prog=True, **k)
    return o + EOI
