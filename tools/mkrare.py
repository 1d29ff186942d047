#!/usr/bin/env python3
"""Search for keys, digests and seeds whose derived values have rare shapes (leading zero bytes,
short DER integers, ...).  Writes rare.json, an input corpus for the scenario generators."""
import json, os, random, hashlib, hmac
from btc import *
r = random.Random(20261117); out = {}
def walk(start, n):
    """public points of start, start+1, ... (affine, batched inversion)"""
    p = pmul(start); k = start; BATCH = 512
    for o in range(0, n, BATCH):
        # points p + i*G for i in 0..BATCH-1
        mult = MUL[:BATCH]
        dx = [(m[0]-p[0]) % P for m in mult]
        acc = [1]
        for d in dx: acc.append(acc[-1]*d % P)
        iv = pow(acc[-1], -1, P); invs = [0]*len(dx)
        for i in range(len(dx)-1, -1, -1): invs[i] = iv*acc[i] % P; iv = iv*dx[i] % P
        yield k, p
        for i, m in enumerate(mult):
            lam = (m[1]-p[1])*invs[i] % P; x = (lam*lam-p[0]-m[0]) % P; y = (lam*(p[0]-x)-p[1]) % P
            yield k+i+1, (x, y)
        k += BATCH+1; p = padd((x, y), G)
MUL = []; q = None
for i in range(512): q = padd(q, G); MUL.append(q)
want = dict(x1=6, x2=3, y1=4, y2=2, h1=6, h2=3, w1=4, ff=2); got = {k: [] for k in want}
for k, p in walk(r.randrange(1, N//2), 400000):
    x, y = p
    if x >> 240 == 0 and len(got['x2']) < 3: got['x2'].append(k)
    elif x >> 248 == 0 and len(got['x1']) < 6: got['x1'].append(k)
    if y >> 240 == 0 and len(got['y2']) < 2: got['y2'].append(k)
    elif y >> 248 == 0 and len(got['y1']) < 4: got['y1'].append(k)
    if x >> 240 == 0xffff and len(got['ff']) < 2: got['ff'].append(k)
    if all(len(got[z]) >= want[z] for z in ('x1', 'x2', 'y1', 'y2', 'ff')): break
def h160f(b):
    try: return hashlib.new('ripemd160', sha(b)).digest()
    except Exception: return rmd(sha(b))
n = 0
for k, p in walk(r.randrange(1, N//2), 90000):
    c = sec(p); h = h160f(c); n += 1
    if h[:2] == b'\0\0' and len(got['h2']) < 2: got['h2'].append(k)
    elif h[0] == 0 and len(got['h1']) < 6: got['h1'].append(k)
    if n > 2000 and len(got['h2']) >= 1: break
out.update({k: [hex(x) for x in v] for k, v in got.items() if v})
# signatures with short r or s
sigs = []
ks = {}
for k, p in walk(r.randrange(1, N//2), 1): pass
d = r.randrange(1, N); cnt = dict(r1=0, r2=0, s1=0, s2=0, both=0)
for i in range(9000):
    z = sha(b'z%d' % i)
    kk = next(rfc6979(d, z)); R = pmul(kk)[0] % N; S = inv(kk, N)*(int.from_bytes(z, 'big')+R*d) % N; S = min(S, N-S)
    t = None
    if R >> 247 == 0: t = 'r2'
    elif R >> 248 == 0: t = 'r1'
    elif S >> 240 == 0: t = 's2'
    elif S >> 247 == 0: t = 's1'
    if t and cnt[t] < 4: cnt[t] += 1; sigs.append([hex(d), z.hex()])
    if R >> 248 == 0 and S >> 247 == 0: sigs.append([hex(d), z.hex()])
out['sigs'] = sigs
# ECDH pairs whose shared x or y starts with zero
e = []; a = r.randrange(1, N); A = pmul(a); p = None; b = 1; n1 = n2 = 0
for b in range(2, 4000):
    q = pmul(b*0x9e3779b97f4a7c15 % N, A)
    if q[0] >> 248 == 0 or q[1] >> 248 == 0: e.append([hex(a), hex(b*0x9e3779b97f4a7c15 % N)])
    if len(e) >= 10: break
out['ecdh'] = e
# HD: master keys, hardened and plain children with leading zeros
hd = []; i = 0
while len(hd) < 4:
    s = sha(b'seed%d' % i)[:16]; i += 1; I = hmac.new(b'Bitcoin seed', s, hashlib.sha512).digest()
    if I[0] == 0: hd.append([s.hex(), []])
while len(hd) < 6:   # chain code with leading zeros
    s = sha(b'seed%d' % i)[:16]; i += 1; I = hmac.new(b'Bitcoin seed', s, hashlib.sha512).digest()
    if I[32] == 0: hd.append([s.hex(), []])
s = sha(b'parent')[:32]; I = hmac.new(b'Bitcoin seed', s, hashlib.sha512).digest(); dk, c = int.from_bytes(I[:32], 'big'), I[32:]
n1 = n2 = 0
for j in range(200000):
    ix = 0x80000000+j; J = hmac.new(c, b'\0'+b32(dk)+ix.to_bytes(4, 'big'), hashlib.sha512).digest(); ch = (int.from_bytes(J[:32], 'big')+dk) % N
    if ch >> 240 == 0 and n2 < 2: hd.append([s.hex(), [ix]]); n2 += 1
    elif ch >> 248 == 0 and n1 < 4: hd.append([s.hex(), [ix]]); n1 += 1
    if J[0] == 0 and n1 < 8: hd.append([s.hex(), [ix]]); n1 += 1
    if n2 >= 2: break
pk = sec(pmul(dk)); n1 = n2 = 0
for j in range(200000):
    J = hmac.new(c, pk+j.to_bytes(4, 'big'), hashlib.sha512).digest(); ch = (int.from_bytes(J[:32], 'big')+dk) % N
    if ch >> 240 == 0 and n2 < 2: hd.append([s.hex(), [j]]); n2 += 1
    elif ch >> 248 == 0 and n1 < 4: hd.append([s.hex(), [j]]); n1 += 1
    if n2 >= 2: break
out['hd'] = hd
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rare.json')
json.dump(out, open(f, 'w'), indent=0); print({k: len(v) for k, v in out.items()})
