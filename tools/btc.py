"""Small Bitcoin toolbox used only to *generate* inputs.  It is never an oracle: what a
call must return is decided by the TLA+ specification."""
import hashlib, hmac, struct

P = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)

def inv(a, m): return pow(a, -1, m)
def _jd(p):
    x, y, z = p
    if z == 0 or y == 0: return (0, 1, 0)
    s = 4*x*y*y % P; m = 3*x*x % P
    x3 = (m*m - 2*s) % P
    return (x3, (m*(s-x3) - 8*y**4) % P, 2*y*z % P)
def _ja(p, q):
    if p[2] == 0: return q
    if q[2] == 0: return p
    z1 = p[2]*p[2] % P; z2 = q[2]*q[2] % P
    u1 = p[0]*z2 % P; u2 = q[0]*z1 % P
    s1 = p[1]*z2*q[2] % P; s2 = q[1]*z1*p[2] % P
    if u1 == u2: return _jd(p) if s1 == s2 else (0, 1, 0)
    h = (u2-u1) % P; r = (s2-s1) % P
    h2 = h*h % P; h3 = h2*h % P; v = u1*h2 % P
    x = (r*r - h3 - 2*v) % P
    return (x, (r*(v-x) - s1*h3) % P, p[2]*q[2]*h % P)
def _aff(p):
    if p[2] == 0: return None
    i = inv(p[2], P); i2 = i*i % P
    return (p[0]*i2 % P, p[1]*i2*i % P)
def padd(a, b):
    if a is None: return b
    if b is None: return a
    return _aff(_ja((a[0], a[1], 1), (b[0], b[1], 1)))
_gt = None
def pmul(k, p=G):
    global _gt
    k %= N
    if p == G:
        if _gt is None:
            _gt = []; q = (G[0], G[1], 1)
            for _ in range(256):
                a = _aff(q); _gt.append((a[0], a[1], 1)); q = _jd((a[0], a[1], 1))
        r = (0, 1, 0); i = 0
        while k:
            if k & 1: r = _ja(r, _gt[i])
            k >>= 1; i += 1
        return _aff(r)
    r = (0, 1, 0); b = (p[0], p[1], 1)
    for c in bin(k)[2:] if k else '':
        r = _jd(r)
        if c == '1': r = _ja(r, b)
    return _aff(r)
def lift(x, odd=0):
    if x >= P: return None
    c = (pow(x, 3, P) + 7) % P; y = pow(c, (P+1)//4, P)
    if y*y % P != c: return None
    return (x, y if y % 2 == odd else P-y)
def b32(x): return x.to_bytes(32, 'big')
def sec(p, c=True): return (bytes([2+p[1] % 2])+b32(p[0])) if c else b'\4'+b32(p[0])+b32(p[1])
def pub(d, c=True): return sec(pmul(d), c)

def sha(b): return hashlib.sha256(b).digest()
def dsha(b): return sha(sha(b))
def _rmd():
    RL=[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13]
    RR=[5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11]
    SL=[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6]
    SR=[8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11]
    KL=[0,0x5a827999,0x6ed9eba1,0x8f1bbcdc,0xa953fd4e]; KR=[0x50a28be6,0x5c4dd124,0x6d703ef3,0x7a6d76e9,0]
    M=0xffffffff
    def rol(x,n): return ((x<<n)|(x>>(32-n)))&M
    def f(j,x,y,z):
        return (x^y^z, (x&y)|(~x&z), (x|(~y&M))^z, (x&z)|(y&~z), x^(y|(~z&M)))[j]&M
    def run(m):
        n=len(m); m=m+b'\x80'+b'\0'*((55-n)%64)+struct.pack('<Q',8*n)
        h=[0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0]
        for o in range(0,len(m),64):
            X=struct.unpack('<16I',m[o:o+64]); a,b,c,d,e=h; A,B,C,D,E=h
            for j in range(80):
                t=(rol((a+f(j//16,b,c,d)+X[RL[j]]+KL[j//16])&M,SL[j])+e)&M; a,e,d,c,b=e,d,rol(c,10),b,t
                t=(rol((A+f(4-j//16,B,C,D)+X[RR[j]]+KR[j//16])&M,SR[j])+E)&M; A,E,D,C,B=E,D,rol(C,10),B,t
            h=[(h[1]+c+D)&M,(h[2]+d+E)&M,(h[3]+e+A)&M,(h[4]+a+B)&M,(h[0]+b+C)&M]
        return struct.pack('<5I',*h)
    return run
rmd = _rmd()
def h160(b): return rmd(sha(b))

def var(n):
    if n < 253: return bytes([n])
    if n < 65536: return b'\xfd'+struct.pack('<H', n)
    if n < 2**32: return b'\xfe'+struct.pack('<I', n)
    return b'\xff'+struct.pack('<Q', n)
def vb(b): return var(len(b))+b

def rfc6979(d, z):
    k = b'\0'*32; v = b'\1'*32; x = b32(d)
    H = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    k = H(k, v+b'\0'+x+z); v = H(k, v); k = H(k, v+b'\1'+x+z); v = H(k, v)
    while True:
        v = H(k, v); c = int.from_bytes(v, 'big')
        if 0 < c < N: yield c
        k = H(k, v+b'\0'); v = H(k, v)
def ecdsa(d, z, low=True):
    e = int.from_bytes(z, 'big') % N
    for k in rfc6979(d, z):
        R = pmul(k); r = R[0] % N; s = inv(k, N)*(e+r*d) % N
        if r and s:
            if low and s > N//2: s = N-s
            return b32(r)+b32(s)
def der(rs):
    def i(b):
        b = b.lstrip(b'\0')
        if b and b[0] >= 128: b = b'\0'+b
        return bytes([2, len(b)])+b
    x = i(rs[:32])+i(rs[32:])
    return bytes([48, len(x)])+x
def tagged(t, m): h = sha(t); return sha(h+h+m)
def schnorr(d, m, aux=b'\0'*32):
    Pt = pmul(d); d = d if Pt[1] % 2 == 0 else N-d
    t = b32(d ^ int.from_bytes(tagged(b'BIP0340/aux', aux), 'big'))
    k = int.from_bytes(tagged(b'BIP0340/nonce', t+b32(Pt[0])+m), 'big') % N
    R = pmul(k); k = k if R[1] % 2 == 0 else N-k
    e = int.from_bytes(tagged(b'BIP0340/challenge', b32(R[0])+b32(Pt[0])+m), 'big') % N
    return b32(R[0])+b32((k+e*d) % N)

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58(b):
    n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = B58[r]+s
    return '1'*(len(b)-len(b.lstrip(b'\0')))+s
def b58c(b): return b58(b+dsha(b)[:4])

BCH = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
def _pm(v):
    c = 1
    for x in v:
        t = c >> 25; c = (c & 0x1ffffff) << 5 ^ x
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if t >> i & 1: c ^= g
    return c
def bech32(hrp, ver, prog, const=None):
    acc = bits = 0; d = [ver]
    for b in prog:
        acc = acc << 8 | b; bits += 8
        while bits >= 5: bits -= 5; d.append(acc >> bits & 31)
    if bits: d.append(acc << (5-bits) & 31)
    return bech32_raw(hrp, d, const if const is not None else (1 if ver == 0 else 0x2bc830a3))
def bech32_raw(hrp, d, const):
    x = [ord(c) >> 5 for c in hrp]+[0]+[ord(c) & 31 for c in hrp]
    p = _pm(x+d+[0]*6) ^ const
    return hrp+'1'+''.join(BCH[i] for i in d+[p >> 5*(5-i) & 31 for i in range(6)])

def txin(h, idx, script, seq): return h+struct.pack('<I', idx)+vb(script)+struct.pack('<I', seq)
def txout(amt, script): return struct.pack('<Q', amt)+vb(script)
def wit(items): return var(len(items))+b''.join(vb(x) for x in items)
class T:
    """ver, ins [(hash, idx, script, seq, witness items)], outs [(amount, script)], lock"""
    def __init__(s, ver, ins, outs, lock): s.ver, s.ins, s.outs, s.lock = ver, ins, outs, lock
    def enc(s, segwit=None):
        if segwit is None: segwit = any(i[4] for i in s.ins)
        b = struct.pack('<I', s.ver)+(b'\0\1' if segwit else b'')+var(len(s.ins))+b''.join(txin(*i[:4]) for i in s.ins)
        b += var(len(s.outs))+b''.join(txout(*o) for o in s.outs)
        if segwit: b += b''.join(wit(i[4]) for i in s.ins)
        return b+struct.pack('<I', s.lock)
    def txid(s): return dsha(s.enc(False))
HARD = 0x80000000
def ckd(k, c, i):
    data = (b'\0'+b32(k) if i >= HARD else pub(k))+struct.pack('>I', i)
    I = hmac.new(c, data, hashlib.sha512).digest()
    return (int.from_bytes(I[:32], 'big')+k) % N, I[32:]
def master(seed):
    I = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
    return int.from_bytes(I[:32], 'big'), I[32:]
def derive(k, c, path):
    for i in path: k, c = ckd(k, c, i)
    return k, c
