"""Scenario generators: curve arithmetic, signatures, HD keys, mnemonics, WIF, addresses."""
import os, re
from btc import *
from gen_tx import RARE, RAREKEYS, le8, u64, rb, H, le4, u32, rkey, rpub, rrs, mutate, feed, new, get
HERE = os.path.dirname(os.path.abspath(__file__))
WORDS = re.findall(r'"([a-z]+)"', open(os.path.join(HERE, '../spec/Words.tla')).read().split('WordList', 1)[1])
NETS = ['main', 'test', 'reg', 'sig']
A = lambda t: t.encode('latin-1').hex()
def rs32(r): return r.choice([0, 1, 2, 3, N-2, N-1, N, N+1, N+2, 2**256-1, 2**256-2, N//2, N//2+1, 2**255, 2**32, 2**32-1, r.getrandbits(256), r.getrandbits(256), r.getrandbits(256), r.randrange(1, N), 1 << r.randrange(256), (1 << r.randrange(256))-1, N-r.getrandbits(20), r.getrandbits(30)])
def rpoint(r, pool=[]):
    if len(pool) < 40:
        for k in [1, 2, 3, 4, 7, N-1, N-2, N-3, N//2, N//2+1]+[r.randrange(1, N) for _ in range(30)]: pool.append(pmul(k))
    return r.choice(pool)
def P64(p): return '' if p is None else H(b32(p[0])+b32(p[1]))
SC = ['add', 'sub', 'mul', 'div', 'neg', 'addu', 'subu', 'addeq', 'subeq', 'muleq', 'diveq', 'u', 'cmp', 'addueq', 'subueq', 'mulu', 'divu', 'umul', 'udiv', 'uadd', 'usub']
PT = ['add', 'sub', 'neg', 'addeq', 'subeq', 'mul', 'rmul', 'div', 'gmul', 'cmp', 'valid']
def sec_inputs(r):
    p = rpoint(r); s = r.choice([sec(p), sec(p, False)])
    k = r.randrange(12)
    if k == 0: return s+rb(r, r.randrange(1, 40))
    if k == 1: return s[:r.randrange(len(s))]
    if k == 2: return bytes([r.getrandbits(8)])+s[1:]
    if k == 3: return bytes([r.choice([0, 1, 5, 6, 7, 0x82, 0xff])])+s[1:]
    if k == 4: return mutate(r, s)
    if k == 5: return bytes([r.choice([2, 3])])+b32(r.choice([0, P, P-1, P+1, 2**256-1, 5, 7, r.getrandbits(256)]))
    if k == 6: x = b'\4'+b32(p[0])+b32(r.choice([P-p[1], p[1] ^ 1, 0, P, p[1]+P if p[1]+P < 2**256 else p[1]])); return x
    if k == 7: return bytes([2])+b32(r.getrandbits(256))
    if k == 8: return b'\4'+b32(r.choice([P, P+1, 0, 2**256-1]))+b32(p[1])
    if k == 9: return b''
    if k == 10:   # x coordinate of a curve point, written as x+p
        for _ in range(50):
            x = r.randrange(0, 2**256-P); q = lift(x)
            if q: return r.choice([bytes([2])+b32(x+P), b'\4'+b32(x+P)+b32(q[1])])
    return s
def c14(r, n):
    for j in range(n):
        ops = []
        for _ in range(14):
            f = r.choice(SC); ops.append(dict(op='sc_op', f=f, a=H(b32(rs32(r))), b=H(b32(rs32(r))), u=le4(u32(r))))
        a, b = rs32(r), rs32(r)
        ops.append(dict(op='sc_op', f='cmp', a=H(b32(a)), b=H(b32(r.choice([a, a ^ 1, (a+1) % 2**256, a ^ 1 << 255, b]))), u=le4(0)))
        ops.append(dict(op='sc_op', f='add', a=H(b32(a % N)), b=H(b32((N-a) % N)), u=le4(0)))
        yield ops
    for j in range(n):
        ops = []
        for _ in range(6):
            p = r.choice([rpoint(r), rpoint(r), rpoint(r), None]); q = r.choice([rpoint(r), rpoint(r), p, p, None])
            if q and r.random() < .3: q = (q[0], P-q[1])
            f = r.choice(PT)
            if f == 'cmp' and r.random() < .3 and p: q = (p[0], P-p[1])
            if f == 'valid' and r.random() < .5:
                p = (r.choice([p[0] if p else 1, 0, P, r.getrandbits(256)]), r.choice([p[1] if p else 1, 0, P, r.getrandbits(256)]))
            ops.append(dict(op='pt_op', f=f, a=P64(p), b=P64(q), k=H(b32(rs32(r))), au=r.randrange(2), bu=r.randrange(2)))
        # associativity and distributivity at random points come out of exactness
        yield ops
    for j in range(n//2):
        ops = []
        for _ in range(2): ops.append(dict(op='pubkey', key=H(b32(rkey(r))), unc=r.randrange(2), net=r.choice(NETS)))
        for _ in range(12): ops.append(dict(op='sec', data=H(sec_inputs(r))))
        yield ops
    for j in range(n//2):   # constructors
        ops = []
        for _ in range(3):
            p = rpoint(r); x = b32(p[0])+b32(p[1])
            if r.random() < .3: x = r.choice([mutate(r, x)[:64].ljust(64, b'\1'), bytes(64), b32(p[0])+b32(P-p[1]), b32(p[0])+b32(r.getrandbits(256)), b32(P)+b32(p[1])])
            ops += [dict(op='pt_ctor', o=1, data=H(x), via=r.choice(['xy', 'kxy', 'kpt']), c=r.randrange(2), cap=r.choice([65, 33, 66, 64, 32, 34, 31, 1, 0]))]
            s = sec_inputs(r)
            if s: ops += [dict(op='pt_ctor', o=2, data=H(s), via=r.choice(['hex', 'khex']), c=0, cap=r.choice([65, 33, 66, 64, 32, 34, 31, 1, 0]))]
            s = s[:65].ljust(65, b'\1'); ops += [dict(op='pt_ctor', o=2, data=H(s), via=r.choice(['sec', 'ksec']), c=0, cap=70)]
            b = b32(rs32(r)); b = r.choice([b, b, b, b+b'\1', b[:r.randrange(1, 32)]]); ops += [dict(op='sc_ctor', o=3, data=H(b), via=r.choice(['bytes', 'hex'])), get(3)]
        yield ops
    for j in range(n//4):   # the same through the streaming interface
        ops = []
        for k in ['point', 'pub', 'scalar', 'prv']:
            ops.append(new(1, k))
            b = sec_inputs(r) if k in ('point', 'pub') else b32(rs32(r))+rb(r, r.randrange(2))
            c = r.randrange(len(b)+1)
            ops += [feed(1, b[:c]), feed(1, b[c:]), get(1)]
        yield ops
def zs(r): return r.choice([b32(r.randrange(1, N)), b32(r.randrange(1, N)), b32(1), b32(N-1), b32(N//2), b32(r.getrandbits(128)), b32(2**255), b32(r.getrandbits(250)+1)])
def c12(r, n):
    for i in range(0, len(RARE['sigs']), 3):   # short r, short s
        yield [dict(op='sign', key=H(b32(int(k, 16))), h=z, unc=0, net='main') for k, z in RARE['sigs'][i:i+3]]+ \
              [dict(op='verify', sec=H(pub(int(k, 16))), sig=H(ecdsa(int(k, 16), bytes.fromhex(z))), h=z) for k, z in RARE['sigs'][i:i+3]]
    for j in range(n):
        ops = []
        for _ in range(3): ops.append(dict(op='sign', key=H(b32(rkey(r))), h=H(zs(r)), unc=r.randrange(2), net='main'))
        if r.random() < .2: ops.append(dict(op='sign', key=H(b32(rkey(r))), h=H(b32(r.randrange(N+1, 2**256))), unc=0, net='main'))
        yield ops
    for j in range(n*2):
        ops = []
        for _ in range(4):
            d = rkey(r); z = zs(r); g = ecdsa(d, z, r.random() < .5); s = pub(d, r.random() < .6); k = r.randrange(14)
            R, S = int.from_bytes(g[:32], 'big'), int.from_bytes(g[32:], 'big')
            if k == 0: g = b32(R)+b32(N-S)
            elif k == 1: g = b32(N-R)+b32(S)
            elif k == 2: g = b32(r.choice([0, N, 1, N-1, R+N if R+N < 2**256 else 0, 2**256-1]))+b32(S)
            elif k == 3: g = b32(R)+b32(r.choice([0, N, 1, N-1, S+N if S+N < 2**256 else 0, 2**256-1]))
            elif k == 4: x = bytearray(g); x[r.randrange(64)] ^= 1 << r.randrange(8); g = bytes(x)
            elif k == 5: x = bytearray(z); x[r.randrange(32)] ^= 1 << r.randrange(8); z = bytes(x)
            elif k == 6: s = r.choice([rpub(r), pub(N-d, r.random() < .5)])
            elif k == 7: g = b32(0)+b32(0)
            elif k == 8: z = b32((int.from_bytes(z, 'big')+N) % 2**256) if int.from_bytes(z, 'big')+N < 2**256 else z
            elif k == 9: g = g[32:]+g[:32]
            elif k == 10:   # public key whose combination is the point at infinity: z + r d = 0
                rr = r.randrange(1, N); g = b32(rr)+b32(r.randrange(1, N)); d2 = (-int.from_bytes(z, 'big')*inv(rr, N)) % N
                if d2: s = pub(d2)
            ops.append(dict(op='verify', sec=H(s), sig=H(g), h=H(z)))
        yield ops
    # crafted signatures with tiny r or s, or z == 0
    for j in range(n//2):
        d = rkey(r); k = r.randrange(1, N); Rp = pmul(k); R = Rp[0] % N; S = r.choice([1, 2, N-1, N//2, N//2+1, r.randrange(1, N)])
        z = (S*k-R*d) % N
        ops = [dict(op='verify', sec=H(pub(d)), sig=H(b32(R)+b32(S)), h=H(b32(z)))]
        S = inv(k, N)*(R*d) % N
        ops.append(dict(op='verify', sec=H(pub(d)), sig=H(b32(R)+b32(S)), h=H(b32(0))))
        yield ops
    # the x coordinate of the nonce point is not below the order; the two products are equal (their sum is a doubling)
    for j in range(n//4):
        ops = []
        for _ in range(2):
            while 1:
                x = N+r.randrange(1, P-N) if r.random() < .5 else N+r.randrange(1, 60); Rp = lift(x, r.randrange(2))
                if Rp: break
            z, S, R = r.randrange(1, N), r.randrange(1, N), x-N; Q = pmul(inv(R, N), padd(pmul(S, Rp), pmul(N-z)))
            if Q: ops += [dict(op='verify', sec=H(sec(Q, r.random() < .5)), sig=H(b32(q)+b32(S)), h=H(b32(z))) for q in (R, x, R+1)]
            u = r.randrange(1, N); R = pmul(2*u % N)[0] % N; S = z*inv(u, N) % N; d = z*inv(R, N) % N
            ops += [dict(op='verify', sec=H(pub(d)), sig=H(b32(R)+b32(q)), h=H(b32(z))) for q in (S, N-S)]
        yield ops
    # r that is nearly, but not quite, the x coordinate of the nonce point, with a matching s
    for j in range(n//4):
        ops = []
        for _ in range(4):
            d = rkey(r); z = r.randrange(1, N); k = r.randrange(1, N); x = pmul(k)[0] % N; R = x ^ (1 << (r.randrange(256) if r.random() < .7 else r.randrange(2)))
            if r.random() < .3: R = x ^ r.getrandbits(29) or x
            if r.random() < .15: R = x
            if 0 < R < N: ops.append(dict(op='verify', sec=H(pub(d)), sig=H(b32(R)+b32((z+R*d)*inv(k, N) % N)), h=H(b32(z))))
        yield ops
    # HD public keys, DER and binary forms
    for j in range(n//2):
        d = rkey(r); z = zs(r); g = ecdsa(d, z)
        ops = [dict(op='hd_new', o=1, key=H(b32(d)), cc=H(rb(r, 32)), depth=0, fp='00000000', child='00000000', net='main', type='UNKNOWN'),
               dict(op='hd_xpub', o=2, p=1), dict(op='hp_verify', o=2, sig=H(g), h=H(z)), dict(op='hp_verify', o=2, sig=H(mutate(r, g)[:64].ljust(64, b'\1')), h=H(z)),
               dict(op='hp_child', o=3, p=2, i=le4(r.getrandbits(31))), dict(op='hp_verify', o=3, sig=H(g), h=H(z))]
        yield ops
    for j in range(n//2):
        ops = []
        for _ in range(4):
            b = der(rrs(r))
            if r.random() < .4: b = mutate(r, b)
            via = r.choice(['der', 'derlen', 'hex'])
            if not b or (via == 'der' and (len(b) < 2 or len(b) < b[1]+2)): continue
            ops += [dict(op='sig_ctor', o=1, data=H(b), via=via), get(1)]
            ops.append(dict(op='sig_index', data=H(r.choice([rrs(r), bytes(64)])+r.choice([b'', bytes([r.randrange(4)]), bytes([r.getrandbits(8)])]))))
        yield ops
    for j in range(n):
        rs = rrs(r) if r.random() < .8 else r.choice([b32(0), b32(1), rb(r, 32)])+r.choice([b32(0), rb(r, 32)])
        ops = [dict(op='sig_new', o=1, rs=H(rs)), get(1), dict(op='sig_der', o=1, cap=r.choice([80, 72, 71, 70, 69, 40, 8, 7, 1])), dict(op='sig_bin', o=1, len=r.choice([64, 65, 64, 65, 70])),
               dict(op='sig_frombin', o=2, data=H(rs)), get(2), dict(op='eq', o=1, p=2)]
        for _ in range(6):
            b = der(rs) if rs[:32] != bytes(32) and rs[32:] != bytes(32) else der(rrs(r))
            k = r.randrange(10)
            if k == 0: b = b[:2]+b'\2'+bytes([b[3]+1])+b'\0'+b[4:]; b = bytes([48, b[1]+1])+b[2:]   # extra leading zero
            elif k == 1: b = mutate(r, b)
            elif k == 2: b = b[:r.randrange(len(b))]
            elif k == 3: b += rb(r, r.randrange(1, 4))
            elif k == 4: b = bytes([48, r.choice([b[1]+1, b[1]-1, 0, 70, 71, 255, 128])])+b[2:]
            elif k == 5: i = r.choice([0, 2, 3, 4, 4+b[3], 5+b[3]]); b = b[:i]+bytes([r.choice([0, 1, 2, 3, 32, 33, 34, 0x30, 0x81, 0xff, b[i] ^ 1])])+b[i+1:]
            elif k == 6: x = rb(r, r.choice([0, 1, 33, 34])); b = bytes([48, len(x)+5, 2, len(x)])+x+b'\2\1\1'
            elif k == 7: x = bytes([128+r.randrange(128)])+rb(r, r.choice([0, 5, 31])); b = bytes([48, len(x)+5, 2, 1, 1, 2, len(x)])+x
            ops += [new(3, 'sig'), feed(3, b), get(3)]
            if r.random() < .5: ops += [new(4, 'sig')]+[feed(4, b[i:i+1]) for i in range(len(b))]+[get(4)]
        yield ops
def c13(r, n):
    for j in range(n):
        ops = []; ks = [rkey(r) for _ in range(2)]; ms = [rb(r, 32) for _ in range(2)]
        x = bytearray(ms[0]); x[r.randrange(32)] ^= 1; ms.append(bytes(x)); ms.append(r.choice([bytes(32), b'\xff'*32, ms[0][:31]+b'\0']))
        for k in ks+[N-ks[0]]:
            for m in ms: ops.append(dict(op='ssign', key=H(b32(k)), h=H(m), unc=r.randrange(2), net='main'))
        yield ops
    for j in range(n*2):
        ops = []
        for _ in range(4):
            d = rkey(r); m = rb(r, 32); g = schnorr(d, m, rb(r, 32)); Pt = pmul(d); x = b32(Pt[0]); k = r.randrange(14); o = dict()
            R, S = int.from_bytes(g[:32], 'big'), int.from_bytes(g[32:], 'big')
            if k == 0: g = g[:32]+b32(N-S)
            elif k == 1: g = g[:32]+b32(S+N if S+N < 2**256 else N)
            elif k == 2: b = bytearray(g); b[r.randrange(64)] ^= 1 << r.randrange(8); g = bytes(b)
            elif k == 3: b = bytearray(m); b[r.randrange(32)] ^= 1 << r.randrange(8); m = bytes(b)
            elif k == 4: x = b32(pmul(rkey(r))[0])
            elif k == 5: x = b32(r.choice([P, P+1, 2**256-1, 0, 5, r.getrandbits(256)]))
            elif k == 6: g = b32(r.choice([P, 0, 2**256-1, r.getrandbits(256)]))+g[32:]
            elif k in (7, 8):   # nonce point with odd y, or infinity
                dd = d if Pt[1] % 2 == 0 else N-d; kk = r.randrange(1, N); Rp = pmul(kk)
                if Rp[1] % 2 == 0: kk = N-kk; Rp = pmul(kk)
                e = int.from_bytes(tagged(b'BIP0340/challenge', b32(Rp[0])+x+m), 'big') % N
                g = b32(Rp[0])+b32((kk+e*dd) % N)
            elif k == 9:        # R at infinity: s G = e P, r = 0
                dd = d if Pt[1] % 2 == 0 else N-d; rx = r.choice([0, 1, 2])
                e = int.from_bytes(tagged(b'BIP0340/challenge', b32(rx)+x+m), 'big') % N; g = b32(rx)+b32(e*dd % N)
            elif k == 10: g = g[:32]+r.choice([b32(0), b32(N), b32(2**256-1)])
            elif k == 11:   # signature for the odd key
                dd = N-d if Pt[1] % 2 == 0 else d; kk = r.randrange(1, N); Rp = pmul(kk)
                if Rp[1] % 2: kk = N-kk
                e = int.from_bytes(tagged(b'BIP0340/challenge', b32(Rp[0])+x+m), 'big') % N; g = b32(Rp[0])+b32((kk+e*dd) % N)
            if r.random() < .5: ops.append(dict(op='sverify', x=H(x), sig=H(g), h=H(m)))
            else:
                q = lift(int.from_bytes(x, 'big'), r.randrange(2))
                ops.append(dict(op='sverify', sec=H(sec(q, r.random() < .6)) if q else '', sig=H(g), h=H(m)))
        yield ops
    for j in range(n//2):
        ops = []
        for _ in range(4):
            b = r.choice([rb(r, 64), rb(r, 64), bytes(64), bytes(63)+b'\1', b'\1'+bytes(63)]); ops += [dict(op='ssig_ctor', o=1, data=H(b), via=r.choice(['rs', 'arr'])), get(1)]
            b = r.choice([b, b+rb(r, 1), b[:r.randrange(1, 64)]]); ops += [dict(op='ssig_ctor', o=2, data=H(b), via='hex'), get(2), dict(op='eq', o=1, p=2)]
        yield ops
    for j in range(n//4):
        b = rb(r, 64); c = r.randrange(65)
        yield [new(1, 'ssig'), feed(1, b[:c]), feed(1, b[c:]+rb(r, r.randrange(3))), get(1)]+[dict(op='ser', o=1, off=r.randrange(66), len=r.randrange(66), fmt=r.choice(['raw', 'hex', 'custom'])) for _ in range(6)]
def c23(r, n):
    for a, b in RARE['ecdh']:                  # shared point with leading zero bytes
        yield [dict(op='ecdh', a=H(b32(int(a, 16))), b=H(b32(int(b, 16))), hash=h, unc=u, net='main') for h in (0, 1) for u in (0, 1)]
    for j in range(n):
        a, b = rkey(r), rkey(r)
        if r.random() < .15: b = r.choice([a, N-a])
        ops = []
        for h in (0, 1):
            for unc in (0, 1): ops.append(dict(op='ecdh', a=H(b32(a)), b=H(b32(b)), hash=h, unc=unc, net=r.choice(NETS)))
        yield ops

# ---------------------------------------------------------------- WIF (C20), addresses (C16)
def badtext(r, t, alphabet=B58):
    t = list(t); k = r.randrange(6); i = r.randrange(len(t)) if t else 0
    if not t: return 'x'
    if k == 0: t[i] = r.choice(alphabet)
    elif k == 1: del t[i]
    elif k == 2: t.insert(i, r.choice(alphabet))
    elif k == 3: t = t[:i]
    elif k == 4 and len(t) > 1: j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
    else: t[i] = t[i].swapcase()
    return ''.join(t)
def prv_addr(r, cap): return dict(op='prv_addr', key=H(b32(rkey(r))), unc=1 if r.random() < .3 else 0, net=r.choice(NETS), cap=cap)
def b58_only(t): return t and all(c in B58 for c in t)
def c20(r, n):
    for j in range(n):
        ops = []
        for _ in range(2): ops.append(prv_addr(r, r.choice([100, 60, 54, 53, 52, 51, 50, 20, 0])))
        for _ in range(4): ops.append(dict(op='wif', key=H(b32(rkey(r))), unc=r.randrange(2), net=r.choice(NETS)))
        yield ops
    for j in range(n*2):
        ops = []
        for _ in range(8):
            d = rkey(r); pre = r.choice([128, 239]); comp = r.choice([b'', b'\1']); body = bytes([pre])+b32(d)+comp; k = r.randrange(14)
            t = None
            if k == 0: body = bytes([r.choice([0, 5, 111, 196, 127, 129, 238, 240, 255, r.getrandbits(8)])])+body[1:]
            elif k == 1: body = body[:33]+bytes([r.choice([0, 2, 0x81, 255, r.getrandbits(8)])])
            elif k == 2: body = body[:33]+b'\1'+rb(r, r.randrange(1, 4))
            elif k == 3: body = body[:r.randrange(0, 33)]
            elif k == 4: body = bytes([pre])+b32(r.choice([0, N, N+1, 2**256-1]))+comp
            elif k == 5: t = b58(body+dsha(body)[:4]); t = badtext(r, t)
            elif k == 6: c = bytearray(dsha(body)[:4]); c[r.randrange(4)] ^= 1 << r.randrange(8); t = b58(body+bytes(c))
            elif k == 7: t = b58(body)
            elif k == 8: t = b58c(b'\0'+body)
            elif k == 9: t = r.choice(['', '1', '11111', 'K', b58(rb(r, r.randrange(60)))])
            elif k == 10: body = body+rb(r, r.randrange(10, 40))
            if t is None: t = b58c(body)
            if t and not b58_only(t): continue
            ops.append(dict(op='fromwif', data=A(t), key=H(b32(rkey(r))), unc=r.randrange(2), net=r.choice(NETS)))
        yield ops
HRP = dict(main='bc', test='tb', reg='bcrt', sig='tb')
PKH = dict(main=0, test=111, reg=111, sig=111); SH = dict(main=5, test=196, reg=196, sig=196)
def raddr(r):
    """a valid address"""
    n = r.choice(NETS); k = r.randrange(5)
    if k == 0: return b58c(bytes([PKH[n]])+rb(r, 20))
    if k == 1: return b58c(bytes([SH[n]])+r.choice([rb(r, 20), bytes(20), b'\xff'*20]))
    if k == 2: t = bech32(HRP[n], 0, rb(r, r.choice([20, 32])))
    else: t = bech32(HRP[n], r.randrange(1, 17), rb(r, r.choice([2, 3, 20, 31, 32, 33, 39, 40])))
    return t.upper() if r.random() < .2 else t
def baddr(r):
    k = r.randrange(13); n = r.choice(NETS)
    if k == 0: return b58c(bytes([r.getrandbits(8)])+rb(r, 20))
    if k == 1: return b58c(bytes([PKH[n]])+rb(r, r.choice([0, 1, 19, 21, 32])))
    if k == 2: return bech32(r.choice(['ltc', 'bt', 'b', 'bcr', 'tbc', 'bcrt1', 'BC'.lower()+'x']), 0, rb(r, 20))
    if k == 3: return bech32(HRP[n], 0, rb(r, r.choice([2, 19, 21, 31, 33, 40])))
    if k == 4: return bech32(HRP[n], r.randrange(1, 17), rb(r, r.choice([0, 1, 41, 42])))
    if k == 5: return bech32(HRP[n], r.randrange(17, 32), rb(r, 20))
    if k == 6: return bech32(HRP[n], 0, rb(r, r.choice([20, 32])), 0x2bc830a3)      # wrong constant
    if k == 7: return bech32(HRP[n], r.randrange(1, 17), rb(r, 32), 1)
    if k == 8: t = bech32(HRP[n], 0, rb(r, 20)); i = r.randrange(len(t)); return t[:i]+t[i].swapcase()+t[i+1:] if t[i].isalpha() else t.capitalize()
    if k == 9:   # non-zero padding or too much of it
        d = [0]+[r.randrange(32) for _ in range(32)]; 
        if r.random() < .5: d = [1]+[r.randrange(32) for _ in range(50)]+[r.choice([1, 4, 31])]
        else: d = [1]+[r.randrange(32) for _ in range(r.choice([49, 33, 35]))]+[0]
        return bech32_raw(HRP[n], d, 1 if d[0] == 0 else 0x2bc830a3)
    if k == 10: return r.choice(['', '1', 'bc1', 'tb1', 'bcrt1', 'bc1q', 'b', 'q', 'bc1qqqqqqq', '1'*34, '3'])
    if k == 11: return ''.join(r.choice(B58) for _ in range(r.choice([26, 33, 34, 35])))
    t = raddr(r); return badtext(r, t.lower(), BCH) if t.lower().startswith(('bc1', 'tb1', 'bcrt1')) else badtext(r, t)
def c16(r, n):
    for j in range(n):
        ops = []
        for net in NETS: ops.append(dict(op='addrs', key=H(b32(rkey(r))), unc=1 if r.random() < .25 else 0, net=net))
        yield ops
    for j in range(n//2):
        ops = []
        for _ in range(3):
            ops.append(prv_addr(r, r.choice([100, 77, 76, 75, 60, 44, 43, 42, 41, 40, 36, 35, 34, 33, 32, 20, 1, 0]))); t = raddr(r)
            ops += [dict(op='to_addr', o=1, data=A(t), amt=le8(u64(r)), rev=r.randrange(2), net=r.choice(NETS)), get(1), dict(op='s_addrs', o=2, data=A(t)), get(2)]
        yield ops
    for j in range(n*2):
        ops = []
        for _ in range(6):
            t = raddr(r); ops += [dict(op='s_addr', o=1, data=A(t))]
            for net in r.sample(NETS, 2): ops.append(dict(op='s_toaddr', o=1, net=net, **(dict(cap=r.choice([0, 1, 20, 33, 34, 35, 36, 42, 43, 62, 63, 64, 75, 76, 77, 90])) if r.random() < .5 else {})))
            ops.append(get(1))
        yield ops
    for j in range(n*2):
        ops = []
        for _ in range(8):
            t = baddr(r)
            if t and not (all(c in B58 for c in t) or re.match(r'(?i)[a-z]+1', t)): continue
            ops.append(dict(op='s_addr', o=1, data=A(t)))
        yield ops
    for j in range(n):
        ops = []
        for _ in range(5):
            h = rb(r, 20); s = r.choice([b'\x76\xa9\x14'+h+b'\x88\xac', b'\xa9\x14'+h+b'\x87', b'\0\x14'+h, b'\0\x20'+rb(r, 32), b'\x51\x20'+rb(r, 32), rb(r, r.choice([0, 1, 22, 23, 25, 34]))])
            if r.random() < .25: s = mutate(r, s)
            if len(s) in (22, 34) and s[0] in range(0x51, 0x61): continue
            ops.append(dict(op='s_from', o=1, data=H(s)))
            for net in NETS: ops.append(dict(op='s_toaddr', o=1, net=net))
        yield ops

# ---------------------------------------------------------------- HD keys (C09, C10)
TYPES = ['UNKNOWN', 'P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2SH_P2WPKH', 'P2SH_P2WSH', 'MULTISIG']
def ridx(r): return r.choice([0, 1, 2, 44, 45, 48, 49, 84, 255, 256, 65535, 65536, HARD-1, r.getrandbits(31), r.getrandbits(31), r.getrandbits(16)])
def hd_new(r, o, **kw):
    d = dict(op='hd_new', o=o, key=H(b32(rkey(r))), cc=H(rb(r, 32)), depth=r.choice([0, 0, 1, 2, 3, 4, 100, 254]), fp=H(rb(r, 4)) if r.random() < .85 else '', child=le4(u32(r)), net=r.choice(NETS), type=r.choice(TYPES))
    d.update(kw); return d
def path_text(r, idx):
    t = r.choice(['m/', '', 'm/'])+'/'.join(('%d' % (i & 0x7fffffff))+(r.choice("h'") if i >= HARD else '') for i in idx)
    return t if idx else r.choice(['m', 'm/', ''])
def rpath(r, hard=True, n=None):
    n = n if n is not None else r.choice([0, 1, 1, 2, 3, 4, 5])
    return [ridx(r)+(HARD if hard and r.random() < .5 else 0) for _ in range(n)]
def badpath(r):
    k = r.randrange(9)
    if k == 0: return r.choice(['n/0', 'M/0', '/0', 'm//0', 'm/0//1', '0//1', 'mm', 'm0', 'm/m/0', 'x', ' ', 'm/ 0', 'm/0 ', '//', '/'])
    if k == 1: return 'm/%d' % r.choice([2**31, 2**31+1, 2**32-1, 2**32, 2**32+5, 2**33, 10**10, 10**20, 2**64, 2**64+7])
    if k == 2: return 'm/%dh' % r.choice([2**31, 2**32-1, 2**32, 2**32+44, 10**15])
    if k == 3: return "m/1hh/2" if r.random() < .5 else "m/h" if r.random() < .5 else "m/'"
    if k == 4: return 'm/-1'
    if k == 5: return r.choice(['m/0x1', 'm/1a', 'm/a1', 'm/1.5', 'm/1h2', "m/44'0", 'm/1H', 'm/+1', 'm/1\\0'])
    if k == 6: return path_text(r, rpath(r, n=2))+r.choice(['x', ' ', 'hh', '//', '/x', '\n', "'h"])
    if k == 7: return 'm/'+''.join(r.choice("0123456789/h'm") for _ in range(r.randrange(1, 8)))
    return path_text(r, rpath(r, n=3)).replace('/', r.choice(['//', ' ', ',', '\\']), 1)
def idxb(p): return ''.join(le4(i) for i in p)
def c09(r, n):
    for seed, p in RARE['hd']:                 # keys and chain codes with leading zero bytes
        ops = [dict(op='hd_seed', o=1, seed=seed, net=r.choice(NETS)), dict(op='hd_idx', o=2, p=1, idx=idxb(p)), dict(op='hd_xpub', o=3, p=2), dict(op='hd_path', o=4, p=1, path=A(path_text(r, p)))]
        for i in (0, HARD, ridx(r)): ops.append(dict(op='hd_child', o=5, p=2, i=le4(i), h=0))
        ops += [dict(op='hp_child', o=6, p=3, i=le4(ridx(r))), get(2), dict(op='hd_text', o=2), dict(op='hp_text', o=3)]
        if p and p[0] < HARD: ops += [dict(op='hd_xpub', o=7, p=1), dict(op='hp_idx', o=8, p=7, idx=idxb(p)), get(8)]
        yield ops
    for j in range(n):
        # whole wallet: seed, a path in one go, step by step, as text, publicly
        net = r.choice(NETS); p = rpath(r, n=r.choice([1, 2, 3, 4])); q = rpath(r, hard=False, n=r.choice([1, 2, 3]))
        ops = [dict(op='hd_seed', o=1, seed=H(rb(r, r.choice([16, 32, 64, 64, 1, 65, 127, 128, 129]))), net=net), dict(op='hd_path', o=2, p=1, path=A(path_text(r, p))), dict(op='hd_idx', o=3, p=1, idx=idxb(p))]
        cur = 1
        for k, i in enumerate(p):
            if i >= HARD and r.random() < .6: ops.append(dict(op='hd_child', o=20+k, p=cur, i=le4(i & 0x7fffffff), h=r.choice([1, 2])))
            else: ops.append(dict(op='hd_child', o=20+k, p=cur, i=le4(i), h=0))
            cur = 20+k
        ops += [get(2), get(3), get(cur), get(1), dict(op='hd_xpub', o=4, p=2), get(2)]
        ops += [dict(op='hp_path', o=5, p=4, path=A(path_text(r, q))), dict(op='hp_idx', o=6, p=4, idx=idxb(q)), dict(op='hd_idx', o=7, p=2, idx=idxb(q)), dict(op='hd_xpub', o=8, p=7), get(4), get(5), get(8)]
        cur = 4
        for k, i in enumerate(q): ops.append(dict(op='hp_child', o=40+k, p=cur, i=le4(i))); cur = 40+k
        ops += [get(cur)]; yield ops
    for j in range(n):
        ops = [hd_new(r, 1, depth=r.choice([0, 1, 2, 3, 4, 250])), dict(op='hd_xpub', o=2, p=1)]
        for _ in range(4):
            i = ridx(r)
            ops += [dict(op='hd_child', o=3, p=1, i=le4(r.choice([i, i, i+HARD])), h=r.choice([0, 0, 1, 2])), dict(op='hp_child', o=4, p=2, i=le4(r.choice([i, i, i+HARD]))), get(1), get(2)]
        yield ops
    for j in range(n):   # malformed and odd paths
        ops = [hd_new(r, 1, depth=0), dict(op='hd_xpub', o=2, p=1)]
        for _ in range(6):
            t = badpath(r) if r.random() < .8 else path_text(r, rpath(r))
            ops += [dict(op='hd_path', o=3, p=1, path=A(t)), dict(op='hp_path', o=4, p=2, path=A(t))]
            if r.random() < .3: ops += [dict(op='hd_child', o=5, p=3, i=le4(ridx(r)), h=0), dict(op='hp_child', o=6, p=4, i=le4(ridx(r))), dict(op='hd_path', o=5, p=3, path=A('m/1')), dict(op='hp_idx', o=6, p=4, idx=idxb([1, 2]))]
        ops += [get(1), get(2)]
        yield ops
    for pur in (44, 45, 48, 49, 84, 86):   # standard account paths: what later forms of the key announce
        for coin in (0, 1, 2):
            for acc in (0, 1, 2):
                p = [pur+HARD, coin+HARD, 0+HARD, acc+HARD]
                yield [dict(op='hd_seed', o=1, seed=H(rb(r, 32)), net=r.choice(NETS)), dict(op='hd_idx', o=2, p=1, idx=idxb(p[:3])), get(2), dict(op='hd_text', o=2), dict(op='hd_idx', o=3, p=2, idx=idxb(p[3:])), get(3),
                       dict(op='hd_text', o=3), dict(op='hd_xpub', o=4, p=3), dict(op='hp_text', o=4), dict(op='hd_path', o=5, p=1, path=A(path_text(r, p+[0, 7]))), dict(op='hd_text', o=5), dict(op='hp_idx', o=6, p=4, idx=idxb([0, 7])), dict(op='hp_text', o=6)]
VER = [bytes.fromhex(x) for x in '0488ade4 049d7878 04b2430c 0295b005 02aa7a99 04358394 044a4e28 045f18bc 024285b5 02575048'.split()]
VPUB = [bytes.fromhex(x) for x in '0488b21e 049d7cb2 04b24746 0295b43f 02aa7ed3 043587cf 044a5262 045f1cf6 024289ef 02575483'.split()]
def xbody(r, public=False):
    head = bytes([r.choice([0, 1, 3, 255, r.getrandbits(8)])])+rb(r, 4)+rb(r, 4)+rb(r, 32)
    return (r.choice(VPUB)+head+rpub(r, True)) if public else (r.choice(VER)+head+b'\0'+b32(rkey(r)))
def xbad(r):
    public = r.random() < .5; b = bytearray(xbody(r, public)); k = r.randrange(10)
    if k == 0: b[r.randrange(4)] ^= 1 << r.randrange(8)
    elif k == 1: b[45] = r.choice([0, 1, 2, 3, 4, 5, 6, 0x80, 0xff])
    elif k == 2 and not public: b[46:] = b32(r.choice([0, N, N+1, 2**256-1]))
    elif k == 2: b[46:] = b32(r.choice([0, 5, P, P+1, 2**256-1, r.getrandbits(256)]))
    elif k == 3: b = b[:r.randrange(78)]
    elif k == 4: b = b+rb(r, r.choice([1, 2, 4, 32]))
    elif k == 5: b[0:4] = rb(r, 4)
    elif k == 6: b[0:4] = r.choice(VPUB if not public else VER)
    elif k == 7: t = badtext(r, b58c(bytes(b))); return public, t
    elif k == 8: c = bytearray(dsha(bytes(b))[:4]); c[r.randrange(4)] ^= 1 << r.randrange(8); return public, b58(bytes(b)+bytes(c))
    elif k == 9: return r.random() < .5, b58c(bytes(b))
    return public, b58c(bytes(b))
def c10(r, n):
    for i in range(0, len(RAREKEYS), 4):
        ops = []
        for k in RAREKEYS[i:i+4]: ops += [hd_new(r, 1, key=H(b32(k))), get(1), dict(op='hd_text', o=1), dict(op='hd_xpub', o=2, p=1), dict(op='hp_text', o=2)]
        yield ops
    for net in NETS:
        for ty in TYPES:
            ops = [hd_new(r, 1, net=net, type=ty), get(1), dict(op='hd_text', o=1), dict(op='hd_xpub', o=2, p=1), get(2), dict(op='hp_text', o=2)]
            yield ops
    for j in range(n//2):   # texts into buffers, public keys put together by hand, comparison
        p = rpoint(r); ops = [hd_new(r, 1), dict(op='hp_new', o=2, pt=P64(p), cc=H(rb(r, 32)), depth=r.randrange(256), fp=r.choice(['', H(rb(r, 4))]), child=le4(u32(r)), net=r.choice(NETS), type=r.choice(TYPES)), get(2), dict(op='hp_text', o=2)]
        for c in r.sample([200, 113, 112, 111, 110, 108, 100, 82, 77, 76, 50, 1, 0], 4): ops += [dict(op='hd_buf', o=1, cap=c), dict(op='hd_buf', o=2, cap=c)]
        k = rkey(r); ops += [hd_new(r, 3, key=H(b32(k))), hd_new(r, 4, key=H(b32(r.choice([k, N-k, rkey(r)])))), dict(op='hd_same', o=3, p=4), dict(op='hd_same', o=3, p=3), dict(op='hd_same', o=1, p=4)]
        yield ops
    for j in range(n):
        ops = []
        for _ in range(3):
            b = xbody(r); ops += [dict(op='hd_str', o=1, data=A(b58c(b)), via=r.choice(['ctor', 'str'])), get(1), dict(op='hd_text', o=1), dict(op='hd_xpub', o=2, p=1), dict(op='hp_text', o=2)]
            if b[4] < 255: ops.append(dict(op='hd_child', o=3, p=1, i=le4(ridx(r)), h=r.randrange(3)))
            b = xbody(r, True); ops += [dict(op='hp_str', o=4, data=A(b58c(b)), via=r.choice(['ctor', 'str'])), get(4), dict(op='hp_text', o=4)]
            if b[4] < 255: ops.append(dict(op='hp_child', o=5, p=4, i=le4(ridx(r))))
            p = r.random() < .5; b = xbody(r, p); k = 'hdpub' if p else 'hdprv'; c = r.randrange(79)
            ops += [new(6, k), feed(6, b[:c]), feed(6, b[c:]+rb(r, r.randrange(2))), get(6), dict(op='hp_text' if p else 'hd_text', o=6)]
        yield ops
    for j in range(n*2):
        ops = []
        for _ in range(6):
            p, t = xbad(r)
            if t and not b58_only(t): continue
            ops.append(dict(op='hp_str' if p else 'hd_str', o=1, data=A(t), via=r.choice(['ctor', 'str'])))
        yield ops
    for j in range(n//2):
        p, k = (True, 'hdpub') if j % 2 else (False, 'hdprv')
        b = mutate(r, xbody(r, p)); c = r.randrange(len(b)+1)
        yield [new(1, k), feed(1, b[:c]), feed(1, b[c:]), get(1)]
    # written out by one key, read by another
    for j in range(n//2):
        k, c = rkey(r), rb(r, 32); d, fp, ch, net, ty = r.randrange(256), rb(r, 4), rb(r, 4), r.choice(NETS), r.choice(TYPES)
        yield [dict(op='hd_new', o=1, key=H(b32(k)), cc=H(c), depth=d, fp=H(fp), child=H(ch), net=net, type=ty), get(1)]+[dict(op='ser', o=1, off=r.randrange(80), len=r.randrange(80), fmt=r.choice(['raw', 'hex', 'custom'])) for _ in range(5)] + \
              [dict(op='hd_xpub', o=2, p=1)]+[dict(op='ser', o=2, off=r.randrange(80), len=r.randrange(80), fmt=r.choice(['raw', 'hex', 'custom'])) for _ in range(5)]

# ---------------------------------------------------------------- mnemonics (C11)
def sentence(ent):
    n = len(ent); v = (int.from_bytes(ent, 'big') << (n//4)) | (sha(ent)[0] >> (8-n//4)); k = n*3//4
    return ' '.join(WORDS[v >> 11*(k-1-i) & 2047] for i in range(k))
def rent(r, n=None):
    n = n or r.choice([16, 20, 24, 28, 32]); return r.choice([rb(r, n), rb(r, n), rb(r, n), bytes(n), b'\xff'*n, b'\x80'*n, b'\x7f'*n, bytes(n-1)+b'\1'])
def badsent(r):
    w = sentence(rent(r)).split(' '); k = r.randrange(14); i = r.randrange(len(w))
    if k == 0: w[i] = r.choice(WORDS)
    elif k == 1: w[i] = r.choice(['abandonn', 'abando', 'zooo', 'xyz', '', 'Abandon', w[i]+'s', w[i][:-1], w[i].upper(), 'a', w[i]+w[i]])
    elif k == 2: w = w[:r.randrange(1, len(w))]
    elif k == 3: w += [r.choice(WORDS) for _ in range(r.choice([1, 2, 3, 12]))]
    elif k == 4: return '  '.join([' '.join(w[:i]), ' '.join(w[i:])])
    elif k == 5: return ' '+' '.join(w)
    elif k == 6: return ' '.join(w)+' '
    elif k == 7: w[i], w[i-1] = w[i-1], w[i]
    elif k == 8: return r.choice(['\t', '\n', ',', '-', '']).join(w)
    elif k == 9: return r.choice(['', ' ', 'abandon', ' '*11, ' '*23, 'a b c d e f g h i j k l'])
    elif k == 10: w = [r.choice(WORDS) for _ in range(r.choice([12, 15, 18, 21, 24, 3, 6, 9, 27]))]
    elif k == 11: w[-1] = r.choice(WORDS)
    elif k == 12: w[-1] = WORDS[(WORDS.index(w[-1]) ^ 1 << r.randrange(11)) % 2048]
    else: w[i] = 'x'*r.choice([8, 9, 10, 11, 20, 50, 300])
    return ' '.join(w)
def c11(r, n):
    for j in range(n):
        ops = []
        for _ in range(5):
            e = rent(r); ops += [dict(op='mn_gen', f='entropy', data=H(e), words=0), dict(op='mn_check', m=A(sentence(e)), cap=r.choice([32, 32, 33, 40, len(e), len(e)-1, 0]))]
        ops.append(dict(op='mn_gen', f='entropy', data=H(rb(r, r.choice([0, 1, 4, 12, 15, 17, 18, 30, 31, 33, 36, 40, 64]))), words=0))
        for f in ['gen', 'genstr', 'gen24', 'genstr24']:
            d = rb(r, r.choice([0, 1, 5, 32, 55, 56, 64, 100])).replace(b'\0', b'\1')
            ops.append(dict(op='mn_gen', f=f, data=H(d), words=r.choice([12, 15, 18, 21, 24, 12, 24, 0, 3, 9, 11, 13, 14, 23, 25, 27, 48, 255])))
        ops.append(dict(op='mn_gen', f='rand', data='', words=r.choice([12, 15, 18, 21, 24, 9, 13])))
        yield ops
    for j in range(n*2):
        ops = []
        for _ in range(8): ops.append(dict(op='mn_check', m=A(badsent(r)), cap=32))
        yield ops
    yield [dict(op='mn_check', m=A(' '.join(WORDS[i:i+12])), cap=32) for i in range(0, 2036, 40)]
    for i in range(0, 2048, 16*24):   # every word in turn
        ops = []
        for k in range(i, min(2048, i+16*24), 24):
            ws = (WORDS[k:k+24]+WORDS[:24])[:24]; v = 0
            for w in ws: v = v << 11 | WORDS.index(w)
            e = (v >> 8).to_bytes(32, 'big'); ops += [dict(op='mn_check', m=A(sentence(e)), cap=32), dict(op='mn_gen', f='entropy', data=H(e), words=0)]
        yield ops
    for j in range(max(8, n//4)):
        m = sentence(rent(r)) if r.random() < .8 else r.choice(['', 'not a valid sentence', 'x'*r.choice([127, 128, 129, 200])])
        p = r.choice(['', 'TREZOR', 'x', 'p'*r.choice([100, 119, 120, 121, 128, 200, 247, 248, 249]), 'pass word', '\xc3\xa9'])
        yield [dict(op='hd_mnemonic', o=1, m=A(m), **{'pass': A(p)}, net=r.choice(NETS), via=r.choice(['ctor', 'call', 'ctor4', 'cstr', 'str', 'again'])), get(1), dict(op='hd_text', o=1), dict(op='hd_path', o=2, p=1, path=A("m/84'/0'/0'/0/0")), dict(op='hd_text', o=2)]
