"""Scenario generators: text encodings, integers, hashes, descriptor checksums."""
import base64
from btc import *
from gen_tx import rb, H, le8, u64
A = lambda t: t.encode('latin-1').hex()
def rdata(r, big=True):
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 20, 21, 25, 31, 32, 33, 34, 64, 78, 82]+([100, 127, 128, 200, 255, 256, 257, 300] if big else []))
    b = rb(r, n); z = r.choice([0, 0, 0, 1, 2, 3, n])
    b = bytes(min(z, n))+b[min(z, n):]
    return r.choice([b, b, b, b'\xff'*n])
B43 = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:'
def b43(b):
    n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 43); s = B43[r]+s
    return '0'*(len(b)-len(b.lstrip(b'\0')))+s
def b64(b, fl):
    t = (base64.urlsafe_b64encode if fl & 2 else base64.b64encode)(b).decode()
    return t.rstrip('=') if fl & 1 else t
def text(f, b, fl):
    return dict(hex=lambda: b.hex(), bin=lambda: ''.join('%08d' % int(bin(x)[2:]) for x in b), b58=lambda: b58(b), b58c=lambda: b58c(b), b43=lambda: b43(b), b64=lambda: b64(b, fl))[f]()
ALPHA = dict(hex='0123456789abcdefABCDEF', bin='01', b58=B58, b58c=B58, b43=B43, b64='ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_=')
def caps(r, L): return r.choice([L, L, L+1, L+16, L+30, 2*L+40, max(0, L-1), 0, 1, L//2])
def c15(r, n):
    F = ['hex', 'bin', 'b58', 'b58c', 'b43', 'b64']
    for L in range(0, 34):   # every short length, with and without leading zeroes
        ops = []
        for f in F:
            b = rb(r, L)
            for x in (b, b'\0'+b[1:] if b else b, b'\xff'*L): 
                fl = r.randrange(4); t = text(f, x, fl)
                ops += [dict(op='enc', f=f, data=H(x), fl=fl, cap=len(t)+20), dict(op='dec', f=f, data=A(t), fl=fl, cap=L+8)]
        yield ops
    for j in range(n):
        ops = []
        for f in F:
            b = rdata(r, f != 'b58c' or r.random() < .3); fl = r.randrange(4); t = text(f, b, fl)
            ops.append(dict(op='enc', f=f, data=H(b), fl=fl, cap=caps(r, len(t))))
            ops.append(dict(op='dec', f=f, data=A(t), fl=fl, cap=caps(r, len(b))))
        yield ops
    for j in range(n*2):   # text outside the language
        ops = []
        for _ in range(10):
            f = r.choice(F); fl = r.randrange(4); b = rdata(r, False); t = list(text(f, b, fl)); k = r.randrange(8); i = r.randrange(len(t)+1)
            if k == 0: t[i:i] = [r.choice(' \t\n!"#%&0OIl,;<=>?@[]^`{|}~\x7f\x80\xff\x01')]
            elif k == 1 and t: t[i-1] = chr(r.getrandbits(8) or 1)
            elif k == 2: t = [r.choice(ALPHA[f]) for _ in range(r.randrange(0, 40))]
            elif k == 3: t = t[:i]
            elif k == 4: t = t+[r.choice('=10 =')]*r.randrange(1, 4)
            elif k == 5 and t: t[i-1] = r.choice(ALPHA[f])
            elif k == 6: t = list(text(f, b, (fl+r.randrange(1, 4)) % 4))
            elif k == 7: t = [r.choice('=zZ09aA1+/-_') for _ in range(r.randrange(0, 13))]
            t = ''.join(t)
            if f in ('b58', 'b43') and any(c not in ALPHA[f] for c in t): pass
            ops.append(dict(op='dec', f=f, data=A(t), fl=fl, cap=r.choice([100, 100, len(b), max(0, len(b)-1)])))
        yield ops
    for j in range(n//2):
        ops = []
        for _ in range(4):
            b = rdata(r, False); fl = r.randrange(4)
            ops += [dict(op='b64hex', f='h2b', data=A(b.hex()), fl=fl), dict(op='b64hex', f='b2h', data=A(b64(b, fl)), fl=fl)]
        yield ops
    for L in [500, 1000, 3000]:
        b = rb(r, L)
        yield [dict(op='enc', f=f, data=H(b), fl=1, cap=9*L) for f in ['hex', 'bin', 'b64', 'b43', 'b58']]+[dict(op='dec', f=f, data=A(text(f, b, 1)), fl=1, cap=L+4) for f in ['hex', 'bin', 'b64', 'b43', 'b58']]
EDGE = [0, 1, 2, 251, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 2**24-1, 2**24, 2**31-1, 2**31, 2**32-2, 2**32-1, 2**32, 2**32+1, 2**40, 2**48, 2**53, 2**56-1, 2**63-1, 2**63, 2**64-2, 2**64-1]
def c24(r, n):
    for part in range(0, len(EDGE), 5):
        ops = []
        for v in EDGE[part:part+5]:
            for w in range(0, 10): ops.append(dict(op='ints', w=w, v=le8(v)))
            for cap in (0, 1, 2, 3, 4, 5, 8, 9, 10): ops.append(dict(op='varint', v=le8(v), cap=cap))
            e = var(v)
            for k in range(len(e)+1): ops.append(dict(op='rvarint', data=H(e[:k])))
            ops.append(dict(op='rvarint', data=H(e+rb(r, 3))))
        yield ops
    yield [dict(op='varint', v=le8(v), cap=9) for v in range(0, 300)]
    for j in range(n):
        ops = []
        for _ in range(10):
            v = r.choice([u64(r), r.getrandbits(r.randrange(1, 65)), 1 << r.randrange(64), (1 << r.randrange(64))-1, int.from_bytes(bytes(r.choice([0, 0x7f, 0x80, 0xff, 1]) for _ in range(8)), 'big')])
            ops += [dict(op='ints', w=r.randrange(0, 13), v=le8(v)), dict(op='varint', v=le8(v), cap=r.choice([9, 9, 10, 0, 1, 2, 3, 4, 5, 8])), dict(op='rvarint', data=H(r.choice([var(v), rb(r, r.randrange(0, 11)), bytes([r.choice([252, 253, 254, 255])])+rb(r, r.randrange(0, 10))])))]
        yield ops
HF = ['sha256', 'sha512', 'rmd160', 'hash160', 'dsha', 'hmac256', 'hmac512', 'tagged']
BLK = dict(sha512=128, hmac512=128)
def mlen(r, f):
    b = BLK.get(f, 64); return r.choice([0, 1, 2, b-17, b-16, b-9, b-8, b-7, b-1, b, b+1, 2*b-9, 2*b-8, 2*b-17, 2*b-1, 2*b, 2*b+1, 3*b, r.randrange(0, 3*b), r.randrange(0, 600)])
def rkeyb(r, f):
    if f == 'tagged': return bytes(r.choice(b'abcXYZ0123/_- ') for _ in range(r.choice([0, 1, 5, 13, 17, 55, 64, 100])))
    b = BLK.get(f, 64); return rb(r, r.choice([0, 1, 20, 32, b-1, b, b+1, 2*b, 131, 200])) if f.startswith('hmac') else b''
def writes(r, o, f, m, style):
    ops = []; i = 0; b = BLK.get(f, 64)
    while i < len(m) or style == 3:
        if style == 0: k = 1
        elif style == 1: k = r.choice([1, 2, 3, 7, b-1, b, b+1, 2*b])
        elif style == 2: k = r.randrange(0, 2*b)
        else:
            k = len(m)-i; style = 2
        if k == 1 and r.random() < .5 and i < len(m): ops.append(dict(op='h_byte', o=o, f=f, data=H(m[i:i+1])))
        else: ops.append(dict(op='h_write', o=o, f=f, data=H(m[i:i+k])))
        i += k
        if len(ops) > 400: break
    return ops if i >= len(m) else ops+[dict(op='h_write', o=o, f=f, data=H(m[i:]))]
def c18(r, n):
    for f in HF:
        b = BLK.get(f, 64)
        for L in [0, 1, b-9, b-8, b-1, b, b+1, 2*b-9, 2*b-8, 2*b, b-17, b-16]:   # every two-part split around the block boundaries
            m = rb(r, L); key = rkeyb(r, f); ops = [dict(op='hash', f=f, data=H(m), key=H(key), via='bytes')]
            for c in sorted(set([0, 1, L//2, L, max(0, L-1)]+[x for x in (b-1, b, b+1, b-8) if x <= L])):
                ops += [dict(op='h_new', o=1, f=f, key=H(key)), dict(op='h_write', o=1, f=f, data=H(m[:c])), dict(op='h_write', o=1, f=f, data=H(m[c:])), dict(op='h_end', o=1, f=f)]
            yield ops
    for j in range(n):
        f = HF[j % len(HF)]; m = rb(r, mlen(r, f)); key = rkeyb(r, f)
        via = r.choice(['bytes', 'char', 'str']) if not f.startswith('hmac') else 'bytes'
        ops = [dict(op='hash', f=f, data=H(m), key=H(key), via=via), dict(op='h_new', o=1, f=f, key=H(key))]
        if r.random() < .3: ops += writes(r, 1, f, rb(r, r.randrange(1, 200)), 1)+([dict(op='h_begin', o=1, f=f, key=H(key))] if f != 'tagged' else [dict(op='h_new', o=1, f=f, key=H(key))])
        ops += writes(r, 1, f, m, r.randrange(4))+[dict(op='h_end', o=1, f=f)]
        if f != 'tagged':   # the same object again, with another message and key
            for _ in range(r.randrange(3)):
                m2 = rb(r, mlen(r, f)); k2 = rkeyb(r, f)
                ops += [dict(op='h_begin', o=1, f=f, key=H(k2))]+writes(r, 1, f, m2, r.randrange(4))+[dict(op='h_end', o=1, f=f)]
        yield ops
    for j in range(n//4):   # two objects in turns, and switching between plain and keyed
        f, g = r.choice(HF), r.choice(HF); kf, kg = rkeyb(r, f), rkeyb(r, g); a, b = rb(r, mlen(r, f)), rb(r, mlen(r, g))
        x, y = writes(r, 1, f, a, 1), writes(r, 2, g, b, 1); ops = [dict(op='h_new', o=1, f=f, key=H(kf)), dict(op='h_new', o=2, f=g, key=H(kg))]
        while x or y:
            if x and (not y or r.random() < .5): ops.append(x.pop(0))
            elif y: ops.append(y.pop(0))
        ops += [dict(op='h_end', o=2, f=g), dict(op='h_end', o=1, f=f)]
        p, q = r.choice([('sha256', 'hmac256'), ('sha512', 'hmac512')])
        if r.random() < .5: p, q = q, p
        ops += [dict(op='h_new', o=3, f=p, key=H(rkeyb(r, p)))]+writes(r, 3, p, rb(r, 70), 1)+[dict(op='h_end', o=3, f=p), dict(op='h_begin', o=3, f=q, key=H(rkeyb(r, q)))]+writes(r, 3, q, rb(r, 100), 1)+[dict(op='h_end', o=3, f=q)]
        yield ops
    for f in HF:
        yield [dict(op='hash', f=f, data=H(rb(r, L)), key=H(rkeyb(r, f)), via='bytes') for L in (5000, 20000)]
    # long messages: lengths where a counter of bytes or bits gets longer
    F = [f for f in HF if f != 'tagged']
    def rep(f, total): b = rb(r, r.choice([1, 3, 64, 100])); return dict(op='hrep', f=f, key=H(rkeyb(r, f)), data=H(b), times=total//len(b), tail=H(rb(r, total % len(b)+r.randrange(2))))
    for f in F: yield [rep(f, t+r.randrange(-1, 70)) for t in (1 << 13, 1 << 16, 1 << 17, 1 << 21, 1 << 24)]
    for f in (['rmd160', 'sha256', 'sha512'] if n < 1000 else F): yield [rep(f, (1 << 29)+r.randrange(200))]
    if n >= 1000:
        for f in ['rmd160', 'sha256']: yield [dict(op='hrep', f=f, key='', data=H(rb(r, 128)), times=(1 << 25)+3, tail='01')]
DCH = '0123456789()[],\'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#"\\ '
def c22(r, n):
    for L in range(0, 40): yield [dict(op='desc', data=A(''.join(r.choice(DCH) for _ in range(L))), cap=9)]
    for t in ('\0', 'a\0', '\0a', 'pk(\0)', 'wpkh(abc\0)', 'ab\0\0'): yield [dict(op='desc', data=A(t), cap=9)]
    for c in range(1, 256):
        if c % 16 == 1: ops = []
        ops.append(dict(op='desc', data=A(chr(c)), cap=9)); ops.append(dict(op='desc', data=A('pk('+chr(c)+')'), cap=9))
        if c % 16 == 0 or c == 255: yield ops
    for j in range(n):
        ops = []
        for _ in range(4):
            t = ''.join(r.choice(DCH) for _ in range(r.choice([1, 2, 3, 5, 20, 60, 64, 111, 150, 300])))
            if r.random() < .4: t = r.choice(['wpkh([%s/84h/0h/0h]%s/0/*)', 'sh(wsh(sortedmulti(2,[%s]%s)))', 'tr(%s,%s)']) % (rb(r, 4).hex(), ''.join(r.choice(B58) for _ in range(111)))
            if r.random() < .2: i = r.randrange(len(t)+1); t = t[:i]+chr(r.choice([0, 1, 9, 10, 31, 127, 128, 200, 255]))+t[i:]
            ops.append(dict(op='desc', data=A(t), cap=r.choice([9, 9, 20, 8, 7, 1, 0])))
        yield ops
