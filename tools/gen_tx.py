"""Scenario generators: transactions, scripts, streaming, windows, malformed data, life cycle."""
import struct, json, os
from btc import *
RARE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rare.json')))   # see mkrare.py
RAREKEYS = [int(x, 16) for k in ('x1', 'x2', 'y1', 'y2', 'h1', 'ff') for x in RARE[k]]
H = lambda b: b.hex()
LENS = [0, 1, 2, 20, 22, 23, 25, 34, 75, 76, 77, 107, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 520]
def rb(r, n): return bytes(r.getrandbits(8) for _ in range(n)) if n < 600 else r.randbytes(n)
def u32(r): return r.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xfffffffd, 0xfffffffe, 0xffffffff, r.getrandbits(32), r.getrandbits(32)])
def u64(r): return r.choice([0, 1, 255, 256, 546, 2**31-1, 2**31, 2**32-1, 2**32, 2**32+1, 21*10**14, 2**53+1, 2**63-1, 2**63, 2**64-1, r.getrandbits(64), r.getrandbits(64)])
def slen(r, big=0.0):
    if r.random() < big: return r.choice([65534, 65535, 65536, 65537, 70000])
    return r.choice(LENS) if r.random() < .6 else r.randrange(0, 60)
def rscript(r, big=0.0):
    k = r.randrange(8)
    if k == 0: return b'\x76\xa9\x14'+rb(r, 20)+b'\x88\xac'
    if k == 1: return b'\xa9\x14'+rb(r, 20)+b'\x87'
    if k == 2: return b'\0\x14'+rb(r, 20)
    if k == 3: return b'\0\x20'+rb(r, 32)
    return rb(r, slen(r, big))
def rwit(r, big=0.0):
    k = r.randrange(6)
    if k <= 1: return []
    if k == 2: return [rb(r, 71), rb(r, 33)]
    if k == 3: return [b'']*r.randrange(1, 4)
    return [rb(r, slen(r, big)) for _ in range(r.choice([1, 1, 2, 3, 4, 5]))]
def rtx(r, nin=None, nout=None, segwit=None, big=0.0):
    nin = nin if nin is not None else r.choice([1, 1, 1, 2, 2, 3, 4, 7])
    nout = nout if nout is not None else r.choice([0, 1, 1, 2, 2, 3, 5])
    segwit = segwit if segwit is not None else r.random() < .5
    small = nin+nout > 20
    sc = lambda: rb(r, r.randrange(0, 3)) if small else rscript(r, big)
    ins = [(rb(r, 32), u32(r), b'' if r.random() < .3 else sc(), u32(r), ((([rb(r, r.randrange(3))] if r.random() < .3 else []) if small else rwit(r, big)) if segwit else [])) for _ in range(nin)]
    if segwit and not any(i[4] for i in ins):
        k = r.randrange(nin); ins[k] = ins[k][:4]+([rb(r, 5)],)
    return T(u32(r), ins, [(u64(r), sc()) for _ in range(nout)], u32(r))
FMTS = ['raw', 'raw', 'raw', 'hex', 'HEX', 'hexs', 'custom']
def cut(r, b, n):
    ps = sorted(r.randrange(0, len(b)+1) for _ in range(n))
    return [b[i:j] for i, j in zip([0]+ps, ps+[len(b)])]
def feed(o, b, fmt='raw'): return dict(op='feed', o=o, fmt=fmt, data=H(b))
def le4(x): return struct.pack('<I', x).hex()
def le8(x): return struct.pack('<Q', x).hex()

def build_ops(r, t, o=1, base=10):
    """build transaction t through the API as object o"""
    ops = [dict(op='new', o=o, k='tx')]; n = base
    order = [('i', i) for i in t.ins]+[('o', x) for x in t.outs]
    for kind, x in order:
        if kind == 'i':
            h, idx, script, seq, w = x
            c = r.choice(['bytes_script', 'hex_script']) if script else r.choice(['bytes', 'hex', 'bytes_script', 'hex_script'])
            ops.append(dict(op='ti_new', o=n, ctor=c, id=H(h[::-1]), idx=le4(idx), script=H(script), seq=le4(seq)))
            if w:
                ops.append(dict(op='new', o=n+1, k='witness'))
                ops += [dict(op='w_data', o=n+1, data=H(x)) for x in w]
                ops.append(dict(op='ti_wit', o=n, p=n+1))
            if r.random() < .2: ops.append(dict(op='get', o=n))
            ops.append(dict(op='tx_in', o=o, p=n))
            if r.random() < .5: ops.append(dict(op='del', o=n))
            n += 2
        else:
            ops.append(dict(op='to_new', o=n, amt=le8(x[0]), script=H(x[1]), rev=r.randrange(2)))
            if r.random() < .2: ops.append(dict(op='get', o=n))
            ops.append(dict(op='tx_out', o=o, p=n))
            n += 1
    ops.append(dict(op='tx_set', o=o, ver=le4(t.ver), lock=le4(t.lock)))
    return ops

def c01(r, n):
    def one(t, mode):
        b = t.enc()
        if mode == 0:
            return [dict(op='new', o=1, k='tx'), feed(1, b, r.choice(FMTS)), dict(op='get', o=1), dict(op='str', o=1)]
        if mode == 1:
            return build_ops(r, t)+[dict(op='get', o=1)]
        x = build_ops(r, t)+[dict(op='get', o=1), dict(op='new', o=2, k='tx'), feed(2, b+rb(r, r.randrange(3)), 'raw'), dict(op='get', o=2)]
        if t.ins:   # then change a witness and a script of the parsed transaction: ids must follow
            k = r.randrange(len(t.ins))
            x += [dict(op='new', o=3, k='witness'), dict(op='w_data', o=3, data=H(rb(r, 3))), dict(op='tx_wit', o=2, i=k, p=3), dict(op='get', o=2),
                  dict(op='s_from', o=4, data=H(rb(r, 4))), dict(op='tx_ssig', o=2, i=k, p=4), dict(op='get', o=2),
                  dict(op='new', o=5, k='witness'), dict(op='tx_wit', o=2, i=k, p=5), dict(op='get', o=2)]
        return x
    for nin, nout, sw in [(1, 0, 0), (1, 0, 1), (252, 1, 0), (1, 252, 0), (252, 252, 1), (251, 2, 1), (3, 251, 0), (128, 3, 1), (16, 17, 1), (100, 100, 0)]:
        yield one(rtx(r, nin, nout, bool(sw)), 0)
    yield one(rtx(r, 252, 1, True), 1)
    yield one(rtx(r, 1, 252, False), 1)
    for L in [252, 253, 254, 255, 256, 65535, 65536]:
        s = rb(r, L)
        yield one(T(2, [(rb(r, 32), 1, s, 2, [s, b''])], [(5, s)], 7), 0)
    for k in range(n):
        yield one(rtx(r, big=0.01 if k % 3 == 0 else 0), k % 3)
    for k in range(n//6):   # parts on their own
        t = rtx(r); i = r.choice(t.ins)
        yield [dict(op='new', o=1, k='txin'), feed(1, txin(*i[:4]), r.choice(FMTS)), dict(op='get', o=1),
               dict(op='new', o=2, k='witness'), feed(2, wit(i[4]), r.choice(FMTS)), dict(op='get', o=2)] + \
              ([dict(op='new', o=3, k='txout'), feed(3, txout(*t.outs[0]), r.choice(FMTS)), dict(op='get', o=3),
                dict(op='new', o=4, k='script'), feed(4, vb(t.outs[0][1]), r.choice(FMTS)), dict(op='get', o=4)] if t.outs else [])

# ---------------------------------------------------------------- streaming (C02), windows (C03), malformed (C04)
def g_script(r, big=0.0): return vb(rscript(r, big))
def g_witness(r): return wit(rwit(r))
def g_txin(r): return txin(rb(r, 32), u32(r), rscript(r), u32(r))
def g_txout(r): return txout(u64(r), rscript(r))
def g_tx(r): return rtx(r, nin=r.choice([1, 1, 2, 3]), nout=r.choice([0, 1, 2])).enc()
KINDS = dict(script=g_script, witness=g_witness, txin=g_txin, txout=g_txout, tx=g_tx)
SMALL = dict(   # short encodings of each kind, for exhaustive splits
    script=lambda r: r.choice([b'\0', b'\1a', b'\3abc', vb(rb(r, 253)), vb(rb(r, 256))]),
    witness=lambda r: r.choice([b'\0', b'\1\0', wit([b'a', b'', b'bc']), wit([rb(r, 71), rb(r, 33)]), wit([rb(r, 253)]), wit([b'', rb(r, 300), b'x'])]),
    txin=lambda r: txin(rb(r, 32), u32(r), rb(r, r.choice([0, 1, 3, 253])), u32(r)),
    txout=lambda r: txout(u64(r), rb(r, r.choice([0, 1, 22, 253]))),
    tx=lambda r: T(u32(r), [(rb(r, 32), u32(r), rb(r, r.choice([0, 2])), u32(r), r.choice([[], [b'x'], [b'', b'ab'], [b'']])) for _ in range(r.choice([1, 2]))],
                   [(u64(r), rb(r, 3)) for _ in range(r.choice([0, 1, 2]))], u32(r)).enc())
def small(r, k): return SMALL[k](r) if k in SMALL else KINDS[k](r)
def new(o, k): return dict(op='new', o=o, k=k)
def get(o): return dict(op='get', o=o)
def mutate(r, b):
    b = bytearray(b); k = r.randrange(7)
    if not b: return bytes([r.getrandbits(8)])
    i = r.randrange(len(b))
    if k == 0: b[i] ^= 1 << r.randrange(8)
    elif k == 1: b[i] = r.choice([0, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff])
    elif k == 2: del b[i:]
    elif k == 3: b[i:i] = rb(r, r.randrange(1, 4))
    elif k == 4: del b[i:i+r.randrange(1, 4)]
    elif k == 5: i = r.randrange(min(len(b), 8)); b[i] = r.choice([0, 1, 2, 3, 4, 0xfd, 0xfe, 0xff, r.getrandbits(8)])
    else: b += rb(r, r.randrange(1, 9))
    return bytes(b)

def long_cuts(r):
    """encodings with lengths of several bytes, cut in and around every such length"""
    big = lambda: rb(r, r.choice([253, 254, 255, 256, 257, 258, 300, 509, 510, 512, 513, 515, 600]))
    some = lambda: r.choice([b'', b'a', rb(r, 33), rb(r, 71)])
    items = lambda: r.choice([[big()], [some(), big()], [big(), some()], [big(), big()], [some(), big(), some(), big()]])
    def mk(k):
        if k == 'script': return vb(big())
        if k == 'witness': return wit(items())
        if k == 'txin': return txin(rb(r, 32), u32(r), big(), u32(r))
        if k == 'txout': return txout(u64(r), big())
        return T(u32(r), [(rb(r, 32), u32(r), r.choice([b'', b'ab', big()]), u32(r), r.choice([[], items(), items()])) for _ in range(r.choice([1, 2, 2, 3]))],
                 [(u64(r), r.choice([rb(r, 22), big()])) for _ in range(r.choice([1, 2]))], u32(r)).enc()
    for k in ('witness', 'script', 'txin', 'txout', 'tx', 'tx', 'witness'):
        for _ in range(3):
            b = mk(k); at = [i for i in range(len(b)-3) if b[i] == 0xfd and 253 <= b[i+1]+256*b[i+2] <= 600 and i+3+b[i+1]+256*b[i+2] <= len(b)]
            ops = []
            for i in at[:5]:
                for c in ([i+1], [i+2], [i+3], [i, i+1], [i+1, i+2], [i, i+3], [i+2, i+3, i+4], [i+1, i+1, i+2, i+2, i+3]):
                    if r.random() < .25: c = sorted(set(c+[i+3+b[i+1]+256*b[i+2]]))
                    c = [0]+c+[len(b)]; ops += [new(1, k)]+[feed(1, b[x:y], r.choice(FMTS)) for x, y in zip(c, c[1:])]+[get(1)]
            j = 0
            while j < len(ops):
                e = j+1; m = 0
                while e < len(ops) and (ops[e]['op'] != 'new' or m < 5): m += ops[e]['op'] == 'new'; e += 1
                yield ops[j:e]; j = e
def c02(r, n):
    ks = list(KINDS)
    yield from long_cuts(r)
    # every two-piece split of short encodings
    for k in ks:
        for _ in range(3):
            b = small(r, k); pos = list(range(len(b)+1))
            if len(pos) > 90: pos = sorted(set(pos[:14]+pos[-6:]+r.sample(pos, 50)))
            for part in range(0, len(pos), 16):
                ops = []
                for p in pos[part:part+16]:
                    ops += [new(1, k), feed(1, b[:p], r.choice(FMTS)), feed(1, b[p:]+rb(r, r.randrange(2)), r.choice(FMTS)), get(1)]
                yield ops
        # one byte at a time, with empty pieces in between
        for _ in range(2):
            b = small(r, k); ops = [new(1, k)]
            if len(b) > 160: b = KINDS[k](r)[:220]
            for i in range(len(b)):
                if r.random() < .12: ops.append(feed(1, b'', r.choice(['raw', 'hex', 'custom'])))
                ops.append(feed(1, b[i:i+1], r.choice(FMTS)))
            yield ops+[get(1)]
        if k not in ('prv', 'hdprv', 'hdpub', 'psbt', 'etx'):
            b = small(r, k); yield [new(1, k), feed(1, b), dict(op='txt', o=1), get(1)]
        # an empty piece on a new object, and after completion
        b = small(r, k)
        yield [new(1, k), feed(1, b'', 'raw'), feed(1, b, 'raw'), get(1), feed(1, b'', 'hex'), feed(1, small(r, k), 'hex'), get(1)]
    for j in range(n//2):   # reading bytes from a stream one by one or in bulk, raw and as text
        ops = []
        for _ in range(6):
            b = rb(r, r.choice([0, 1, 2, 3, 10, 30])); via = r.choice(['raw', 'hex', 'cstr', 'rawcstr', 'null'])
            if via in ('hex', 'cstr'):
                t = bytearray(b.hex().encode())
                if r.random() < .3: t = bytearray(t.upper())
                if r.random() < .3: t += r.choice([b'1', b'f', b'z', b'zz'])
                if t and r.random() < .25: t[r.randrange(len(t))] = r.choice(b'gz G/:@`x')
                b = bytes(t)
            if via == 'rawcstr': b = b.replace(b'\0', b'\1')
            ops.append(dict(op='bs_read', via=via, data=H(b), plan=','.join(str(r.choice([0, 0, 1, 2, 3, 5, 40])) for _ in range(r.randrange(1, 9)))))
        yield ops
    for j in range(n):
        k = ks[j % len(ks)]
        b = KINDS[k](r)
        if r.random() < .25: b = mutate(r, b)
        ops = [new(1, k)]
        for piece in cut(r, b+rb(r, r.choice([0, 0, 1, 3])), r.choice([0, 1, 2, 3, 5, 9])): ops.append(feed(1, piece, r.choice(FMTS)))
        ops.append(get(1))
        # the same object again
        if r.random() < .6:
            c = KINDS[k](r); m = r.randrange(3)
            if m == 0:   # straight after whatever happened
                ops.append(dict(op='reset', o=1))
            elif m == 1:   # interrupted, then reset
                ops += [dict(op='reset', o=1), feed(1, c[:r.randrange(len(c))], r.choice(FMTS)), dict(op='reset', o=1)]
                c = KINDS[k](r)
            for piece in cut(r, c, r.choice([0, 1, 3])): ops.append(feed(1, piece, r.choice(FMTS)))
            ops.append(get(1))
        # two objects of the same kind fed in turns
        if r.random() < .35:
            x, y = KINDS[k](r), KINDS[k](r); cx, cy = cut(r, x, 2), cut(r, y, 2)
            ops += [new(2, k), new(3, k)]
            for p, q in zip(cx, cy): ops += [feed(2, p, r.choice(FMTS)), feed(3, q, r.choice(FMTS))]
            ops += [get(2), get(3)]
        yield ops

def windows(r, o, size, cnt):
    for _ in range(cnt):
        off = r.choice([0, 0, 1, max(0, size-1), size, size+1, size+7, r.randrange(size+1), r.randrange(size+1), r.randrange(size+1), r.randrange(size+1)])
        ln = r.choice([0, 1, 2, 3, 4, 5, 8, max(0, size-off), max(0, size-off-1), size+5, r.randrange(size+3)])
        yield dict(op='ser', o=o, off=off, len=ln, fmt=r.choice(['raw', 'raw', 'hex', 'custom', 'str']))
def c03(r, n):
    ks = list(KINDS)
    for k in ks:   # every offset of short encodings
        for rep in range(2):
            b = small(r, k); offs = list(range(len(b)+2))
            if len(offs) > 130: offs = offs[:60]+offs[-40:]
            ops = [new(1, k), feed(1, b)]
            for off in offs:
                ops.append(dict(op='ser', o=1, off=off, len=r.choice([1, 1, 2, 3, 5, 9, len(b)]), fmt=['raw', 'custom', 'hex'][(off+rep) % 3]))
            ops.append(get(1)); yield ops
        if k not in ('prv', 'hdprv', 'hdpub', 'psbt', 'etx'): yield [new(1, k), feed(1, b), dict(op='txt', o=1)]
    for k in ks:   # far beyond the end
        b = small(r, k); fs = ['raw', 'hex', 'custom', 'str']
        yield [new(1, k), feed(1, b)]+[dict(op='ser', o=1, off=o+d, len=r.choice([1, 3, len(b)]), fmt=r.choice(fs)) for o in (256, 512, 65536, 131072, 2**24, 2**30) for d in (0, r.randrange(len(b)+1), max(0, len(b)-1), len(b))]
    for k in ('script', 'witness', 'txin', 'txout', 'tx'):   # around the sizes where a narrower counter would wrap
        L = r.choice([65500, 65530, 65533, 65536, 65540, 66000]); x = rb(r, L)
        b = dict(script=vb(x), witness=wit([b'a', x, b'b']), txin=txin(rb(r, 32), 1, x, 2), txout=txout(3, x), tx=T(1, [(rb(r, 32), 1, b'', 2, r.choice([[], [x]])), (rb(r, 32), 1, b'', 2, [])], [(7, x), (5, b'abc')], 9).enc())[k]
        yield [new(1, k), feed(1, b)]+[dict(op='ser', o=1, off=o, len=r.choice([1, 2, 5, 30]), fmt=r.choice(['raw', 'custom'])) for o in (0, 254, 65530, 65535, 65536, 65537, 65540, max(0, len(b)-20), len(b)-1, len(b))]+[dict(op='ser', o=1, off=o, len=len(b), fmt='raw') for o in (1, 65536)]
    for j in range(n//2):
        yield [dict(op='bs_write', via=r.choice(['raw', 'hex', 'char']), cap=r.choice([0, 1, 2, 3, 4, 5, 10, 11, 20, 60]), plan=','.join(r.choice(['=', ''])+H(rb(r, 1)) if r.random() < .5 else H(rb(r, r.choice([1, 2, 3, 8]))) for _ in range(r.randrange(1, 8)))) for _ in range(6)]
    for j in range(n):
        k = ks[j % len(ks)]; b = KINDS[k](r)
        ops = [new(1, k), feed(1, b), get(1)]+list(windows(r, 1, len(b), 12))
        step = r.choice([1, 2, 3, 7, 31, 64]); off = 0
        if len(b)//step < 70:
            while off < len(b): ops.append(dict(op='ser', o=1, off=off, len=step, fmt=r.choice(['raw', 'custom']))); off += step
        yield ops
    for nin, nout in [(253, 1), (1, 253)]:   # counts that need a longer prefix: built through the API
        t = rtx(r, nin, nout, False)
        yield build_ops(r, t)+[get(1)]+list(windows(r, 1, len(t.enc()), 10))+[dict(op='ser', o=1, off=o, len=r.choice([1, 2, 3]), fmt='raw') for o in range(3, 9)]

def rawjunk(r):
    k = r.randrange(5)
    if k == 0: return rb(r, r.randrange(0, 80))
    if k == 1: return bytes(r.choice([0, 1, 2, 3, 4, 0x30, 0xfd, 0xfe, 0xff]) for _ in range(r.randrange(0, 60)))
    if k == 2: return bytes([r.choice([0xfd, 0xfe, 0xff])])+rb(r, r.randrange(0, 12))
    if k == 3: return b'\1'+bytes([r.choice([0xfd, 0xfe, 0xff])])+bytes(r.choice([0, 0, 1, 0xff, 0x80]) for _ in range(r.randrange(0, 12)))
    return b'\x70psbt'[1:]+b'\xff'+rb(r, r.randrange(0, 50))
def c04_stream(r, n):
    ks = list(KINDS)
    for k in ks:   # every proper prefix, then use the unfinished object in every way
        b = small(r, k)
        for p in (list(range(len(b))) if len(b) < 60 else r.sample(range(len(b)), 25)+[len(b)-1]):
            yield [new(1, k), feed(1, b[:p], 'raw'), dict(op='copy', o=2, p=1), new(3, k), dict(op='assign', o=3, p=1), dict(op='use', o=2), dict(op='use', o=1),
                   dict(op='del', o=2), dict(op='reset', o=1), feed(1, b, 'raw'), get(1), dict(op='assign', o=3, p=1), get(3)]
    for L in ['fdfc00', 'fd0000', 'fe00000000', 'feffff0000', 'ff0000000000000000', 'ffffffff0000000000', 'fdfd', 'fe00', 'ffff', 'feffffffff', 'ffffffffffffffffff', 'fe00000080', 'ffffffffffffffff7f', 'fefffffffe', 'fffeffffffffffffff']:
        for k, pre in [('script', b''), ('witness', b''), ('tx', b'\1\0\0\0'), ('tx', b'\1\0\0\0\0\1'), ('tx', b'\1\0\0\0\1'+b'\1'*36+b'\0'+b'\2'*4), ('tx', b'\1\0\0\0\0\1\1'+b'\1'*36+b'\0'+b'\2'*4+b'\0'), ('witness', b'\1'), ('witness', b'\2\1a'), ('txin', b'\1'*36), ('txout', b'\2'*8), ('tx', b'\1\0\0\0\1'+b'\1'*36), ('tx', b'\1\0\0\0\0\1\1'+b'\1'*36+b'\0'+b'\2'*4+b'\0\1')]:
            b = pre+bytes.fromhex(L)+rb(r, r.choice([0, 3, 300]))
            yield [new(1, k), feed(1, b, 'raw'), dict(op='use', o=1), dict(op='copy', o=2, p=1), dict(op='use', o=2), dict(op='del', o=2), dict(op='reset', o=1), feed(1, small(r, k), 'raw'), get(1)]
    for k in ks:   # one bit wrong, in every structural byte
        b = small(r, k); at = set(range(min(7, len(b)))) | set(r.sample(range(len(b)), min(len(b), 6))) | {len(b)-1}
        if k == 'sig': at |= {4+b[3], 5+b[3]}
        if k in ('hdprv', 'hdpub'): at |= {45}
        for p in sorted(x for x in at if x < len(b)):
            ops = [new(1, k)]
            for bit in range(8): ops += [feed(1, b[:p]+bytes([b[p] ^ (1 << bit)])+b[p+1:], 'raw'), get(1), dict(op='reset', o=1)]
            yield ops+[feed(1, b, 'raw'), get(1)]
    # what a one-byte reading of a long count would make of the bytes: 253, 254 or 255 elements that are really there
    i41, o9 = b'\3'*36+b'\0'+b'\4'*4, b'\5'*8+b'\0'
    for c in (253, 254, 255):
        q = bytes([c])
        for k, b in [('tx', b'\1\0\0\0'+q+i41*c+b'\1'+o9+b'\0'*4), ('tx', b'\1\0\0\0\1'+i41+q+o9*c+b'\0'*4), ('tx', b'\1\0\0\0\0\1'+q+i41*c+b'\1'+o9+b'\0'*c+b'\0'*4),
                     ('tx', b'\1\0\0\0\0\1\1'+i41+b'\1'+o9+q+b'\0'*c+b'\0'*4), ('witness', q+b'\0'*c), ('script', q+b'Q'*c), ('witness', b'\1'+q+b'Q'*c)]:
            yield [new(1, k), feed(1, b, r.choice(['raw', 'hex'])), dict(op='use', o=1), dict(op='reset', o=1), feed(1, small(r, k), 'raw'), get(1)]
    for j in range(n):
        k = ks[j % len(ks)]; b = KINDS[k](r) if r.random() < .75 else rawjunk(r)
        for _ in range(r.choice([1, 1, 2, 3])): b = mutate(r, b)
        ops = [new(1, k)]
        if r.random() < .15:   # text that is not hex
            t = bytearray(b.hex().encode()); t = t or bytearray(b'zz'); t[r.randrange(len(t))] = r.choice(b'gz \x00-"G/:@`\xff')
            ops.append(dict(op='feedtext', o=1, data=H(bytes(t))))
        else:
            for piece in cut(r, b, r.choice([0, 0, 1, 2])): ops.append(feed(1, piece, r.choice(FMTS)))
        ops += [get(1), dict(op='use', o=1), dict(op='copy', o=2, p=1), dict(op='use', o=2)]
        if r.random() < .5: ops += [new(3, k), feed(3, KINDS[k](r)), dict(op='assign', o=3, p=1), dict(op='use', o=3)]
        ops += [dict(op='reset', o=1), feed(1, KINDS[k](r)), get(1)]
        if r.random() < .5: ops += [dict(op='assign', o=2, p=1), get(2)]
        yield ops

# ---------------------------------------------------------------- signature hashes (C05)
def rkey(r): return r.choice(RAREKEYS) if r.random() < .2 else r.choice([1, 2, 3, N-1, N-2, N//2, N//2+1, r.randrange(1, N), r.randrange(1, N), r.randrange(1, N), r.randrange(1, 2**32)])
def rcode(r): return rb(r, r.choice([0, 1, 25, 71, 75, 76, 105, 252, 253, 255, 256, 520, 600])) if r.random() < .5 else rscript(r)
def c05(r, n):
    for j in range(n):
        t = rtx(r) if r.random() < .97 else rtx(r, r.choice([100, 252]), r.choice([1, 120]))
        ops = [new(1, 'tx'), feed(1, t.enc())] if j % 2 else build_ops(r, t)
        ops.append(dict(op='tx_hashes', o=1))
        for i in (range(len(t.ins)) if len(t.ins) < 6 else [0, len(t.ins)-1, r.randrange(len(t.ins))]):
            c = rcode(r)
            ops += [dict(op='tx_sighash', o=1, alg='legacy', i=i, script=H(c), amt=le8(0)),
                    dict(op='tx_sighash', o=1, alg='segwit', i=i, script=H(rcode(r)), amt=le8(u64(r)))]
        ops.append(get(1)); yield ops
    for j in range(n//2):
        t = rtx(r, nin=r.choice([1, 2, 3, 4])); ops = [new(1, 'tx'), feed(1, t.enc())] if j % 2 else build_ops(r, t)
        for i in r.sample(range(len(t.ins)), r.randrange(1, len(t.ins)+1)):
            m = r.choice(['legacy', 'legacy', 'legacy_pkh', 'segwit_wpkh', 'segwit_nested_wpkh', 'segwit_wsh', 'segwit_nested_wsh'])
            k = rkey(r); c = rcode(r)
            if m == 'legacy' and r.random() < .5: c = b'\x76\xa9\x14'+h160(pub(k))+b'\x88\xac'
            if m.startswith('segwit') and len(c) == 22 and c[:2] == b'\0\x14': c += b'\1'   # a P2WPKH program is no script code
            if m == 'legacy' and len(c) == 0: c = b'\x51'
            ops.append(dict(op='tx_sign', o=1, m=m, i=i, key=H(b32(k)), script=H(c), amt=le8(u64(r)), unc=1 if m.startswith('legacy') and r.random() < .3 else 0))
            if r.random() < .5: ops.append(get(1))
        ops.append(get(1)); yield ops

# ---------------------------------------------------------------- builders (C17)
def rpub(r, c=None): return pub(rkey(r), r.random() < .75 if c is None else c)
def rrs(r):
    f = lambda: r.choice([b32(r.randrange(1, N)), b32(r.randrange(1, N)), b32(r.randrange(1, N//2)), b32(r.randrange(1, 256)), b32(r.randrange(128, 256)), b32(N-1), b32(1), b32(r.getrandbits(248) | 1), b32(0x80 << r.choice([0, 8, 64, 240]))])
    return f()+f()
def c17(r, n):
    secs = [rpub(r) for _ in range(24)]
    for j in range(n):
        ops = [new(1, 'script')]; tot = 0
        for _ in range(r.randrange(1, 9)):
            m = r.randrange(7)
            if m == 0: ops.append(dict(op='s_code', o=1, code=r.getrandbits(8)))
            elif m == 1: ops.append(dict(op='s_data', o=1, data=H(rb(r, r.choice(LENS)))))
            elif m == 2: ops += [dict(op='pub_new', o=2, sec=H(r.choice(secs))), dict(op='s_pub', o=1, p=2)]
            elif m == 3: ops += [dict(op='sig_new', o=3, rs=H(rrs(r))), dict(op='s_sig', o=1, p=3, t=r.choice([1, 1, 2, 3]))]
            elif m == 4: ops += [dict(op='s_from', o=4, data=H(rb(r, r.choice([0, 1, 2, 22, 34, 75, 76, 77, 255, 256, 257, 300, 520])))), dict(op='s_script', o=1, p=4), get(4)]
            elif m == 5: ops.append(get(1))
            elif r.random() < .2: ops.append(dict(op='s_clear', o=1))
        yield ops+[get(1), dict(op='s_type', o=1)]
    for j in range(n//2):   # templates
        sec = rpub(r); ops = [dict(op='pub_new', o=1, sec=H(sec))]; o = 10
        for t in ['pkh', 'wpkh', 'P2PKH', 'P2WPKH', 'P2SH_P2WPKH', 'scriptP2PKH', 'scriptP2WPKH', 'scriptP2SH_P2WPKH']:
            if r.random() < .5: ops += [dict(op='s_kind', o=o, p=1, t=t), get(o), dict(op='s_type', o=o)]; o += 1
        ops.append(dict(op='s_from', o=2, data=H(rb(r, r.choice(LENS)))))
        for t in ['sh', 'wsh', 'P2SH', 'P2WSH', 'spkP2SH', 'spkP2WSH']:
            if r.random() < .5: ops += [dict(op='s_wrap', o=o, p=2, t=t), get(o), dict(op='s_type', o=o)]; o += 1
        yield ops
    for j in range(n//2):   # multisig
        k = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 15, 16]); keys = [r.choice(secs) if r.random() < .5 else rpub(r) for _ in range(k)]
        m = r.choice([1, k, r.randrange(1, k+1), r.randrange(0, k+2)])
        if r.random() < .05: keys = []
        if r.random() < .04: keys = keys*17
        keys = keys[:17]
        yield [dict(op='s_multi', o=1, m=m, sorted=j % 2, keys=','.join(H(x) for x in keys)), get(1), dict(op='s_type', o=1)]
    # classification: each template with one thing off
    h20, h32 = rb(r, 20), rb(r, 32)
    T4 = [b'\x76\xa9\x14'+h20+b'\x88\xac', b'\xa9\x14'+h20+b'\x87', b'\0\x14'+h20, b'\0\x20'+h32, b'\x51\x20'+h32, b'\x51\x14'+h20, b'\0\x20'+h20, b'\0\x14'+h32]
    for s in T4:
        ops = []
        for i in list(range(len(s)))+[-1]:
            for d in ([None, 1, 0x80] if i in (0, 1, 2, len(s)-1, len(s)-2) else [1]):
                b = bytearray(s)
                if i >= 0 and d: b[i] ^= d
                ops += [dict(op='s_from', o=1, data=H(bytes(b))), dict(op='s_type', o=1)]
        for b in [s[:-1], s+b'\0', s[1:], b'', s+s]: ops += [dict(op='s_from', o=1, data=H(b)), dict(op='s_type', o=1)]
        yield ops
    for j in range(n):   # witnesses
        ops = [new(1, 'witness')]
        for _ in range(r.randrange(1, 8)):
            m = r.randrange(6)
            if m == 0: ops.append(dict(op='w_data', o=1, data=H(rb(r, r.choice(LENS)))))
            elif m == 1: ops += [dict(op='pub_new', o=2, sec=H(r.choice(secs))), dict(op='w_pub', o=1, p=2)]
            elif m == 2: ops += [dict(op='sig_new', o=3, rs=H(rrs(r))), dict(op='w_sig', o=1, p=3, t=1)]
            elif m == 3: ops += [dict(op='s_from', o=4, data=H(rb(r, r.choice([0, 1, 22, 75, 76, 252, 253, 300])))), dict(op='w_script', o=1, p=4)]
            elif m == 4: ops.append(get(1))
            elif r.random() < .2: ops.append(dict(op='w_clear', o=1))
        if r.random() < .15: b = wit(rwit(r)); ops = [dict(op='w_from', o=1, data=H(mutate(r, b) if r.random() < .2 else b)), get(1)]+ops[1:]
        if r.random() < .1: ops = [dict(op='pub_new', o=2, sec=H(r.choice(secs))), dict(op='sig_new', o=3, rs=H(rrs(r))), dict(op='w_sigpub', o=1, p=3, q=2)]
        yield ops+[get(1)]
    yield [new(1, 'witness')]+[dict(op='w_data', o=1, data=H(bytes([i % 256])*(i % 3))) for i in range(252)]+[get(1)]
    for c in (252, 253, 254, 255, 256, 257, 300, 512):   # more items than one byte counts
        t = T(2, [(rb(r, 32), 1, b'', 2, []), (rb(r, 32), 0, b'ab', 3, r.choice([[], [b'x']]))], [(7, b'abc')], 0)
        yield [new(1, 'witness')]+[x for i in range(c) for x in [dict(op='w_data', o=1, data=H(bytes([i % 256])*(i % 3)))]+([get(1)] if i > 250 and i % 4 == 3 else [])]+[get(1), new(2, 'tx'), feed(2, t.enc()), dict(op='tx_wit', o=2, i=0, p=1), get(2), dict(op='copy', o=3, p=2), get(3), get(1)]
    for L in (9996, 9997, 9999, 10000, 10001, 12000):   # around the size limit
        yield [new(1, 'script'), dict(op='s_data', o=1, data=H(rb(r, L))), get(1), dict(op='s_code', o=1, code=0x51), get(1), dict(op='s_code', o=1, code=0x52), dict(op='use', o=1)]
        yield [new(1, 'script'), dict(op='s_from', o=2, data=H(rb(r, L-3))), dict(op='s_script', o=1, p=2), get(1), dict(op='s_code', o=1, code=0x51), get(1)]
        yield [new(1, 'script'), dict(op='s_code', o=1, code=0x51), dict(op='s_data', o=1, data=H(rb(r, L-1))), get(1), dict(op='copy', o=2, p=1), get(2)]
        yield [new(1, 'witness'), dict(op='w_data', o=1, data=H(rb(r, L-3))), get(1), dict(op='w_data', o=1, data=''), get(1), dict(op='w_data', o=1, data=''), dict(op='use', o=1)]
        yield [new(1, 'witness'), dict(op='w_data', o=1, data=H(rb(r, 100))), dict(op='w_data', o=1, data=H(rb(r, L-101-3))), get(1), dict(op='w_data', o=1, data='00'), dict(op='use', o=1)]
    yield [new(1, 'script')]+[dict(op='s_data', o=1, data=H(rb(r, 500))) for i in range(19)]+[get(1), dict(op='s_data', o=1, data=H(rb(r, 499))), dict(op='s_code', o=1, code=1), get(1)]

# ---------------------------------------------------------------- value semantics (C19)
def alike(r):
    """pairs of values of a kind, equal or nearly so"""
    def flip(b, lo=0):
        b = bytearray(b); i = r.choice([lo, len(b)-1, r.randrange(lo, len(b))]); b[i] ^= r.choice([1, 0x80, 1 << r.randrange(8)]); return bytes(b)
    def flipw(w):
        w = list(w); i = r.randrange(len(w)); w[i] = flip(w[i]) if w[i] else b'x'; return w
    for n in (1, 2, 3, 8, 31, 64, 75, 252, 253, 300):
        b = rb(r, n); yield 'script', vb(b), [vb(b), vb(flip(b)), vb(flip(b)), vb(b[:-1]), vb(b+b'\0'), b'\0']
    for w in ([b'a'], [b''], [b'', b''], [rb(r, 71), rb(r, 33)], [b'', rb(r, 71), rb(r, 72), rb(r, 105)], [rb(r, 253)], [rb(r, 300), b'x']):
        yield 'witness', wit(w), [wit(w), wit(flipw(w)), wit(flipw(w)), wit(w[:-1]), wit(w+[b'']), wit([b'']+w), wit(w[::-1]), b'\0']
    yield 'witness', b'\0', [b'\0', b'\1\0']
    yield 'script', b'\0', [b'\0', b'\1\0']
    for _ in range(3):
        b = rb(r, 64); yield 'ssig', b, [b, flip(b), flip(b), b[32:]+b[:32], bytes(31)+b'\1'+b[32:]]
        q = rrs(r); yield 'sig', der(q), [der(q), der(q[:32]+flip(q[32:], 1)), der(flip(q[:32], 1)+q[32:]), der(q[32:]+q[:32])]
        k = rkey(r); s, u = pub(k), pub(k, False); o = [s, u, bytes([s[0] ^ 1])+s[1:], pub(rkey(r)), pub(rkey(r), False)]
        for kind in ('point', 'pub'): yield kind, s, o; yield kind, u, o
        d = b32(k)
        for kind in ('scalar', 'prv'): yield kind, d, [d, flip(d, 1), flip(d, 1), b32(N-k)]
def c19(r, n):
    for k, a, others in alike(r):
        ops = [new(1, k), feed(1, a), new(2, k), dict(op='copy', o=3, p=1), dict(op='eq', o=1, p=3), dict(op='eq', o=3, p=1), dict(op='eq', o=1, p=1)]
        for b in others: ops += [feed(2, b), dict(op='eq', o=1, p=2), dict(op='eq', o=2, p=1), dict(op='assign', o=3, p=2), dict(op='eq', o=3, p=2), dict(op='eq', o=3, p=1)]
        yield ops+[get(1), get(2), get(3)]
    ks = list(KINDS)
    for j in range(n):
        k = ks[j % len(ks)]; ops = []; live = {}
        for _ in range(r.randrange(6, 16)):
            m = r.randrange(12); i = r.randrange(1, 4)
            if i not in live or m == 0:
                if r.random() < .3: ops.append(new(i, k)); live[i] = 1
                else: ops += [new(i, k), feed(i, KINDS[k](r))]; live[i] = 1
                continue
            p = r.choice(list(live))
            if m == 1: ops.append(dict(op='copy', o=i, p=p)) if p != i else ops.append(dict(op='copy', o=4, p=p)); live[4 if p == i else i] = 1
            elif m in (2, 3): ops.append(dict(op='assign', o=i, p=p))
            elif m == 4: ops.append(dict(op='assign', o=i, p=i))
            elif m == 5 and len(live) > 1: ops.append(dict(op='del', o=i)); del live[i]
            elif m == 6: ops.append(dict(op='reset', o=i)); ops.append(feed(i, KINDS[k](r)))
            elif m == 7: ops.append(feed(i, KINDS[k](r)))
            elif m == 8 and k == 'script': ops.append(dict(op='s_data', o=i, data=H(rb(r, r.randrange(1, 5)))))
            elif m == 8 and k == 'witness': ops.append(dict(op='w_data', o=i, data=H(rb(r, r.randrange(0, 5)))))
            elif m == 8 and k == 'tx': ops += [dict(op='to_new', o=9, amt=le8(u64(r)), script=H(rb(r, 3)), rev=0), dict(op='tx_out', o=i, p=9)]
            elif m == 9 and k == 'tx': ops += [dict(op='ti_new', o=9, ctor='bytes', id=H(rb(r, 32)), idx=le4(1), script='', seq=le4(2)), dict(op='tx_in', o=i, p=9)]
            elif m in (8, 9) and k == 'psbt': ops.append(dict(op='ps_add', o=i, i=r.choice([1, 1, 2]), key=H(b'\2'+pub(rkey(r))), val=H(der(rrs(r))+b'\1')))
            elif m in (8, 9) and k == 'etx': ops += [dict(op='hd_new', o=9, key=H(b32(7)), cc='07'*32, depth=3, fp='01020304', child='00000000', net='main', type='P2WPKH'), dict(op='el_sign', o=i, p=9)]
            elif m == 10 and r.random() < .5: ops += [feed(i, mutate(r, KINDS[k](r))), dict(op='reset', o=i), feed(i, KINDS[k](r))]
            elif m == 9 and k == 'script': ops.append(dict(op='s_clear', o=i))
            elif m == 9 and k == 'witness': ops.append(dict(op='w_clear', o=i))
            elif m == 9 and k in ('script', 'witness', 'sig', 'ssig', 'point', 'pub', 'scalar', 'prv') and p in live: ops.append(dict(op='eq', o=i, p=p))
            else: ops.append(get(i))
            if r.random() < .4:
                for q in sorted(live): ops.append(get(q))
        for q in sorted(live): ops.append(get(q))
        yield ops+[dict(op='end')]
    # calls that use memory of their own give it back
    import gen_keys as gk, gen_codec as gc, gen_psbt as gp
    for g in (gk.c09, gk.c10, gk.c11, gk.c16, gk.c20, gc.c15, gc.c22, gp.c21, gp.c08, c17):
        for ops in pickn(r, list(g(r, max(8, n//40))), max(4, n//30)): yield ops+[dict(op='end')]
def pickn(r, l, n): return l if len(l) <= n else r.sample(l, n)
