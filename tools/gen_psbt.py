"""Scenario generators: PSBT (C06, C07, C08) and Electrum transactions (C21)."""
import base64, struct
from btc import *
from gen_tx import *
from gen_keys import hd_new, A, idxb, VPUB
def i32(x): return struct.pack('<I', x)
def pkh(h): return b'\x76\xa9\x14'+h+b'\x88\xac'
def shs(s): return b'\xa9\x14'+h160(s)+b'\x87'
def multi(m, pubs): return bytes([0x50+m])+b''.join(vb(x) for x in pubs)+bytes([0x50+len(pubs)])+b'\xae'
class Wallet:
    def __init__(s, r):
        s.seed = rb(r, r.choice([16, 32, 64])); s.k, s.c = master(s.seed); s.fp = h160(pub(s.k))[:4]; s.cache = {}
    def key(s, path):
        path = tuple(path)
        if path not in s.cache: s.cache[path] = (s.k, s.c) if not path else ckd(*s.key(path[:-1]), path[-1])
        return s.cache[path]
    def pub(s, path, c=True): return pub(s.key(path)[0], c)
    def new(s, o): return dict(op='hd_seed', o=o, seed=H(s.seed), net='main') if s.seed else dict(op='hd_new', o=o, key=H(b32(s.k)), cc=H(s.c), depth=0, fp='00000000', child='00000000', net='main', type='UNKNOWN')
    def sib(s, r):
        """the same root key, so the same fingerprint, under another chain code"""
        w = Wallet(r); w.seed = None; w.k, w.fp, w.cache = s.k, s.fp, {}
        return w
ACC = [[44+HARD, HARD, HARD], [84+HARD, HARD, HARD], [49+HARD, 1+HARD, HARD], [48+HARD, HARD, HARD, 2+HARD], [84+HARD, HARD, 1+HARD], [45+HARD], [], [0], [84+HARD, 0, HARD]]
def wpath(r, acc=None):
    a = list(acc if acc is not None else r.choice(ACC))
    k = r.randrange(12)
    if k < 8: return a+[r.randrange(2), r.randrange(50)]
    if k == 8: return a
    if k == 9: return a[:r.randrange(len(a)+1)]
    if k == 10: return a+[r.choice([0, 1, HARD, HARD-1, 2**32-1, r.getrandbits(32)])]
    return a+[r.randrange(5) for _ in range(r.randrange(1, 4))]
def ukey(r, *a): return pub(r.randrange(2**200, N), *a)   # not one of the edge cases, so never twice
def der_rec(r, code, sec_, fp, path): return (bytes([code])+sec_, fp+b''.join(i32(i) for i in path))
def prev_tx(r, amt, script, idx, segwit=None):
    n = idx+r.choice([1, 1, 2, 3]); t = rtx(r, nin=r.choice([1, 1, 2]), nout=n, segwit=segwit)
    t.outs[idx] = (amt, script); return t
def amount(r): return r.choice([0, 1, 546, 10**5, 10**8, 21*10**14, 2**32-1, 2**32, 2**40+7, 2**62, 2**63-1, r.getrandbits(50), r.getrandbits(40), r.getrandbits(33)])
KINDS_IN = ['pkh', 'wpkh', 'sh-wpkh', 'wsh', 'sh-wsh', 'sh', 'bare']
class P:
    """a PSBT under construction: tx, records per section"""
    def __init__(s): s.g = []; s.ins = []; s.outs = []; s.t = None
    def enc(s, gfirst=True):
        m = lambda recs: b''.join(vb(k)+vb(v) for k, v in recs)+b'\0'
        head = (b'\0', s.t.enc(False))
        return b'psbt\xff'+m([head]+s.g)+b''.join(m(x) for x in s.ins)+b''.join(m(x) for x in s.outs)
def unknown(r, taken, codes):
    while 1:
        c = r.choice(codes); k = bytes([c])+rb(r, r.choice([0, 0, 1, 4, 33, 251, 252, 253, 300]) if r.random() < .3 else r.randrange(5))
        if k not in taken: return (k, rb(r, r.choice([0, 1, 4, 32, 75, 252, 253, 254, 255, 256, 300])))
def rpsbt(r, ws, nin=None, nout=None, kinds=None, sigs=True, unk=.4, accs=None, wit_only=False, known=.95, own=.75):
    p = P(); nin = nin if nin is not None else r.choice([1, 1, 2, 2, 3, 4]); nout = nout if nout is not None else r.choice([0, 1, 2, 2, 3])
    ins = []; accs = accs or [r.choice(ACC) for _ in range(r.choice([1, 1, 2, 3]))]
    tiny = nin+nout > 20
    def keyset(nk):   # (sec, fp, path)
        out = []
        for _ in range(nk):
            w = ws[0] if r.random() < own else r.choice(ws); path = wpath(r, r.choice(accs)); sec_ = w.pub(path); fp = w.fp
            k = r.randrange(14)
            if k == 0: fp = rb(r, 4)                           # not ours according to the fingerprint
            elif k == 1: sec_ = pub(rkey(r))                   # our fingerprint, somebody else's key
            elif k == 2: path = path[:-1] if path and r.random() < .5 else path+[r.randrange(3)]    # path does not lead to the key
            elif k == 3: sec_ = bytes([sec_[0] ^ 1])+sec_[1:]  # the negated key
            if all(sec_ != x[0] for x in out): out.append((sec_, fp, path))
        return out
    for i in range(nin):
        kind = r.choice(kinds or KINDS_IN); recs = []; amt = amount(r)
        ks = [] if tiny and r.random() < .8 else keyset(1 if kind in ('pkh', 'wpkh', 'sh-wpkh') else r.choice([1, 2, 3]))
        secs = [k[0] for k in ks] or [pub(rkey(r))]
        ms = multi(r.randrange(1, len(secs)+1), sorted(secs)) if r.random() < .8 else r.choice([rb(r, r.choice([1, 2, 22, 30, 34, 250, 252, 253, 300])), rb(r, r.choice([22, 23, 25, 34])), b'\0\x14'+rb(r, r.choice([19, 21])), b'\1\x14'+rb(r, 20), b'\0\x15'+rb(r, 20)])
        if kind == 'pkh': spk = pkh(h160(secs[0]))
        elif kind == 'wpkh': spk = b'\0\x14'+h160(secs[0])
        elif kind == 'sh-wpkh': red = b'\0\x14'+h160(secs[0]); spk = shs(red); recs.append((b'\4', red))
        elif kind == 'wsh': spk = b'\0\x20'+sha(ms); recs.append((b'\5', ms))
        elif kind == 'sh-wsh': red = b'\0\x20'+sha(ms); spk = shs(red); recs += [(b'\4', red), (b'\5', ms)]
        elif kind == 'sh': spk = shs(ms); recs.append((b'\4', ms))
        else: spk = multi(1, secs) if r.random() < .5 else vb(secs[0])+b'\xac'
        h, idx = rb(r, 32), u32(r)
        if r.random() < known or ks:
            if not (kind in ('pkh', 'sh', 'bare') or r.random() < .3) or wit_only: recs.append((b'\1', txout(amt, spk)))
            else:
                idx = r.choice([0, 0, 1, 2, 3]); t = prev_tx(r, amt, spk, idx); h = t.txid(); recs.append((b'\0', t.enc()))
                if r.random() < .15: recs.append((b'\1', txout(amt, spk)))
        for s_, fp, path in ks: recs.append(der_rec(r, 6, s_, fp, path))
        if r.random() < .15: recs.append(der_rec(r, 6, ukey(r, False), rb(r, 4), wpath(r)))
        if sigs and r.random() < .3:
            for _ in range(r.choice([1, 1, 2, 3])): recs.append((b'\2'+(ukey if tiny or r.random() < .7 else lambda r, c: pub(rkey(r), c))(r, r.random() < .85), der(rrs(r))+bytes([r.choice([1, 1, 2, 3, 0x81, 0x83, 0, r.randrange(256)])])))
            if ks and r.random() < .5: recs.append((b'\2'+r.choice(ks)[0], der(r.choice([rrs(r), b'\xff'+rb(r, 31)+b'\xfe'+rb(r, 31)]))+r.choice([b'\1', b'\1', b'\2'])))
        while r.random() < unk: recs.append(unknown(r, [k for k, _ in recs], [3, 7, 8, 9, 10, 0x0e, 0x80, 0xfc, 0xff]))
        r.shuffle(recs); p.ins.append(recs); ins.append((h, idx, b'', u32(r), []))
    outs = []
    for i in range(nout):
        recs = []; ks = [] if tiny and r.random() < .8 else keyset(r.choice([0, 1, 1, 2])); outs.append((amount(r) if r.random() < .7 else r.getrandbits(30), rb(r, 2) if tiny else rscript(r)))
        if r.random() < .3: recs.append((b'\0', rb(r, r.choice([1, 22, 34, 252, 253, 260]))))
        if r.random() < .3: recs.append((b'\1', rb(r, r.choice([1, 71, 105, 252, 253, 260]))))
        for s_, fp, path in ks: recs.append(der_rec(r, 2, s_, fp, path))
        while r.random() < unk: recs.append(unknown(r, [k for k, _ in recs], [3, 4, 5, 6, 7, 0x80, 0xfc, 0xff]))
        r.shuffle(recs); p.outs.append(recs)
    while r.random() < unk: p.g.append(unknown(r, [k for k, _ in p.g], [1, 2, 3, 0xfb, 0xfc]))
    p.t = T(u32(r), ins, outs, u32(r)); return p
def g_psbt(r): return rpsbt(r, [Wallet(r)], nin=r.choice([1, 1, 2]), nout=r.choice([0, 1, 2]), unk=.2).enc()
def dup_free(recs): return len({k for k, _ in recs}) == len(recs)
def chunks(r, b, o=1):
    k = r.randrange(4)
    if k == 0: return [feed(o, b, r.choice(FMTS))]
    if k == 1: return [feed(o, x, r.choice(FMTS)) for x in cut(r, b, r.choice([1, 2, 5]))]
    if k == 2: n = r.choice([1, 7, 20, 64]); n = max(n, len(b)//60+1); return [feed(o, b[i:i+n], r.choice(['raw', 'hex'])) for i in range(0, len(b), n)]
    return [feed(o, b)]
def marks(b):
    """where the fields of a PSBT begin and end"""
    m = {5}; i = 5
    def num(i):
        n = {0xfd: 2, 0xfe: 4, 0xff: 8}.get(b[i], 0); return (int.from_bytes(b[i+1:i+1+n], 'little') if n else b[i]), i+1+n
    while i < len(b):
        m |= {i, i+1}; k, j = num(i); m |= {j, j-1}; i = j
        if k == 0: continue
        m |= {i+1, i+k-1, i+k}; i += k; m.add(i+1); v, j = num(i); m |= {j, j-1, j+1, j+v-1, j+v}; i = j+v
    return sorted(x for x in m if 0 < x < len(b))
def cuts(r, n):
    """PSBTs whose records need long lengths, cut in and around every field"""
    ws = [Wallet(r)]
    for j in range(max(3, n//100)):
        p = rpsbt(r, ws, 1, r.choice([0, 1, 2]), unk=0, kinds=[KINDS_IN[j % len(KINDS_IN)]]); h = p.t.ins[0]
        t = rtx(r, 1, 2); t.outs[0] = (5, rb(r, 300)); big = lambda: rb(r, r.choice([253, 254, 255, 256, 257, 300, 511, 513]))
        have = {k for k, _ in p.ins[0]}
        for rec in [(b'\4', big()), (b'\5', big()), (b'\2'+ukey(r, True), der(rrs(r))+b'\1'), der_rec(r, 6, ukey(r, False), rb(r, 4), [1]*63), (b'\x80'+rb(r, 252), b''), (b'\x81', big())]:
            if rec[0] not in have and r.random() < .7: p.ins[0].append(rec)
        if p.outs: p.outs[0] += [x for x in [(b'\x90'+rb(r, 260), big()), (b'\0', big()), (b'\1', big())] if x[0] not in {k for k, _ in p.outs[0]}][:2]
        if r.random() < .5: p.g.append((b'\xfc'+rb(r, r.choice([3, 255])), big()))
        b = p.enc(); at = marks(b); r.shuffle(at); ops = []
        for q, i in enumerate(at[:60]):
            c = r.choice([[i], [i], [i, i+1], [i-1, i, i], [i, min(len(b), i+r.randrange(40))]]); c = [0]+[min(x, len(b)) for x in c]+[len(b)]
            ops += [new(1, 'psbt')]+[feed(1, b[x:y], r.choice(FMTS)) for x, y in zip(c, c[1:])]+[get(1)]
            if q % 6 == 5: yield ops; ops = []
        if ops: yield ops
PP = 2**256-2**32-977
def offcurve(r):
    while 1:
        x = r.randrange(1, PP)
        if pow(x*x*x+7, (PP-1)//2, PP) != 1: return b32(x)
def damaged(r):
    """a PSBT for every kind of record and every kind of damage to its key or value, or to their length fields"""
    sig, sec_, unc = der(rrs(r))+b'\1', pub(rkey(r)), pub(rkey(r), False); path = rb(r, 4)+i32(84+HARD)+i32(3); pt = rtx(r, 1, 2)
    recs = [('i', b'\0', b'', pt.enc()), ('i', b'\1', b'', txout(u64(r), rscript(r))), ('i', b'\2', sec_, sig), ('i', b'\2', unc, sig), ('i', b'\4', b'', rscript(r)), ('i', b'\5', b'', rscript(r)), ('i', b'\6', sec_, path), ('i', b'\6', unc, path),
            ('o', b'\0', b'', rscript(r)), ('o', b'\1', b'', rscript(r)), ('o', b'\2', sec_, path), ('o', b'\2', unc, path)]
    nonmin = lambda n: r.choice([b'\xfd'+struct.pack('<H', n), b'\xfe'+struct.pack('<I', n), b'\xff'+struct.pack('<Q', n)])
    big = lambda: r.choice([b'\xfe\xff\xff\xff\xff', b'\xfe\0\0\0\x80', b'\xff'*9, b'\xff'+b'\xff'*7+b'\x7f', b'\xfe\0\0\0\x10'])
    for s, c, k, v in recs:
        ks = [k+rb(r, 1), k[:-1], k[:1], b'', k+rb(r, 32), k[:33]+bytes(32), b'\2'+offcurve(r), b'\3'+offcurve(r), b'\4'+rb(r, 64), rb(r, 33), rb(r, 65), b'\0'+rb(r, 32), bytes(33), bytes(65), b'\1'+k[1:], b'\5'+k[1:], b'\2'+b32(PP+1), rb(r, 31), rb(r, 32), rb(r, 34), rb(r, 64), rb(r, 66), rb(r, 252), rb(r, 300)]
        vs = [b'', v[:-1], v[:1], v[:len(v)//2], v+rb(r, 1), v+rb(r, 4), v[1:], mutate(r, v), mutate(r, v), mutate(r, v)]+([bytes(3), bytes(4), bytes(5), bytes(4+1020), bytes(4+1024)] if v is path else [])+([sig[:-1], sig[:2], b'\x30', sig+b'\0', sig[:1]+bytes([sig[1]+1])+sig[2:], sig[:-2]] if v is sig else [])
        for key, val in [(c+x, v) for x in ks]+[(c+k, x) for x in vs]: yield s, vb(key)+vb(val), pt, key, val
        for f in (nonmin, lambda n: big()):
            yield s, f(len(c+k))+c+k+vb(v), pt, None, None
            yield s, vb(c+k)+f(len(v))+v, pt, None, None
def c06_records(r, n, use=False):
    ops = []
    for k, (s, rec, pt, key, val) in enumerate(damaged(r)):
        t = T(2, [(pt.txid(), 1, b'', 2**32-1, []), (pt.txid(), 0, b'', 2**32-1, [])], [(1000, rb(r, 22)), (5, b'')], 0); pos = r.randrange(2); o = r.choice([1, 2])
        secs = [b'', b'', b'', b'']; base = b'psbt\xff\1\0'+vb(t.enc(False))+b'\0'; i = pos+(0 if s == 'i' else 2); secs[i] = rec
        b = base+b''.join(x+b'\0' for x in secs)
        ops += [new(o, 'psbt')]+([feed(o, b, r.choice(FMTS))] if r.random() < .7 else [feed(o, x, r.choice(FMTS)) for x in cut(r, b, 2)])
        ops += [dict(op='use', o=o), dict(op='copy', o=3, p=o), dict(op='use', o=3)] if use else [get(o)]
        if key and not use: ops += [new(4, 'psbt'), feed(4, base+b'\0'*4), dict(op='ps_add', o=4, i=i+1, key=H(key), val=H(val)), get(4)]
        if k % 8 == 7: yield ops; ops = []
    if ops: yield ops
def b64(b): return base64.b64encode(b).decode()
def c06(r, n):
    ws = [Wallet(r), Wallet(r)]
    for L in [51, 150, 240, 250, 252, 253, 254, 300, 65520, 65535, 65536, 66000]:   # transactions around the prefix sizes
        t = T(2, [(rb(r, 32), 1, b'', 2, [])], [(5, b'')], 7); x = len(t.enc())
        t.outs = [(5, rb(r, max(0, L-x)))]
        for d in (0, -1, -2, -3, -4):
            if len(t.enc()) > L and len(t.outs[0][1]): t.outs = [(5, t.outs[0][1][:-1])]
        p = rpsbt(r, ws, 1, 1, kinds=['wpkh'], wit_only=True); p.t = t
        big = L > 1000; b = p.enc()
        yield [new(1, 'psbt')]+([feed(1, x) for x in cut(r, b, r.randrange(3))] if big else chunks(r, b))+[get(1)]+([] if big else [dict(op='ps_b64', o=1)])+[dict(op='ser', o=1, off=o, len=4, fmt='raw') for o in range(5, 14, 3 if big else 1)]
    for nin, nout in [(1, 0), (100, 100), (253-1, 1), (1, 252), (126, 127), (127, 127), (2, 252), (252, 3), (252, 252), (200, 60)]:
        p = rpsbt(r, ws, nin, nout, kinds=['wpkh'], wit_only=True, unk=.02, own=0)
        yield [new(1, 'psbt'), feed(1, p.enc(), r.choice(FMTS)), get(1)]
    for j in range(n):
        p = rpsbt(r, ws, unk=r.choice([0, .3, .6])); b = p.enc(); k = j % 5
        if k == 4:   # some other value for a record: too short, too long, odd length ...
            recs = r.choice([x for x in p.ins+p.outs if x] or [[(b'\xff', b'')]]); i = r.randrange(len(recs)); key, val = recs[i]
            m = r.randrange(6)
            if m == 0: val = val[:r.randrange(len(val)+1)]
            elif m == 1: val = val+rb(r, r.choice([1, 2, 4]))
            elif m == 2: key = key+rb(r, 1)
            elif m == 3: key = key[:max(1, len(key)-1)]
            elif m == 4: val = mutate(r, val)
            else: key = key[:1]+mutate(r, key[1:]) if len(key) > 1 else key
            recs[i] = (key, val); b = p.enc()
        ops = [new(1, 'psbt')]
        if k == 3: ops.append(dict(op='ps_feed64', o=1, data=A(b64(b))))
        else: ops += chunks(r, b+(rb(r, 2) if k == 1 else b''))
        ops += [get(1), dict(op='ps_b64', o=1)]
        if r.random() < .5: ops += list(windows(r, 1, len(b)//2, 4))
        if r.random() < .3: ops += [dict(op='copy', o=2, p=1), get(2), dict(op='del', o=1), get(2)]
        if r.random() < .3:   # another PSBT into the same object
            ops += [dict(op='new', o=1, k='psbt')] if dict(op='del', o=1) in ops else [dict(op='reset', o=1)]
            ops += chunks(r, rpsbt(r, ws).enc())+[get(1), dict(op='ps_b64', o=1)]
        if r.random() < .4 and p.ins:   # records added through the API
            sec_ = r.choice([0, 1, 1, len(p.ins), len(p.ins)+1, len(p.ins)+len(p.outs), len(p.ins)+len(p.outs)+1, 255, r.randrange(256)])
            rec = r.choice([(b'\2'+pub(rkey(r)), der(rrs(r))+b'\1'), der_rec(r, r.choice([2, 6]), pub(rkey(r)), rb(r, 4), wpath(r)), (b'\4', rscript(r)), (b'\5', rscript(r)), (b'\0', rscript(r)), (b'\1', txout(u64(r), rscript(r))),
                            (b'\x09'+rb(r, 3), rb(r, 5)), (b'\2'+pub(rkey(r)), der(rrs(r))), (b'\2'+pub(rkey(r)), b''), (b'\6'+pub(rkey(r)), rb(r, r.choice([0, 1, 3, 5, 6, 7])))])
            ops += [new(3, 'psbt'), feed(3, p.enc()), dict(op='ps_add', o=3, i=sec_, key=H(rec[0]), val=H(rec[1])), get(3)]
        # read back what it writes
        yield ops
    for j in range(n//2):   # serialized form parsed again
        p = rpsbt(r, ws, sigs=True); s_ = P(); s_.t = p.t; s_.ins = [[x for x in y if x[0][0] == 2] for y in p.ins]; s_.outs = [[] for _ in p.outs]
        b = s_.enc()
        yield [new(1, 'psbt')]+chunks(r, b)+[get(1)]+list(windows(r, 1, len(b), 6))+[new(2, 'psbt'), dict(op='ps_feed64', o=2, data=A(b64(b))), get(2)]
    for what, k in [(w, k) for w in ('id', 'is', 'od') for k in (255, 256)]:   # as many records as a section can have, and one more
        w = Wallet(r); p = rpsbt(r, [w], 1, 1, kinds=['wpkh'], wit_only=True, unk=0, own=0); der_ = lambda c: [der_rec(r, c, ukey(r), rb(r, 4), []) for _ in range(k)]
        if what == 'id': p.ins[0] = [x for x in p.ins[0] if x[0][0] != 6]+der_(6)
        elif what == 'od': p.outs[0] = der_(2)
        else:
            one = der(rrs(r))+b'\1'; p.ins[0] = [x for x in p.ins[0] if x[0][0] != 2]+[(b'\2'+ukey(r), one) for _ in range(k)]
        yield [new(1, 'psbt')]+[feed(1, x) for x in cut(r, p.enc(), r.randrange(2))]+[get(1), dict(op='use', o=1)]
    # long derivation paths, many records
    for L in [61, 62, 63, 254, 255, 256]:
        p = rpsbt(r, ws, 1, 1, kinds=['wpkh']); rec = der_rec(r, 6, pub(rkey(r)), rb(r, 4), [r.getrandbits(32) for _ in range(L)]); p.ins[0].append(rec)
        q = rpsbt(r, ws, 1, 1, kinds=['wpkh']); q.outs[0].append((b'\2'+rec[0][1:], rec[1]))
        yield [new(1, 'psbt')]+chunks(r, p.enc())+[get(1), new(2, 'psbt')]+chunks(r, q.enc(), 2)+[get(2)]
    for k in (12, 16, 17, 33, 64, 130):
        p = rpsbt(r, ws, 1, 1, wit_only=True); p.ins[0] += [(b'\2'+ukey(r), der(rrs(r))+b'\1') for _ in range(k)]
        q = rpsbt(r, ws, 1, 1, wit_only=True); q.ins[0] += [der_rec(r, 6, ukey(r), rb(r, 4), [5]) for _ in range(k)]; q.outs[0] += [der_rec(r, 2, ukey(r), rb(r, 4), [7]) for _ in range(k)]
        yield [new(1, 'psbt'), feed(1, p.enc()), get(1), new(2, 'psbt'), feed(2, q.enc(), r.choice(FMTS)), get(2)]
    for key in [b'\1', b'\0\0', b'\2', b'']:   # first record is something else
        b = b'psbt\xff'+vb(key)+(vb(p.t.enc(False)) if key else b'')+b'\0\0\0'
        yield [new(1, 'psbt'), feed(1, b, 'raw'), get(1)]

def c07(r, n):
    for j in range(n):
        ws = [Wallet(r), Wallet(r)]
        mode = j % 4
        acc = {0: None, 1: [[84+HARD, HARD, HARD]], 2: [[48+HARD, HARD, HARD, 2+HARD], [48+HARD], [], [48+HARD, HARD]], 3: [[44+HARD, HARD, HARD], [44+HARD, HARD, 1+HARD], [44+HARD, 1+HARD, HARD]]}[mode]
        p = rpsbt(r, ws, nin=r.choice([1, 2, 3, 4, 5]), nout=r.choice([1, 2]), accs=acc, unk=.1, known=1, own=.9 if mode else .6)
        ops = [new(1, 'psbt'), ws[0].new(5)]+chunks(r, p.enc())+[dict(op='ps_sign', o=1, p=5), get(1), dict(op='ps_b64', o=1)]
        k = r.randrange(6)
        if k == 0: ops += [dict(op='ps_sign', o=1, p=5), get(1)]                    # again
        elif k == 1: ops += [ws[1].new(6), dict(op='ps_sign', o=1, p=6), get(1)]    # the other signer
        elif k == 2:                                                                # another wallet that owns nothing
            ops += [hd_new(r, 6, depth=0), dict(op='ps_sign', o=1, p=6), get(1)]
        elif k == 3: ops += [dict(op='copy', o=2, p=1), ws[1].new(6), dict(op='ps_sign', o=2, p=6), get(2), get(1)]
        elif k == 4:                                                                # the root is a non-root key
            w = ws[0]; kk, cc = w.key([7]); ops = [new(1, 'psbt'), dict(op='hd_new', o=5, key=H(b32(kk)), cc=H(cc), depth=1, fp=H(w.fp), child=le4(7), net='test', type='P2WPKH')]
            fp = h160(pub(kk))[:4]; path = [r.randrange(3), r.randrange(3)]; sec_ = w.pub([7]+path)
            p = rpsbt(r, ws, nin=2, nout=1, accs=[[7]], known=1); p.ins[0] = [(b'\1', txout(amount(r) or 1, b'\0\x14'+h160(sec_))), der_rec(r, 6, sec_, fp, path)]
            ops += chunks(r, p.enc())+[dict(op='ps_sign', o=1, p=5), get(1)]
        yield ops
    for j in range(n//4):   # two roots with one fingerprint, in turns: nothing of the first may be used for the second
        w = Wallet(r); v = w.sib(r); acc = [[84+HARD, HARD, HARD]] if r.random() < .7 else None; ops = [w.new(5), v.new(6)]
        ps = {1: rpsbt(r, [w], nin=r.choice([1, 2]), nout=1, accs=acc, sigs=False, unk=0, own=1, known=1), 2: rpsbt(r, [v], nin=r.choice([1, 2]), nout=1, accs=acc, sigs=False, unk=0, own=1, known=1), 3: rpsbt(r, [w, v], nin=3, nout=1, accs=acc, sigs=False, unk=0, own=.5, known=1)}
        for o in ps: ops += [new(o, 'psbt'), feed(o, ps[o].enc())]
        todo = [(o, k) for o in ps for k in (5, 6)]; r.shuffle(todo)
        for o, k in todo: ops += [dict(op='ps_sign', o=o, p=k), get(o)]
        yield ops
    for L in (10, 62, 63, 64, 65, 128, 255):   # long paths
        w = Wallet(r); path = [r.randrange(4)+r.choice([0, HARD]) for _ in range(L)]; sec_ = w.pub(path); p = rpsbt(r, [w], nin=2, nout=1, kinds=['wpkh'], sigs=False, unk=0, known=1, wit_only=True)
        p.ins[r.randrange(2)] = [(b'\1', txout(5, b'\0\x14'+h160(sec_))), der_rec(r, 6, sec_, w.fp, path)]
        yield [new(1, 'psbt'), w.new(5), feed(1, p.enc()), dict(op='ps_sign', o=1, p=5), get(1)]
    for k in (16, 17, 40, 100):   # many records, the last of them ours
        w = Wallet(r); path = [84+HARD, HARD, HARD, 0, k]; sec_ = w.pub(path); p = rpsbt(r, [w], nin=1, nout=1, kinds=['wpkh'], sigs=False, unk=0, known=1, wit_only=True)
        p.ins[0] = [(b'\1', txout(5, b'\0\x14'+h160(sec_)))]+[der_rec(r, 6, ukey(r), rb(r, 4), [5]) for _ in range(k)]+[(b'\2'+ukey(r), der(rrs(r))+b'\1') for _ in range(k)]+[der_rec(r, 6, sec_, w.fp, path)]
        yield [new(1, 'psbt'), w.new(5), feed(1, p.enc()), dict(op='ps_sign', o=1, p=5), get(1)]
    for kind in KINDS_IN:   # every script type on its own
        w = Wallet(r); p = rpsbt(r, [w], nin=2, nout=1, kinds=[kind], sigs=False, unk=0, own=1, known=1)
        yield [new(1, 'psbt'), w.new(5), feed(1, p.enc()), dict(op='ps_sign', o=1, p=5), get(1)]

def c08(r, n):
    for j in range(n):
        ws = [Wallet(r), Wallet(r)]; k = j % 4
        if k == 0:   # previous transactions, right and wrong
            p = rpsbt(r, ws, nin=r.choice([1, 2, 3]), nout=r.choice([1, 2]), kinds=['pkh', 'sh'], unk=.1)
            i = r.randrange(len(p.ins)); h, idx, s_, q, w = p.t.ins[i]; m = r.randrange(9)
            src = [x for x in p.ins[i] if x[0] == b'\0']
            if src:
                raw = src[0][1]; rest = [x for x in p.ins[i] if x[0] != b'\0']; nout = None
                if m == 1: h = bytes([h[0] ^ 1])+h[1:]
                elif m == 2: h = h[:31]+bytes([h[31] ^ 0x80])
                elif m == 3: h = h[::-1]
                elif m == 4: idx = r.choice([5, 6, 7, 250, 252, 253, 255, 256, 256+idx, 65536+idx, 2**24+idx, 2**31, 2**32-1, 2**32-2])
                elif m == 5: t = prev_tx(r, amount(r), rscript(r), idx); raw = t.enc()
                elif m == 6: t = prev_tx(r, amount(r), rscript(r), idx, True); raw = t.enc(); h = dsha(raw)   # wtxid instead of txid
                elif m == 7: t = prev_tx(r, amount(r), rscript(r), idx, True); raw = t.enc(); h = t.txid()
                elif m == 8: t = prev_tx(r, amount(r), rscript(r), 0); h = t.txid(); raw = t.enc(); idx = len(t.outs)+r.choice([-1, 0, 1])
                p.ins[i] = rest+[(b'\0', raw)]; r.shuffle(p.ins[i]); p.t.ins[i] = (h, idx, s_, q, w)
            yield [new(1, 'psbt')]+chunks(r, p.enc())+[get(1)]
        elif k == 1:   # fees
            p = rpsbt(r, ws, nin=r.choice([1, 2, 3, 5]), nout=r.choice([0, 1, 2, 4]), known=r.choice([1, .6]), unk=0)
            tot = 0
            m = r.randrange(5)
            if m == 0:
                p.t.outs = [(r.getrandbits(20), x[1]) for x in p.t.outs]
            elif m == 1:   # outputs equal to inputs, or off by one
                for i in range(len(p.ins)): p.ins[i] = [(b'\1', txout(10**6+i, rscript(r)))]; tot += 10**6+i
                if p.t.outs: p.t.outs = [(0, x[1]) for x in p.t.outs]; p.t.outs[-1] = (tot+r.choice([-1, 0, 1]), b'x')
            elif m == 2:   # an input of value zero
                i = r.randrange(len(p.ins)); p.ins[i] = [(b'\1', txout(0, rscript(r) or b'\x51'))]
            elif m == 3 and p.ins:
                i = r.randrange(len(p.ins)); p.ins[i] = []
            yield [new(1, 'psbt')]+chunks(r, p.enc())+[get(1)]
        else:   # ownership
            w = ws[0]; accs = [r.choice([[], [0], [84+HARD, HARD, HARD], [5, 6]])]
            if r.random() < .5: ws[1] = w.sib(r)
            p = rpsbt(r, ws, nin=1, nout=r.choice([1, 2, 3]), accs=accs, unk=.1, own=.8)
            ops = [new(1, 'psbt'), w.new(5), dict(op='hd_xpub', o=6, p=5), ws[1].new(7) if r.random() < .7 else hd_new(r, 7, depth=0), dict(op='hd_xpub', o=8, p=7)]+chunks(r, p.enc())
            ops += [dict(op='ps_mine', o=1, p=k_, i=i) for i in list(range(len(p.outs)))+[len(p.outs), 255] for k_ in (5, 6, 7, 8)]
            yield ops+[get(1)]
    for j in range(max(6, n//12)):   # outputs that need no key at all can be spent too
        nin = r.choice([1, 2, 3]); p = rpsbt(r, [Wallet(r)], nin, r.choice([0, 1, 2]), kinds=['wpkh'], wit_only=True, unk=0, own=0); ins = []
        for i in range(nin):
            amt = r.choice([0, 1, 255, 256, 10**8, 21*10**14, amount(r)]); sc = r.choice([b'', b'', b'Q', b'\0', b'\0\x14'+rb(r, 20)]); h, idx = rb(r, 32), r.randrange(3)
            if r.random() < .5: p.ins[i] = [(b'\1', txout(amt, sc))]
            else: t = prev_tx(r, amt, sc, idx); h = t.txid(); p.ins[i] = [(b'\0', t.enc())]
            ins.append((h, idx, b'', u32(r), []))
        p.t = T(u32(r), ins, p.t.outs, u32(r)); yield [new(1, 'psbt')]+chunks(r, p.enc())+[get(1)]
    for k in (15, 16, 17, 40, 130, 254):   # many records, the last of them ours
        w = Wallet(r); p = rpsbt(r, [w], 1, 1, unk=0); q = r.choice([[0, 1], [], [84+HARD, 1]])
        p.outs[0] = [der_rec(r, 2, ukey(r), rb(r, 4), [5] if r.random() < .1 else []) for _ in range(k)]+[der_rec(r, 2, w.pub(q), w.fp, q)]
        yield [new(1, 'psbt'), feed(1, p.enc()), w.new(5), dict(op='hd_xpub', o=6, p=5)]+[dict(op='ps_mine', o=1, p=k_, i=i) for i in range(2) for k_ in (5, 6)]+[get(1)]
    for j in range(n//4):   # an account key and records relative to it; several records per output
        w = Wallet(r); acc = [84+HARD, HARD, r.randrange(2)+HARD]; p = rpsbt(r, [w], 1, 2, unk=0)
        recs = []
        for _ in range(r.choice([1, 2, 3])):
            path = r.choice([[0, r.randrange(4)], [1, r.randrange(4)], [], [HARD], [0, HARD+1]]); good = r.choice([w.pub(acc+path), w.pub(acc+path), bytes([w.pub(acc+path)[0] ^ 1])+w.pub(acc+path)[1:], pub(rkey(r)), w.pub(acc+path, False)])
            recs.append(der_rec(r, 2, good, rb(r, 4), path))
        if dup_free(recs): p.outs[r.randrange(2)] = recs
        yield [new(1, 'psbt'), feed(1, p.enc()), w.new(4), dict(op='hd_idx', o=5, p=4, idx=idxb(acc)), dict(op='hd_xpub', o=6, p=5)]+[dict(op='ps_mine', o=1, p=k_, i=i) for i in range(2) for k_ in (5, 6)]

# ---------------------------------------------------------------- Electrum (C21)
ELV = {'x': 0, 'y': 1, 'z': 2, 'Y': 3, 'Z': 4}
class El:
    def __init__(s, r, legacy, accts, nin=None):
        s.legacy = legacy; n = nin if nin is not None else r.choice([1, 1, 2, 3, 4]); s.n = n
        s.ver, s.lock = u32(r), u32(r); s.ins = []; s.outs = [(amount(r) if r.random() < .5 else r.getrandbits(30), rscript(r)) for _ in range(r.choice([0, 1, 2, 3]))]
        for _ in range(n):
            a = r.choice(accts)   # (key, cc, depth, fp, child)
            v = (VPUB[0] if r.random() < .5 else VPUB[5]) if legacy else r.choice([VPUB[1], VPUB[2], VPUB[2], VPUB[6], VPUB[7]])
            if r.random() < .08: v = r.choice(VPUB)
            x = v+bytes([a[2]])+a[3]+a[4]+a[1]+(pub(a[0]) if a[0] else rpub(r, True))
            s.ins.append(dict(h=rb(r, 32), idx=u32(r), seq=u32(r), x=x, der=struct.pack('<HH', r.choice([0, 1, 1, 2, 255, 256, 65535]), r.choice([0, 1, 5, 255, 256, 1000, 65535])), amt=r.choice([0, 1, 10**8, 2**40, r.getrandbits(45), 2**62])))
    def enc(s):
        b = b'EPTF\xff\0'+struct.pack('<I', s.ver)
        if not s.legacy: b += b'\0\1'
        b += var(s.n)+b''.join(i['h']+i32(i['idx'])+vb((b'\1\xff\x4c\x53\xff'+i['x']+i['der']) if s.legacy else b'')+i32(i['seq']) for i in s.ins)
        b += var(len(s.outs))+b''.join(txout(*o) for o in s.outs)
        if not s.legacy: b += b''.join(b'\xfe\xff\xff\xff\xff'+struct.pack('<Q', i['amt'])+b'\0\0\2\1\xff\x53\xff'+i['x']+i['der'] for i in s.ins)
        return b+i32(s.lock)
def acct(r): return (rkey(r), rb(r, 32), r.choice([0, 1, 3, 4]), rb(r, 4), rb(r, 4))
def hd_of(o, a, r): return dict(op='hd_new', o=o, key=H(b32(a[0])), cc=H(a[1]), depth=a[2], fp=H(a[3]), child=H(a[4][::-1]), net=r.choice(['main', 'test']), type=r.choice(['UNKNOWN', 'P2WPKH', 'P2SH_P2WPKH', 'P2PKH']))
def g_etx(r): return El(r, r.random() < .5, [acct(r), (7, b'\7'*32, 3, b'\1\2\3\4', b'\0'*4)], r.choice([1, 1, 2])).enc()
def el_wits(r, n):
    for j in range(n):   # a transaction with ordinary witnesses, well-formed or not, is not this format
        a = acct(r); e = El(r, False, [a], r.choice([1, 1, 2, 3])); raw = e.enc(); cut = len(raw)-4-102*e.n; tail = raw[cut+r.choice([0, 1, 5, 13, 20]):]
        w = [b'\2\1a'+b'\xfd\5\0'+b'abcde', b'\1\xff'+rb(r, 8), b'\3\1a\1b\xfe\1\0\0\0', b'\1\xfd\xfc\0', b'\1\xff', b'\2\0\xff'+b'\0'*8, b'\1\xfe\0\1\0\0', b'\xff'+b'\xff'*8, b'\xfd\1\0', b'\2\1a\1b', b'\0', b'\1\0'][j % 12]
        raw = raw[:cut]+(b'\1\1z' if r.random() < .2 and e.n > 1 else b'')+w+tail
        yield [new(1, 'etx'), hd_of(5, a, r)]+chunks(r, raw)+[get(1), dict(op='use', o=1), dict(op='reset', o=1)]+chunks(r, e.enc())+[get(1), dict(op='el_sign', o=1, p=5), get(1)]
def c21(r, n):
    for j in range(n):
        a, b = acct(r), acct(r); legacy = j % 2 == 0
        c = (a[0], rb(r, 32))+a[2:]                 # same key, other chain code
        d = (N-a[0],)+a[1:]                         # negated point
        e = El(r, legacy, r.choice([[a], [a, a, b], [a, b, c], [a, a, c, d], [b]])); raw = e.enc()
        ops = [new(1, 'etx'), hd_of(5, a, r), hd_of(6, b, r)]+chunks(r, raw+(rb(r, 3) if r.random() < .2 else b''))+[get(1)]
        k = j % 7
        if k < 4: ops += [dict(op='el_sign', o=1, p=5), get(1)]
        if k == 1: ops += [dict(op='el_sign', o=1, p=6), get(1)]
        if k == 2: ops += [dict(op='el_sign', o=1, p=5), get(1)]
        if k == 3: ops += [dict(op='copy', o=2, p=1), dict(op='el_sign', o=2, p=6), get(2), get(1)]
        if k == 4: ops += [dict(op='copy', o=2, p=1), dict(op='el_sign', o=2, p=5), get(2), get(1), dict(op='assign', o=1, p=2), get(1)]
        if k == 5: ops += [dict(op='el_sign', o=1, p=5), dict(op='reset', o=1)]+chunks(r, El(r, r.random() < .5, [a, b]).enc())+[get(1), dict(op='el_sign', o=1, p=5), get(1)]
        if k == 6: ops += list(windows(r, 1, len(raw), 5))
        yield ops
    for nin in [1, 2, 5, 6, 7, 8, 20, 60]:   # more inputs
        for legacy in (True, False):
            a, b = acct(r), acct(r); e = El(r, legacy, [a, b], nin)
            yield [new(1, 'etx'), hd_of(5, a, r)]+chunks(r, e.enc())+[get(1), dict(op='el_sign', o=1, p=5), get(1)]
    for j in range(n):   # malformed
        a = acct(r); e = El(r, j % 2 == 0, [a], r.choice([1, 2, 3])); i = r.choice(e.ins); k = r.randrange(6); x = bytearray(i['x'])
        if k == 0: x[r.randrange(4)] ^= 1 << r.randrange(8)
        elif k == 1: x[45] = r.choice([0, 1, 4, 5, 255])
        elif k == 2: x[46:] = b32(r.choice([0, 5, P_, P_+1, 2**256-1]))
        i['x'] = bytes(x); raw = e.enc()
        if k == 3: raw = raw[:r.randrange(len(raw))]
        elif k == 4: raw = mutate(r, raw)
        elif k == 5: m = bytearray(raw); m[r.randrange(6)] ^= 1 << r.randrange(8); raw = bytes(m)
        yield [new(1, 'etx'), hd_of(5, a, r)]+chunks(r, raw)+[get(1), dict(op='use', o=1), dict(op='copy', o=2, p=1), dict(op='use', o=2), dict(op='reset', o=1)]+chunks(r, El(r, j % 4 < 2, [a]).enc())+[get(1), dict(op='el_sign', o=1, p=5), get(1)]
    yield from el_wits(r, n//3)
    for j in range(n//6):   # every split of a small one
        b = El(r, j % 2 == 0, [acct(r)], r.choice([1, 2])).enc(); ops = []
        for c in r.sample(range(len(b)), 14): ops += [new(1, 'etx'), feed(1, b[:c], r.choice(FMTS)), feed(1, b[c:], r.choice(FMTS)), get(1)]
        yield ops
import btc
P_ = btc.P
# ---------------------------------------------------------------- every streamable kind for C02, C03, C04, C19
from gen_keys import xbody
KINDS.update(psbt=g_psbt, etx=g_etx, sig=lambda r: der(rrs(r)), ssig=lambda r: rb(r, 64), point=lambda r: rpub(r), pub=lambda r: rpub(r),
             scalar=lambda r: b32(rkey(r)), prv=lambda r: b32(rkey(r)), hdprv=lambda r: xbody(r), hdpub=lambda r: xbody(r, True))
def s_psbt(r):
    p = P(); p.t = T(u32(r), [(rb(r, 32), 0, b'', u32(r), [])], [(u64(r), rb(r, 2))], u32(r))
    p.ins = [[(b'\2'+pub(rkey(r)), der(rrs(r))+b'\1')] if r.random() < .6 else [(b'\4', b'ab'), (b'\x09', b'')]]; p.outs = [[]]; return p.enc()
SMALL.update(psbt=s_psbt)
