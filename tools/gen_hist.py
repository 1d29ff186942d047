"""Behaviours exported by the design models, made concrete."""
import re
from gen_tx import *
from gen_tx import KINDS
def parse(line):
    """a line "HIST <<...>>" printed by TLC -> nested lists"""
    t = line.strip()[1:-1].replace('\\"', '"')[5:]
    t = t.replace('<<', '[').replace('>>', ']').replace('TRUE', '1').replace('FALSE', '0')
    t = re.sub(r'(\w+) \|->', r'"\1":', t)      # records
    return json.loads(t.replace('[ "', '["'))
def hists(ms, module):
    return [parse(x) for m in ms if m['model'] == module for x in sorted(m['hist'])]
def pick(r, hs, n):
    return hs if len(hs) <= n else r.sample(hs, n)

def life(ms, r, n):
    """one history per transition of Life, over the kinds of streamed objects"""
    ks = list(KINDS); r.shuffle(ks)
    for j, h in enumerate(pick(r, hists(ms, 'Life'), n)):
        k = ks[j % len(ks)]; val = {v: (small if r.random() < .7 else lambda r, k: KINDS[k](r))(r, k) for v in 'ab'}; cutat = {}; ops = []; live = set()
        for op in h:
            o = op[1]
            if op[0] == 'new': ops.append(new(o, k)); live.add(o)
            elif op[0] == 'del': ops.append(dict(op='del', o=o)); live.discard(o)
            elif op[0] == 'feed': ops.append(feed(o, val[op[2]], r.choice(FMTS)))
            elif op[0] == 'head': b = val[op[2]]; c = cutat[o] = r.randrange(1, len(b)) if len(b) > 1 else 0; ops.append(feed(o, b[:c], r.choice(FMTS)))
            elif op[0] == 'rest': ops.append(feed(o, val[op[2]][cutat[o]:]+rb(r, r.randrange(2)), r.choice(FMTS)))
            elif op[0] == 'bad': ops.append(feed(o, mutate(r, KINDS[k](r)), r.choice(FMTS)))
            elif op[0] == 'empty': ops.append(feed(o, b'', r.choice(FMTS)))
            elif op[0] == 'reset': ops.append(dict(op='reset', o=o))
            else: ops.append(dict(op=op[0], o=o, p=op[2])); live.add(o)
        for o in sorted(live): ops.append(get(o))
        # afterwards every object still works, and nothing is left behind
        if live and r.random() < .5:
            o = r.choice(sorted(live)); ops += [dict(op='use', o=o), dict(op='reset', o=o), feed(o, val['b'], r.choice(FMTS))]+[get(x) for x in sorted(live)]
        yield ops+[dict(op='end')]

HASHES = {'': ['sha256', 'sha512', 'rmd160', 'hash160', 'dsha', 'tagged'], 'k': ['hmac256', 'hmac512'], 'long': ['hmac256', 'hmac512']}
def streams(ms, r, n):
    """write histories of MC_Hash (blocks of 4 bytes, 1 of them for the length) with real blocks"""
    for h in pick(r, hists(ms, 'MC_Hash'), n):
        big = r.random() < .4; blk = 128 if big else 64; lw = 16 if big else 8; ops = []; f = key = None; pos = n0 = 0; buf = b''
        if r.random() < .2: blk, lw = 64, 8      # block boundaries of the other family as well
        real = lambda p: p//4*blk+[0, r.randrange(1, blk-lw-1), blk-lw-1, blk-1 if r.random() < .5 else blk-lw][p % 4]
        names = {}
        for op in h+[['end']]*(h[-1][0] != 'end'):
            if op[0] == 'begin':
                g = r.choice([x for x in HASHES[op[1]] if ('512' in x) == big] or HASHES[op[1]]); key = b'' if op[1] == '' else rb(r, r.choice([1, 20, blk-1, blk])) if op[1] == 'k' else rb(r, blk+1+r.randrange(70))
                if g == 'tagged': key = bytes(r.choice(b'abcXYZ/') for _ in range(r.randrange(0, 70)))
                same = f is not None and f.replace('hmac', 'sha') == g.replace('hmac', 'sha') and 'tagged' not in (f, g)
                ops.append(dict(op='h_begin' if same else 'h_new', o=1, f=g, key=H(key))); f = g; pos = at = 0
            elif op[0] in ('write', 'byte'):
                k = op[1] if op[0] == 'write' else 1; nat = at if k == 0 else max(at, real(pos+k)); pos += k
                d = rb(r, nat-at); at = nat
                if op[0] == 'byte': 
                    if len(d): ops.append(dict(op='h_byte', o=1, f=f, data=H(d[:1]))); d = d[1:]
                    if not d: continue
                ops.append(dict(op='h_write', o=1, f=f, data=H(d)))
            elif op[0] == 'end': ops.append(dict(op='h_end', o=1, f=f))
        yield ops

def paths(ms, r, n):
    """texts of MC_Path, derived with from private and public keys"""
    ts = [h[0] for h in hists(ms, 'MC_Path')]; ok = [t for t in ts if re.fullmatch(rb"(m|(m/)?(\d+[h']?(/\d+[h']?)*)?/?)?", bytes.fromhex(t)) and len(t) < 60]
    ts = [t for t in ts if len(t) <= 4]+pick(r, ok, n)+pick(r, ts, n)
    for i in range(0, len(ts), 12):
        ops = [dict(op='hd_seed', o=1, seed=H(rb(r, 16)), net='main'), dict(op='hd_xpub', o=2, p=1)]
        for t in ts[i:i+12]:
            ops.append(dict(op='hd_path', o=3, p=1, path=t))
            if r.random() < .4: ops.append(dict(op='hp_path', o=4, p=2, path=t))
        yield ops

def codecs(ms, r, n):
    """strings of MC_Text through every encoder or decoder"""
    F = ['hex', 'bin', 'b58', 'b58c', 'b43', 'b64']
    hs = hists(ms, 'MC_Text'); hs = [h for h in hs if len(h[1]) <= 4]+pick(r, hs, n)
    for i in range(0, len(hs), 10):
        ops = []
        for w, x in hs[i:i+10]:
            for f in F:
                for fl in (range(4) if f == 'b64' else [0]): ops.append(dict(op='enc' if w == 'bytes' else 'dec', f=f, data=x, fl=fl, cap=100))
        yield ops

def integers(ms, r, n):
    """byte strings of MC_Int, read as CompactSize and written as integers"""
    hs = [h[0] for h in hists(ms, 'MC_Int')]; hs = [h for h in hs if len(h) <= 4]+pick(r, hs, n)
    for i in range(0, len(hs), 20):
        ops = []
        for x in hs[i:i+20]:
            v = (x+'00'*8)[:16] if r.random() < .5 else ('00'*8+x)[-16:]
            ops += [dict(op='rvarint', data=x), dict(op='varint', v=v, cap=9), dict(op='ints', w=r.randrange(0, 9), v=v)]
        yield ops

import gen_keys as gk, gen_codec as gc
def addresses(ms, r, n):
    """texts of MC_Addr and single errors of MC_Code, read as addresses"""
    hs = [h for h in hists(ms, 'MC_Addr') if h[0] in ('wit', 'b58')]
    ts = [bytes.fromhex(h[2]).decode() for h in pick(r, hs, 2*n)]
    for w, pos, v in pick(r, [h for h in hists(ms, 'MC_Code') if h[0] == 'bech'], n):
        net = r.choice(gk.NETS); size = r.choice([20, 32]); t = gk.bech32(gk.HRP[net], r.choice([0, 0, 1, 2]), rb(r, size)); k = len(t)-1-pos
        if k > t.rindex('1'): ts.append(t[:k]+gk.BCH[gk.BCH.index(t[k]) ^ v]+t[k+1:])
    r.shuffle(ts)
    for i in range(0, len(ts), 10): yield [dict(op='s_addr', o=1, data=H(t.encode())) for t in ts[i:i+10]]
def wifs(ms, r, n):
    ts = [h[2] for h in pick(r, [h for h in hists(ms, 'MC_Addr') if h[0] == 'wif'], n)]
    for i in range(0, len(ts), 10): yield [dict(op='fromwif', data=t, key=H(gk.b32(gk.rkey(r))), unc=r.randrange(2), net=r.choice(gk.NETS)) for t in ts[i:i+10]]
def descs(ms, r, n):
    """a descriptor and its neighbours: one character changed so that one symbol differs"""
    for w, pos, v in pick(r, [h for h in hists(ms, 'MC_Code') if h[0] == 'desc'], n):
        L = pos//4*3+r.randrange(3, 9); t = [r.choice(gc.DCH) for _ in range(L)]; k = max(0, L-1-pos*3//4); c = gc.DCH.index(t[k]); u = list(t); u[k] = gc.DCH[(c & 96 | (c & 31) ^ v) % len(gc.DCH)]
        yield [dict(op='desc', data=H(''.join(x).encode()), cap=9) for x in (t, u)]
def words(ms, r, n):
    hs = [h[0] for h in pick(r, hists(ms, 'MC_Words'), n)]
    for i in range(0, len(hs), 10): yield [dict(op='mn_check', m=t, cap=32) for t in hs[i:i+10]]
def xkeys(ms, r, n):
    hs = pick(r, hists(ms, 'MC_XKey'), n)
    for i in range(0, len(hs), 8):
        ops = []
        for j, (pub, t, b) in enumerate(hs[i:i+8]):
            k = 'hdpub' if pub else 'hdprv'; ops.append(dict(op='hp_str' if pub else 'hd_str', o=1, data=t, via=r.choice(['ctor', 'str'])))
            if b: ops += [new(10+j, k), feed(10+j, bytes.fromhex(b), r.choice(FMTS)), get(10+j)]
        yield ops

import gen_tx as gt
def signing(ms, r, n):
    """histories of MC_Sign on one live transaction; all hashes after every edit"""
    hs = hists(ms, 'MC_Sign'); hs = [h for h in hs if len(h) == 1]+pick(r, hs, n)
    for h in hs:
        val = {}
        def V(f, k, w):      # a model value as a real one: equal iff equal
            if (f, k) not in val: val[(f, k)] = rb(r, w)
            return H(val[(f, k)])
        sc = lambda s: b''.join(bytes.fromhex(V('byte', c, 1+r.randrange(40))) for c in s)
        cache = {}
        def S(s):
            if tuple(s) not in cache: cache[tuple(s)] = sc(s)
            return cache[tuple(s)]
        T = gt.T(int.from_bytes(bytes.fromhex(V('ver', 1, 4)), 'little'), [(bytes.fromhex(V('hash', 1, 32)), 0, b'', int.from_bytes(bytes.fromhex(V('seq', 1, 4)), 'little'), [])]+
                 [(bytes.fromhex(V('hash', 1, 32)), 1, b'', int.from_bytes(bytes.fromhex(V('seq', 1, 4)), 'little'), [])],
                 [(int.from_bytes(bytes.fromhex(V('amt', a, 8)), 'little'), S([1])) for a in (1, 2)], 0)
        val[('idx', 0)] = bytes(4); val[('idx', 1)] = bytes([1, 0, 0, 0]); val[('lock', 0)] = bytes(4)
        ops = [new(1, 'tx'), feed(1, T.enc())] if r.random() < .5 else gt.build_ops(r, T)
        ver, lock = V('ver', 1, 4), V('lock', 0, 4); i = 0; code = S([1, 1]); amt = V('spent', 1, 8)
        def look(k):
            return [dict(op='tx_sighash', o=1, alg='legacy', i=k, script=H(code), amt=amt), dict(op='tx_sighash', o=1, alg='segwit', i=k, script=H(code), amt=amt)]
        ops += look(0)
        for op in h:
            f = op[0]
            if f == 'ver': ver = V('ver', op[1], 4); ops.append(dict(op='tx_set', o=1, ver=ver, lock=lock))
            elif f == 'lock': lock = V('lock', op[1], 4); ops.append(dict(op='tx_set', o=1, ver=ver, lock=lock))
            elif f in ('hash', 'idx', 'seq'): ops.append(dict(op='tx_iset', o=1, i=op[1]-1, f=f, v=V(f, op[2], 32 if f == 'hash' else 4)))
            elif f == 'ssig': ops += [dict(op='s_from', o=50, data=H(S(op[2]))), dict(op='tx_ssig', o=1, i=op[1]-1, p=50)]
            elif f == 'wit': ops += [new(51, 'witness')]+[dict(op='w_data', o=51, data=H(S(x))) for x in op[2]]+[dict(op='tx_wit', o=1, i=op[1]-1, p=51)]
            elif f == 'amt': ops.append(dict(op='tx_oset', o=1, i=op[1]-1, f='amt', v=V('amt', op[2], 8)))
            elif f == 'spk': ops.append(dict(op='tx_oset', o=1, i=op[1]-1, f='script', v=H(S(op[2]))))
            elif f == 'addin': ops += [dict(op='ti_new', o=52, ctor='bytes', id=H(bytes.fromhex(V('hash', op[1], 32))[::-1]), idx=V('idx', 0, 4), script='', seq=V('seq', 1, 4)), dict(op='tx_in', o=1, p=52)]
            elif f == 'addout': ops += [dict(op='to_new', o=53, amt=V('amt', 1, 8), script=H(S(op[1])), rev=0), dict(op='tx_out', o=1, p=53)]
            elif f == 'swapin': ops.append(dict(op='tx_swap', o=1, f='in', i=0, j=1))
            elif f == 'swapout': ops.append(dict(op='tx_swap', o=1, f='out', i=0, j=1))
            elif f == 'which': i = op[1]-1
            elif f == 'code': code = S(op[1])
            elif f == 'spent': amt = V('spent', op[1], 8)
            elif f == 'sign':
                m = r.choice(['legacy', 'legacy_pkh'] if op[1] == 'legacy' else ['segwit_wpkh', 'segwit_nested_wpkh', 'segwit_wsh', 'segwit_nested_wsh'])
                ops.append(dict(op='tx_sign', o=1, m=m, i=i, key=H(gt.b32(gt.rkey(r))), script=H(code or b'\x51'), amt=amt, unc=0))
            ops += look(i)
            if f in ('swapin', 'addin', 'sign'): ops += look(1-i if i < 2 else 0)
        yield ops+[dict(op='tx_hashes', o=1), get(1)]

def building(ms, r, n):
    """histories of MC_Build: scripts and witnesses item by item, multisig scripts, templates with a byte off"""
    hs = hists(ms, 'MC_Build'); secs = [gt.rpub(r, True) for _ in range(6)]; unc = [gt.pub(gt.rkey(r), False) for _ in range(2)]
    sc = [h[2] for h in hs if h[0] == 'script']
    for h in [h for h in sc if len(h) == 1]+pick(r, sc, n):
        wit = r.random() < .4; o = 1; ops = [new(1, 'witness' if wit else 'script')]; k = 20; p = 'w' if wit else 's'
        for x in h:
            if x[0] == 'clear': ops.append(dict(op=p+'_clear', o=1))
            elif x[0] == 'code':
                if not wit: ops.append(dict(op='s_code', o=1, code=x[1]))
            elif x[1] in (33, 65) and r.random() < .6: ops += [dict(op='pub_new', o=k, sec=H(gt.rpub(r, x[1] == 33))), dict(op=p+'_pub', o=1, p=k)]; k += 1
            elif x[1] == 72 and r.random() < .7: ops += [dict(op='sig_new', o=k, rs=H(gt.rrs(r))), dict(op=p+'_sig', o=1, p=k, t=r.choice([1, 1, 2, 3]))]; k += 1
            elif r.random() < .5: ops += [dict(op='s_from', o=k, data=H(rb(r, x[1]))), dict(op=p+'_script', o=1, p=k)]; k += 1
            else: ops.append(dict(op=p+'_data', o=1, data=H(rb(r, x[1]))))
            if r.random() < .4: ops.append(get(1))
        yield ops+[get(1)]+([] if wit else [dict(op='s_type', o=1)])
    mu = [h for h in hs if h[0] == 'multi']
    for w, m, h in [h for h in mu if len(h[2]) == 1]+pick(r, mu, n):
        K = {k: r.choice(secs) for k in (1, 2, 3)}; K[11], K[12] = unc
        yield [dict(op='s_multi', o=1, m=m, sorted=q, keys=','.join(H(K[x]) for x in h)) for q in (0, 1)]+[get(1), dict(op='s_type', o=1)]
    for w, m, h in pick(r, [h for h in hs if h[0] == 'tpl'], n):
        d, t = h[:2]; h20, h32 = rb(r, 20), rb(r, 32)
        b = bytearray({'pkh': b'\x76\xa9\x14'+h20+b'\x88\xac', 'wpkh': b'\0\x14'+h20, 'wsh': b'\0\x20'+h32}.get(t, b'\xa9\x14'+h20+b'\x87'))
        if len(h) == 4: b[h[2]-1] = h[3]
        ops = [dict(op='s_from', o=1, data=H(b)), get(1), dict(op='s_type', o=1)]
        if len(h) == 2:
            ops += [dict(op='pub_new', o=2, sec=H(gt.rpub(r, d == 33)))]+[dict(op='s_kind', o=10+j, p=2, t=x) for j, x in enumerate(['pkh', 'wpkh', 'P2SH_P2WPKH'])]
            ops += [dict(op='s_wrap', o=20, p=1, t=r.choice(['sh', 'wsh'])), dict(op='s_type', o=20), dict(op='s_wrap', o=21, p=20, t=r.choice(['sh', 'wsh'])), get(21)]
        yield ops

import gen_psbt as gp
def psbts(ms, r, n):
    """histories of MC_Psbt with real wallets: a file for two inputs, signers in any order, written and read back, late records"""
    HD_ = gp.HARD
    for kinds, pats, unk, hist in pick(r, hists(ms, 'MC_Psbt'), n):
        W = {'A': gp.Wallet(r), 'B': gp.Wallet(r)}; A, B = W['A'], W['B']; base = r.choice([[], [84+HD_, HD_], [48+HD_, HD_, 7+HD_]])
        path = lambda i, a: base+[a+HD_, 0, i]
        ins = []; secs = []; amts = [r.getrandbits(40)+10**6 for _ in range(2)]
        for i in (1, 2):
            pat = pats[i-1]; kind = kinds[i-1]; a, b = path(i, 0), path(i, 1); D = lambda w, fp, sec, pa: gp.der_rec(r, 6, sec, fp, pa)
            ds = {'none': [], 'blind': [], 'A': [D(A, A.fp, A.pub(a), a)], 'B': [D(B, B.fp, B.pub(a), a)], 'AB': [D(A, A.fp, A.pub(a), a), D(B, B.fp, B.pub(a), a)],
                  'BA': [D(B, B.fp, B.pub(a), a), D(A, A.fp, A.pub(a), a)], 'A2': [D(A, A.fp, A.pub(b), b)], 'Aacc': [D(A, A.fp, A.pub(a[:-2]), a[:-2])], 'Aroot': [D(A, A.fp, A.pub([]), [])],
                  'Afp': [D(A, rb(r, 4), A.pub(a), a)], 'Apath': [D(A, A.fp, A.pub(a), b)], 'Bkey': [D(B, A.fp, B.pub(a), a)]}[pat]
            sec = ds[0][0][1:] if ds else gp.pub(gp.rkey(r)); sc = gp.multi(1, [sec, gp.pub(gp.rkey(r))]); wp = b'\0\x14'+gp.h160(sec)
            spk = {'pkh': gp.pkh(gp.h160(sec)), 'wpkh': wp, 'shwpkh': gp.shs(wp), 'wsh': b'\0\x20'+gp.sha(sc), 'sh': gp.shs(sc)}[kind]
            recs = {'shwpkh': [(b'\4', wp)], 'wsh': [(b'\5', sc)], 'sh': [(b'\4', sc)]}.get(kind, [])
            h, idx = rb(r, 32), r.randrange(4)
            if kind in ('pkh', 'sh'): t = gp.prev_tx(r, amts[i-1], spk, idx); h = t.txid(); u = [(b'\0', t.enc())]
            else: u = [(b'\1', gp.txout(amts[i-1], spk))]
            if pat == 'blind': u = []
            recs = u+recs+ds
            if r.random() < .5: r.shuffle(recs)
            if unk: recs.insert(r.randrange(len(recs)+1), gp.unknown(r, [k for k, _ in recs], [3, 9, 200]))
            secs.append(recs); ins.append((h, idx, b'', i, []))
        p = gp.P(); p.t = gp.T(2, ins, [(r.getrandbits(20), rb(r, 22))], 0); p.ins = secs; p.outs = [[gp.unknown(r, [], [3, 9, 200])] if unk else []]
        if r.random() < .5:                  # all records in the file, or some added one at a time
            late0 = []
        else:
            late0 = [(j, secs[j].pop()) for j in (0, 1) if secs[j]]
        ops = [new(1, 'psbt'), A.new(5), B.new(6)]+gp.chunks(r, p.enc())+[dict(op='ps_add', o=1, i=j+1, key=H(k), val=H(v)) for j, (k, v) in late0]+[get(1)]
        for x in hist:
            if x[0] == 'sign': ops += [dict(op='ps_sign', o=1, p=5 if x[1] == 'A' else 6), get(1)]
            elif x[0] == 'late': a = path(1, 0); k, v = gp.der_rec(r, 6, A.pub(a), A.fp, a); ops += [dict(op='ps_add', o=1, i=1, key=H(k), val=H(v)), get(1)]
            elif x[0] == 'reload': ops += [dict(op='ps_again', o=2, p=1, fmt=r.choice(['raw', 'hex', 'b64'])), get(2), dict(op='copy', o=3, p=2), dict(op='assign', o=1, p=3), get(1)]
        ops += [dict(op='ps_sign', o=1, p=r.choice([5, 6])), get(1), dict(op='ps_b64', o=1)]
        yield ops
def owning(ms, r, n):
    """cases of MC_Own in PSBT files"""
    AM = [0, 1, 546, 65536, 2**32, 2**63-1, 2**63, 2**64-1]; hs = hists(ms, 'MC_Own')
    for w, a, b in pick(r, [h for h in hs if h[0] == 'fee'], n):
        p = gp.P(); p.ins = [[] if x == 0 else [(b'\1', gp.txout(AM[x-1], b'\x51'))] for x in a]; p.outs = [[] for _ in b]
        p.t = gp.T(2, [(rb(r, 32), 0, b'', 1, []) for _ in a], [(AM[x-1], rb(r, 2)) for x in b], 0)
        yield [new(1, 'psbt'), feed(1, p.enc(), r.choice(FMTS)), get(1)]
    pv = [h for h in hs if h[0] == 'prev']; ok = [h for h in pv if h[3] in ('txid', 'witless')]
    for w, k, seg, c, d, e in pick(r, ok, n)+pick(r, pv, n//2):
        t = gp.rtx(r, nin=1, nout=k, segwit=False); h, i_, s_, q_, _ = t.ins[0]; t.ins[0] = (h, i_, s_, q_, [b'\1\2'] if seg else []); tid = t.txid()
        h = {'txid': tid, 'witless': tid, 'wtxid': gp.dsha(t.enc()), 'other': bytes([tid[0] ^ 1])+tid[1:] if r.random() < .5 else tid[:31]+bytes([tid[31] ^ 1])}[c]
        ix = int.from_bytes(bytes(d), 'little'); am, sc = t.outs[ix] if ix < k else t.outs[0]
        wu = (b'\1', gp.txout(am ^ r.choice([1, 1 << 32, 1 << 63]) if e[1] == 'amt' else am, sc+b'\0' if e[1] == 'script' else sc)); pr = (b'\0', t.enc())
        p = gp.P(); p.ins = [{'no': [pr], 'before': [wu, pr], 'after': [pr, wu]}[e[0]]]; p.outs = [[]]; p.t = gp.T(2, [(h, ix, b'', 1, [])], [(5, b'')], 0)
        yield [new(1, 'psbt')]+gp.chunks(r, p.enc())+[get(1)]
    PA = [[], [0], [0, 1], [gp.HARD], [0, 1+gp.HARD]]
    for w, b, c in pick(r, [h for h in hs if h[0] == 'mine'], n):
        A, B = gp.Wallet(r), gp.Wallet(r); neg = lambda q, k: bytes([k[0] ^ 1])+k[1:] if q[0] == 'neg' else k; recs = [gp.der_rec(r, 2, neg(q, (B if q[0] == 'other' else A).pub(PA[q[1]-1])), r.choice([A.fp, B.fp, rb(r, 4)]), PA[q[2]-1]) for q in (b, c) if q]
        if not gp.dup_free(recs): recs.pop()
        p = gp.P(); p.ins = [[]]; p.outs = [recs]; p.t = gp.T(2, [(rb(r, 32), 0, b'', 1, [])], [(5, b'')], 0)
        if r.random() < .3: p.outs.append([]); p.t.outs.append((6, b''))
        ops = [new(1, 'psbt'), A.new(5), B.new(6), dict(op='hd_xpub', o=7, p=5), dict(op='hd_xpub', o=8, p=6)]+gp.chunks(r, p.enc())
        yield ops+[dict(op='ps_mine', o=1, p=k, i=i) for i in (0, 1) for k in (5, 6, 7, 8)]+[get(1)]
def electrums(ms, r, n):
    """histories of MC_El: files of both formats, two accounts signing in any order"""
    for seg, own, ver, hist in pick(r, hists(ms, 'MC_El'), n):
        a, b = gp.acct(r), gp.acct(r); AC = dict(A=a, B=b, Acc=(a[0], rb(r, 32))+a[2:], neg=(gp.N-a[0],)+a[1:])
        e = gp.El(r, not seg, [a], len(own))
        for i, o, v in zip(e.ins, own, ver):
            x = AC[o]; i['x'] = gp.VPUB['xyz'.index(v)+r.choice([0, 5])]+bytes([x[2]])+x[3]+x[4]+x[1]+gp.pub(x[0])
        ops = [new(1, 'etx'), gp.hd_of(5, a, r), gp.hd_of(6, b, r)]+gp.chunks(r, e.enc())+[get(1)]
        for w in hist:
            ops += [dict(op='el_sign', o=1, p=5 if w == 'A' else 6), get(1)]
            if r.random() < .2: ops += [dict(op='copy', o=2, p=1), dict(op='assign', o=1, p=2), dict(op='del', o=2)]
        yield ops
