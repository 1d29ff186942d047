"""Histories of several calls in one process that are almost alike: the specification has no state besides the live objects, so
whatever was computed before, for whatever similar input, must not show. `near` repeats a call with one argument changed a little,
in between repetitions of the first; `twin` runs a scenario and a slightly different copy of it, step by step, side by side."""
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
# arguments in which a byte may be changed to any other value
BYTES = {('verify', 'h'), ('verify', 'sig'), ('sverify', 'h'), ('sverify', 'sig'), ('hp_verify', 'h'), ('sign', 'h'), ('ssign', 'h'), ('hash', 'data'), ('hash', 'key'), ('enc', 'data'), ('mn_gen', 'data'),
         ('varint', 'v'), ('rvarint', 'data'), ('ints', 'v'), ('h_write', 'data'), ('h_byte', 'data'), ('to_new', 'amt'), ('ti_new', 'id'), ('ti_new', 'idx'), ('ti_new', 'seq'), ('tx_set', 'ver'), ('tx_set', 'lock'),
         ('hd_new', 'cc'), ('hd_new', 'fp'), ('hp_new', 'cc'), ('hp_new', 'fp'), ('hd_seed', 'seed'), ('w_data', 'data'), ('s_data', 'data'), ('s_from', 'data'), ('tx_sighash', 'amt'), ('tx_sighash', 'script'), ('hd_mnemonic', 'pass')}
# texts: a character is replaced by another one of the same text
TEXT = {('dec', 'data'), ('desc', 'data'), ('mn_check', 'm'), ('fromwif', 'data'), ('s_addr', 'data'), ('s_addrs', 'data'), ('hd_str', 'data'), ('hp_str', 'data'), ('b64hex', 'data')}
KEYS = {('sign', 'key'), ('ssign', 'key'), ('ecdh', 'a'), ('ecdh', 'b'), ('addrs', 'key'), ('prv_addr', 'key'), ('wif', 'key'), ('pubkey', 'key'), ('hd_new', 'key')}
POINTS = {('verify', 'sec'), ('sverify', 'sec'), ('sec', 'data'), ('pub_new', 'sec'), ('pt_op', 'a'), ('pt_op', 'b')}
PURE = {'verify', 'sverify', 'sign', 'ssign', 'hash', 'enc', 'dec', 'desc', 'mn_check', 'mn_gen', 'fromwif', 'ecdh', 'addrs', 'prv_addr', 'wif', 'pubkey', 'sec', 'varint', 'rvarint', 'ints', 'b64hex', 'pt_op', 'sc_op', 'sig_index'}
MAKES = {'s_addr', 's_addrs', 'hd_str', 'hp_str', 'sig_ctor', 'ssig_ctor', 'sc_ctor', 'pt_ctor', 'hd_seed'}
def places(o):
    return [k for k, v in o.items() if isinstance(v, str) and len(v) > 1 and any((o['op'], k) in S for S in (BYTES, TEXT, KEYS, POINTS))]
def tweak(rng, o, k=None):
    """o with one argument changed a little (or None)"""
    c = places(o)
    if k is None:
        if not c: return None
        k = rng.choice(c)
    try: b = bytearray(bytes.fromhex(o[k]))
    except ValueError: return None
    if not b: return None
    if (o['op'], k) in BYTES:
        i = rng.choice([0, len(b)-1, rng.randrange(len(b)), rng.randrange(len(b))])
        b[i] ^= rng.choice([1, 0x80, rng.randrange(1, 256)])
    elif (o['op'], k) in TEXT:
        i = rng.choice([0, len(b)-1, rng.randrange(len(b))]); b[i] = rng.choice(b)
    elif (o['op'], k) in KEYS:
        v = int.from_bytes(b, 'big')
        if not 2 < v < N-2 or len(b) != 32: return None
        b = bytearray((rng.choice([v+1, v-1, N-v])).to_bytes(32, 'big'))
    else:
        if b[0] not in (2, 3): return None
        b[0] ^= 1
    r = dict(o); r[k] = bytes(b).hex()
    if k == 'h' and int.from_bytes(b, 'big') % N == 0: return None   # a digest of zero is left open
    return r if r != o else None
def mix(rng, a, b):
    if a['op'].endswith('_ctor'): return None   # data and form belong together
    ks = [k for k in a if k in b and k not in ('op', 'o', 'p', 'q', 's', 'f') and a[k] != b[k]]
    if not ks: return None
    k = rng.choice(ks); r = dict(a); r[k] = b[k]
    return r
def near(gen, size, every=1):
    def g(rng, n):
        pool = {}
        for ops in gen(rng, size):
            for o in ops:
                if o['op'] in PURE or o['op'] in MAKES and not o.get('p'):
                    if sum(len(v) for v in o.values() if isinstance(v, str)) < 700: pool.setdefault((o['op'], o.get('f')), []).append(o)
        kinds = sorted(pool, key=str)
        for t in range(max(len(kinds), n//every)):
            if not kinds: return
            kk = kinds[t % len(kinds)]; a = rng.choice(pool[kk]); out = [a]
            tw = places(a); todo = list(tw)
            for i in range(rng.randrange(4, 9)):
                k = todo.pop() if todo else (rng.choice(tw) if tw else None)
                b = tweak(rng, a, k) if k and rng.random() < .7 else None
                if b is None: b = mix(rng, a, rng.choice(pool[kk]))
                if b is None: b = rng.choice(pool[kk])
                out.append(b)
                if rng.random() < .5: out.append(a)
            out.append(a)
            yield [dict(o, o=j+1) if 'o' in o else dict(o) for j, o in enumerate(out)]
    return g
def tfeed(rng, o, kind, free):
    """a complete encoding with a byte of a number field changed (free: any byte)"""
    b = bytearray(bytes.fromhex(o['data']))
    if not b or o.get('fmt', 'raw') != 'raw': return None
    if free: c = range(len(b))
    elif kind == 'tx' and len(b) >= 60: c = list(range(4))+list(range(len(b)-4, len(b)))
    elif kind == 'txin' and len(b) >= 41: c = list(range(36))+list(range(len(b)-4, len(b)))
    elif kind == 'txout' and len(b) >= 9: c = range(8)
    elif kind == 'psbt' and len(b) >= 60 and b[:5] == b'psbt\xff' and b[5:7] == b'\1\0':
        i = 7+{0xfd: 3, 0xfe: 5}.get(b[7], 1); c = range(i, i+4)
    else: return None
    b[rng.choice(list(c))] ^= rng.choice([1, 0x80, rng.randrange(1, 256)])
    return dict(o, data=bytes(b).hex())
OFF = 5000
def shift(o):
    return {k: (v+OFF if k in ('o', 'p', 'q') and isinstance(v, int) else v) for k, v in o.items()}
def twin(gen, size, count, free=False, limit=6000):
    """count(n) scenarios of gen, each next to a copy of itself with a few arguments changed"""
    def g(rng, n):
        want = count(n); all_ = [s for s in gen(rng, size) if sum(len(v) for o in s for v in o.values() if isinstance(v, str)) < limit and len(s) < 60]
        rng.shuffle(all_)
        for s in all_[:want]:
            s = [o for o in s if o['op'] != 'end']
            t = [dict(o) for o in s]; kind = {o['o']: o['k'] for o in s if o['op'] == 'new'}; fed = [o['o'] for o in s if o['op'] == 'feed']
            c = [i for i, o in enumerate(t) if places(o) or o['op'] == 'feed' and (free or fed.count(o['o']) == 1)]
            for i in rng.sample(c, min(len(c), rng.choice([1, 1, 2, 3]))):
                w = tfeed(rng, t[i], kind.get(t[i]['o']), free) if t[i]['op'] == 'feed' else tweak(rng, t[i])
                if w: t[i] = w
            t = [shift(o) for o in t]; out = []
            if rng.random() < .5:
                for a, b in zip(s, t): out += [a, b]
            else: out = s + t
            yield out
    return g
