"""Secrets in storage: keys made, read (in part, wrongly), copied, replaced, used and destroyed."""
from gen_tx import *
import gen_keys as gk
def sec(r): return gk.b32(r.randrange(1 << 200, gk.N))
def ser(k, d, cc, r):
    if k != 'hdprv': return d
    return bytes.fromhex(r.choice(['0488ade4', '04358394', '049d7878', '04b2430c']))+bytes([r.randrange(256)])+rb(r, 8)+cc+b'\0'+d
def txt(k, d, cc, r):
    if k == 'prv': return gk.b58c(bytes([r.choice([128, 239])])+d+(b'\1' if r.random() < .7 else b'')).encode()
    return gk.b58c(ser(k, d, cc, r)).encode()
def typo(r, t):
    i = r.randrange(len(t)//2, len(t)); c = r.choice([x for x in gk.B58 if x != chr(t[i])])
    return r.choice([t[:i]+c.encode()+t[i+1:], t[:-1], t+b'2', t[:i]])
def make(r, o, k, d, cc):
    hows = dict(scalar=['bytes', 'hex'], prv=['bytes', 'text'], hdprv=['bytes', 'text', 'seed'])[k]; how = r.choice(hows)
    return dict(op='ws_new', o=o, k=k, how=how, data=H(txt(k, d, cc, r) if how == 'text' else d), cc0=H(cc) if k == 'hdprv' else '')
def empty(o, k): return dict(op='ws_new', o=o, k=k, how='empty', data='', cc0='')
def F(op, o, data): return dict(op=op, o=o, data=H(data))
def c25(r, n):
    for j in range(n):
        k = r.choice(['scalar', 'prv', 'hdprv', 'hdprv']); ops = []; live = []; nxt = 1
        for _ in range(r.randrange(3, 12)):
            d, cc = sec(r), rb(r, 32); x = r.random()
            if not live or x < .2:
                o = nxt; nxt += 1; y = r.random()
                if y < .3: ops.append(empty(o, k))
                elif y < .4 and k == 'prv': ops += [dict(op='ws_new', o=100+o, k='scalar', how='bytes', data=H(d), cc0=''), dict(op='ws_key', o=o, p=100+o), dict(op='ws_del', o=100+o)]
                elif y < .5 and k == 'scalar' and len(live) > 0: ops.append(dict(op='ws_sum', o=o, p=r.choice(live), q=r.choice(live)))
                elif y < .6 and live: ops.append(dict(op='ws_copy', o=o, p=r.choice(live)))
                else: ops.append(make(r, o, k, d, cc))
                live.append(o); continue
            o = r.choice(live)
            if x < .3: ops.append(dict(op='ws_assign', o=o, p=r.choice(live)))
            elif x < .45:
                b = ser(k, d, cc, r); cs = sorted(r.sample(range(1, len(b)), r.choice([0, 1, 1, 2]))); cs = [0]+cs+[len(b)]
                if r.random() < .4: cs = cs[:-1]
                for a, z in zip(cs, cs[1:]): ops.append(F('ws_feed', o, b[a:z]))
            elif x < .55 and k != 'scalar':
                t = txt(k, d, cc, r); ops.append(F('ws_text', o, t if r.random() < .6 else typo(r, t)))
            elif x < .62 and k != 'hdprv': ops.append(F('ws_set', o, d))
            elif x < .7: ops.append(dict(op='ws_use', o=o))
            elif x < .85: ops.append(dict(op='ws_mem', o=o))
            else: ops.append(dict(op='ws_del', o=o)); live.remove(o)
        for o in live: ops += [dict(op='ws_mem', o=o), dict(op='ws_del', o=o)]
        yield ops
    # children, each destroyed; systematic: every number of bytes read before destruction
    for j in range(max(2, n//20)):
        d, cc = sec(r), rb(r, 32); ops = [make(r, 1, 'hdprv', d, cc)]
        for i in range(2, 5): ops.append(dict(op='ws_kid', o=i, p=i-1, i=r.choice([0, 1, 44, 2**31-1]) if r.random() < .5 else r.randrange(1 << 31), hard=r.randrange(2)))
        ops += [dict(op='ws_use', o=3)]
        for i in r.sample(range(1, 5), 4): ops += [dict(op='ws_mem', o=i), dict(op='ws_del', o=i)]
        yield ops
    for k, L in (('scalar', 32), ('prv', 32), ('hdprv', 78)):
        d, cc = sec(r), rb(r, 32); b = ser(k, d, cc, r)
        for c in range(1, L+1):
            if k == 'hdprv' and c < 13: continue
            ops = [empty(1, k) if r.random() < .5 else make(r, 1, k, sec(r), rb(r, 32)), F('ws_feed', 1, b[:c])]
            if r.random() < .3: ops.append(dict(op='ws_copy', o=2, p=1))
            ops += [dict(op='ws_del', o=1)]
            if ops[-2]['op'] == 'ws_copy': ops.append(dict(op='ws_del', o=2))
            yield ops
    # out of range values, refused
    for k in ('scalar', 'prv', 'hdprv'):
        for v in (gk.N, gk.N+r.getrandbits(60), 2**256-1-r.getrandbits(100), 0):
            d, cc = v.to_bytes(32, 'big'), rb(r, 32); ops = [empty(1, k), F('ws_feed', 1, ser(k, d, cc, r)), dict(op='ws_mem', o=1), dict(op='ws_del', o=1)]
            if k != 'scalar': ops += [empty(2, k), F('ws_text', 2, txt(k, d, cc, r)), dict(op='ws_del', o=2)]
            yield ops
    if n: yield [dict(op='ws_new', o=1, k='hdprv', how='text', data=H(typo(r, txt('hdprv', sec(r), rb(r, 32), r))), cc0=''), dict(op='ws_del', o=1)]

import gen_hist as hi
def wipes(ms, r, n):
    """histories of MC_Wipe"""
    for k, h in hi.pick(r, hi.hists(ms, 'MC_Wipe'), n):
        val = {v: (sec(r), rb(r, 32)) for v in 'ab'}; ops = []; rest = {}
        for op in h:
            o = op[1]
            if op[0] == 'new': ops.append(empty(o, k))
            elif op[0] == 'make': ops.append(make(r, o, k, *val[op[2]]))
            elif op[0] == 'text': ops.append(F('ws_text', o, txt(k, *val[op[2]], r)))
            elif op[0] == 'typo': ops.append(F('ws_text', o, typo(r, txt(k, *val[op[2]], r))))
            elif op[0] == 'part': b = ser(k, *val[op[2]], r); c = len(b)-r.randrange(1, 32); rest[o] = b[c:]; ops.append(F('ws_feed', o, b[:c]))
            elif op[0] == 'rest': ops.append(F('ws_feed', o, rest[o]))
            elif op[0] == 'set': ops.append(F('ws_set', o, val[op[2]][0]))
            elif op[0] in ('copy', 'assign'):
                ops.append(dict(op='ws_'+op[0], o=o, p=op[2]))
                if op[2] in rest: rest[o] = rest[op[2]]
            elif op[0] == 'use': ops.append(dict(op='ws_use', o=o))
            elif op[0] == 'del': ops.append(dict(op='ws_del', o=o))
        live = set()
        for op in ops: (live.discard if op['op'] == 'ws_del' else live.add)(op['o'])
        for o in sorted(live): ops += [dict(op='ws_mem', o=o), dict(op='ws_del', o=o)]
        yield ops
