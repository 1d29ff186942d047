#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property.
 1. TLC checks the property's design models exhaustively.
 2. Scenarios are generated, executed by the library built from /repo's working tree, and the
    recorded trace is validated by TLC against the specification (module Trace).
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself could not run."""
import os, sys, json, time, random, subprocess, tempfile, shutil, re, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 2)

class CheckError(Exception): pass
def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)

class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.dir = tempfile.mkdtemp(prefix='ubtc-%s-' % prop, dir=os.environ.get('VERIF_SCRATCH'))
        s.cls = os.path.join(s.dir, 'cls'); s.out = os.path.join(s.dir, 'out'); s.driver = os.path.join(s.out, 'driver')
        s.t0 = time.time()
    def log(s, *a): print('[%6.1f]' % (time.time()-s.t0), *a, flush=True)
    def java(s):
        os.makedirs(s.cls)
        p = run(['javac', '-nowarn', '-d', s.cls, '-cp', JARS, os.path.join(VERIF, 'java/UbtcOverrides.java')], 300)
        if p.returncode: raise CheckError('javac failed\n'+p.stdout)
    def build(s):
        os.makedirs(s.out, exist_ok=True)
        p = run(['make', '-s', '-j%d' % NCPU, '-C', os.path.join(VERIF, 'harness'), 'OUT='+s.out, 'REPO='+REPO], 600)
        if p.returncode: raise CheckError('building the driver against %s failed\n%s' % (REPO, p.stdout[-4000:]))
    def tlc(s, module, cfg, env=None, workers='1', timeout=850, heap='3g', extra=()):
        md = tempfile.mkdtemp(prefix='tlc-', dir=s.dir)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx'+heap,
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:UbtcOverrides', '-Djava.io.tmpdir='+md,
               '-cp', s.cls+':'+JARS, 'tlc2.TLC', '-workers', workers, '-noGenerateSpecTE', '-metadir', md,
               *extra, '-config', os.path.join(VERIF, 'spec', cfg), os.path.join(VERIF, 'spec', module+'.tla')]
        e = dict(os.environ); e.update(env or {})
        try: p = run(cmd, timeout, env=e, cwd=md)
        finally: shutil.rmtree(md, ignore_errors=True)
        return p
    def drive(s, scns, tag):
        """run scenarios [(id, ops)]; returns path of the recorded trace"""
        f = os.path.join(s.dir, tag+'.scn'); t = os.path.join(s.dir, tag+'.trace')
        with open(f, 'w') as h:
            for i, ops in scns:
                for o in ops: h.write(json.dumps(dict(s=i, **o), separators=(',', ':'))+'\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=64:malloc_fill_byte=165:max_malloc_fill_size=65536:detect_stack_use_after_return=0:handle_segv=1')
        p = run([s.driver, f, t, '20'], 840, env=env)
        if p.returncode: raise CheckError('driver failed: '+p.stdout[-2000:])
        return t
    def validate(s, trace, depth=0):
        """TLC on one recorded trace: (events, {rejected scenario: [reasons]}).  An event the
        specification cannot even evaluate (a field that is missing or of the wrong form) rejects its
        scenario too; the others are then validated again without it."""
        p = s.tlc('Trace', 'Trace.cfg', env={'TRACE': trace})
        rej, why = {}, []
        txt = re.sub(r'\n\s+', ' ', p.stdout)
        for g in re.finditer(r'<<\s*"(MISMATCH|REJECT)", (.*)', txt):
            if g.group(1) == 'MISMATCH': why.append(g.group(0)[:1500]); continue
            r = re.match(r'(\d+), (\d+), "(\w+)">>', g.group(2))
            if r: rej[int(r.group(1))] = why; why = []
        m = re.search(r'<<"TRACE-END", (\d+), (\d+)>>', p.stdout)
        if m and not p.returncode:
            if len(rej) != int(m.group(2)): raise CheckError('inconsistent rejection count\n'+p.stdout[-3000:])
            return int(m.group(1)), rej
        at = [int(x) for x in re.findall(r'/\\ l = (\d+)', p.stdout)]
        if not at or depth >= 6 or 'Error' not in p.stdout:
            raise CheckError('TLC did not finish validating %s (exit %d)\n%s' % (trace, p.returncode, p.stdout[-5000:]))
        lines = open(trace).read().split('\n'); bad = json.loads(lines[at[-1]-1])['s']
        err = re.search(r'Error: (.*)', txt)
        with open(trace, 'w') as h: h.write('\n'.join(x for x in lines if x and json.loads(x)['s'] != bad)+'\n')
        ev, rej = s.validate(trace, depth+1)
        rej[bad] = ['event cannot be evaluated: %s: %s' % (lines[at[-1]-1][:600], err.group(1)[:300] if err else '')]
        return ev, rej
    def shard(s, scns, tag):
        k = max(1, min(NCPU, len(scns)//4))
        parts = [scns[i::k] for i in range(k)]
        def work(i):
            t = s.drive(parts[i], '%s%d' % (tag, i)); r = s.validate(t)
            if not os.environ.get('VERIF_KEEP'): os.unlink(t)
            return r
        with ThreadPoolExecutor(k) as ex: rs = list(ex.map(work, range(k)))
        ev = sum(r[0] for r in rs); rej = {}
        for r in rs: rej.update(r[1])
        return ev, rej

def known_findings():
    f = os.path.join(VERIF, 'known-findings.jsonl')
    if not os.path.exists(f): return []
    return [json.loads(x) for x in open(f) if x.strip().startswith('{')]

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier')+1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    P = props.PROPS[prop]
    c = Ctx(prop, tier, seed)
    code = 2
    try: code = decide(c, P)
    except CheckError as e: print('CHECK-ERROR', e, flush=True)
    except subprocess.TimeoutExpired as e: print('CHECK-ERROR timeout', str(e)[:300], flush=True)
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(code)

def run_model(c, m):
    p = c.tlc(m['module'], m['cfg'], workers=str(m.get('workers', 2)), heap=m.get('heap', '4g'), extra=m.get('extra', ()), timeout=m.get('timeout', 850))
    if p.returncode:
        raise CheckError('model %s/%s: TLC exit %d\n%s' % (m['module'], m['cfg'], p.returncode, p.stdout[-3000:]))
    g = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    d = re.search(r'depth of the complete state graph search is (\d+)', p.stdout)
    r = dict(model=m['module'], cfg=m['cfg'], generated=int(g.group(1)) if g else 0, distinct=int(g.group(2)) if g else 0, depth=int(d.group(1)) if d else 0)
    hist = []
    for line in p.stdout.split('\n'):   # behaviours exported by the model
        if line.startswith('"HIST') or line.startswith('"["HIST'): hist.append(line)
    r['hist'] = hist
    return r

def decide(c, P):
    scale = P.get('thorough', 10*P['quick']) if c.tier == 'thorough' else P['quick']
    models = list(P.get('models', ()))+(list(P.get('models_thorough', ())) if c.tier == 'thorough' else [])
    with ThreadPoolExecutor(8) as ex:
        jb = ex.submit(c.build); jj = ex.submit(c.java)
        jj.result()
        jm = [ex.submit(run_model, c, m) for m in models]
        rng = random.Random('%s-%d-%s' % (c.prop, c.seed, c.tier))
        scns = []
        for g in P['gens']:
            for ops in g(rng, scale): scns.append((len(scns), ops))
        jb.result()
        c.log('built driver and overrides; %d scenarios' % len(scns))
        ms = [j.result() for j in jm]
    for m in ms: c.log('model %(model)s/%(cfg)s: %(generated)d states generated, %(distinct)d distinct, depth %(depth)d: no violation' % m)
    if P.get('from_models'):
        for ops in P['from_models'](ms, rng, scale): scns.append((len(scns), ops))
    byid = dict(scns)
    ev, rej = c.shard(scns, 'a')
    c.log('validated %d recorded events of %d scenarios; %d rejected' % (ev, len(scns), len(rej)))
    # binding: a corrupted record must be rejected
    viol = []
    if rej:
        again = sorted(rej)[:40]
        ev2, rej2 = c.shard([(i, byid[i]) for i in again], 'b')
        viol = [(i, rej2[i]) for i in again if i in rej2]
        if not viol: c.log('NOTE: rejection not reproduced, ignored: %s' % again)
    kf = known_findings(); out = []
    for i, why in viol:
        key = hashlib.sha256(json.dumps(byid[i], sort_keys=True).encode()).hexdigest()[:16]
        hit = None
        for k in kf:
            if k.get('status') == 'open' and k['property'] == c.prop and props_match(k, byid[i], why): hit = k
        if hit: print('KNOWN-FINDING: property=%s %s' % (c.prop, hit['what']), flush=True); continue
        out.append((i, why, key))
    neg = negative_control(c, byid)
    wall = time.time()-c.t0
    evd = dict(property=c.prop, tier=c.tier, seed=c.seed, level='model_checking',
        coverage=dict(states=sum(m['distinct'] for m in ms)+ev+1, transitions=sum(max(0, m['generated']-1) for m in ms)+ev,
            traces_validated_against_impl=len(scns), events_validated=ev,
            models=[{k: v for k, v in m.items() if k != 'hist'} for m in ms],
            behaviours_from_models=sum(len(m['hist']) for m in ms),
            ops=opcount(scns), negative_control=neg,
            samples=[[json.dumps(o)[:300] for o in byid[i][:8]] for i in sorted(byid)[::max(1, len(byid)//3)][:3]]),
        assumptions=P.get('assumptions', [])+['java.security SHA-2, the Java RIPEMD-160 and BigInteger arithmetic of the specification overrides are correct',
            'AddressSanitizer detects the memory errors exercised'],
        wall_s=round(wall, 1), violations=len(out))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', c.prop+'.json'), 'w') as h: json.dump(evd, h, indent=1); h.write('\n')
    if out:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for i, why, key in out[:10]:
            f = os.path.join(VERIF, 'replay', '%s-%s.ndjson' % (c.prop, key))
            with open(f, 'w') as h:
                for o in byid[i]: h.write(json.dumps(dict(s=i, **o))+'\n')
            for w in why[:4]: print('   ', w[:600])
            print('VIOLATION property=%s replay=%s' % (c.prop, f), flush=True)
        return 1
    if neg != 'rejected': raise CheckError('negative control was not rejected: the validation is not binding')
    c.log('property %s held on everything explored' % c.prop)
    return 0

def opcount(scns):
    d = {}
    for _, ops in scns:
        for o in ops: d[o['op']] = d.get(o['op'], 0)+1
    return d
def props_match(k, ops, why):
    blob = json.dumps(ops)
    return all(re.search(x, blob) for x in k.get('match_ops', [])) and all(any(re.search(x, w) for w in why) for x in k.get('match_why', [])) and (k.get('match_ops') or k.get('match_why'))

def negative_control(c, byid):
    """corrupt one recorded result and require the specification to reject the trace"""
    for i in sorted(byid):
        if len(byid[i]) > 200: continue
        t = c.drive([(i, byid[i])], 'neg'); lines = open(t).read().split('\n')
        for n in range(len(lines)-1, -1, -1):
            ln = lines[n]
            if not ln: continue
            e = json.loads(ln); orig = byid[i][n-1] if 0 < n <= len(byid[i]) else {}
            for k in e:
                if k in orig or k in ('s', 'op', 'why'): continue
                if isinstance(e[k], str) and len(e[k]) >= 8 and re.fullmatch(r'[0-9a-f]+', e[k]):
                    if e['op'] == 'ws_del': e['mem'] = e['live']     # as if nothing had been erased
                    else: e[k] = ('0' if e[k][0] != '0' else '1')+e[k][1:]
                    lines[n] = json.dumps(e); open(t, 'w').write('\n'.join(lines))
                    ev, rej = c.validate(t)
                    if rej: return 'rejected'
                    break
            else: continue
            break
        if i > min(byid)+60: break
    return 'not rejected'
if __name__ == '__main__': main()
