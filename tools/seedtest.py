#!/usr/bin/env python3
"""seedtest.py [--demo] [--check] [id ...]: confirm planted changes of seeded/ against /repo.
--demo : builds, passes the tests, demo.sh fails with the change and passes without it
--check: the property's quick check exits 1 with its VIOLATION line.  /repo is always put back."""
import os, sys, json, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, t=900, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
def tests():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: return 'BUILD FAILED '+b.stdout[-800:]
    sh('bash /opt/vp/test.sh /tmp/seed_o.json'); o = json.load(open('/tmp/seed_o.json'))
    return '' if len(o['passed']) >= 10 and not o.get('failed') else 'TESTS '+str(o)
a = sys.argv[1:]; demo = '--demo' in a; check = '--check' in a; ids = [x for x in a if x[:2] != '--'] or sorted(os.listdir(V+'/seeded'))
assert not sh('git -C /repo status --short').stdout
if demo: assert not tests()
for i in ids:
    d = V+'/seeded/'+i; meta = json.load(open(d+'/meta.json')); res = []
    if demo:
        p = sh('bash %s/demo.sh' % d, cwd='/repo'); res.append('demo clean %d' % p.returncode)
        if p.returncode: res.append(p.stdout[-500:])
    p = sh('git -C /repo apply %s/patch.diff' % d)
    if p.returncode: print(i, 'PATCH DOES NOT APPLY', p.stdout); continue
    try:
        if demo:
            t = tests(); res.append(t or 'tests pass')
            p = sh('bash %s/demo.sh' % d, cwd='/repo'); res.append('demo patched %d' % p.returncode)
        if check:
            p = sh('python3 %s/tools/check.py %s' % (V, meta['property']), env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            res.append('check exit %d %s' % (p.returncode, 'CAUGHT' if p.returncode == 1 and 'VIOLATION property='+meta['property'] in p.stdout else 'MISSED'))
            if p.returncode not in (0, 1): res.append(p.stdout[-700:])
    finally: sh('git -C /repo checkout -- .')
    print(i, meta['property'], '; '.join(res), flush=True)
if demo: tests()
