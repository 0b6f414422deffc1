#!/usr/bin/env python3
"""plant.py ID: with a planted bug in /repo's working tree (or in seeded/ID/patch.diff), confirm it counts and see whether the check catches it."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def build(): r = sh('bash /opt/vp/build.sh'); return r.returncode == 0 or print(r.stdout[-1500:])
def demo(d): r = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300); return r.returncode, r.stdout[-600:]
for pid in sys.argv[1:]:
    d = os.path.join(V, 'seeded', pid); prop = json.load(open(d + '/meta.json'))['property']
    diff = sh('git -C /repo diff').stdout
    if diff.strip(): open(d + '/patch.diff', 'w').write(diff)
    else:
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode: print(pid, 'DOES NOT APPLY', r.stdout); continue
    try:
        ok = []
        if not build(): print(pid, 'DOES NOT BUILD'); continue
        t = sh('bash /opt/vp/test.sh /tmp/plant.json'); base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open('/tmp/plant.json'))
        stable = base.get('stable') or base.get('passed') or base.get('tests') or base
        miss = [x for x in stable if x not in res['passed']] if isinstance(stable, list) else ['?']
        if miss: ok.append(f'TESTS FAIL {miss[:4]}')
        rc, out = demo(d)
        if rc == 0: ok.append('DEMO PASSES WITH THE BUG')
        c = sh(f'python3 {V}/harness/check.py {prop}')
        ok.append(f'check {prop}: ' + ('caught' if c.returncode == 1 and f'VIOLATION property={prop}' in c.stdout else f'NOT CAUGHT (exit {c.returncode})'))
        detail = [l for l in c.stdout.split('\n') if 'VIOLATION' not in l and l.strip()][:3]
    finally: sh('git -C /repo checkout -- .')
    build()
    rc, out = demo(d)
    if rc: ok.append(f'DEMO FAILS WITHOUT THE BUG: {out}')
    print(pid, '; '.join(ok)); print('   ', '\n    '.join(x[:200] for x in detail))
