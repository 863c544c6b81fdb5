#!/usr/bin/env python3
"""behaviour preserving rewritings: every check must stay quiet and give an answer on them.
runrefac.py [-p ID[,ID]] [name[+name]...]   (edits of tools/refac/*.py, run in scratch copies)"""
import json, os, subprocess, sys, time, glob, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
W = os.environ.get('RF_DIR', '/tmp/rf')
os.makedirs(W, exist_ok=True)
a = sys.argv[1:]
props = ['C%02d' % i for i in range(1, 27)] + ['C29']
if '-p' in a:
    i = a.index('-p')
    props = a[i + 1].split(',')
    del a[i:i + 2]
subprocess.run(['rsync', '-a', '--delete', '--exclude=/.git', '--exclude=/seeded', '--exclude=/evidence', V + '/', W + '/verif'], check=True)
os.makedirs(W + '/verif/evidence', exist_ok=True)
for n in a or sorted(os.path.basename(f)[:-3] for f in glob.glob(HERE + '/refac/*.py')):
    subprocess.run(['rsync', '-a', '--delete', '--exclude=/_build', '/repo/', W + '/repo'], check=True)
    for part in n.split('+'):
        for file, old, new in runpy.run_path(HERE + '/refac/' + part + '.py')['EDITS']:
            p = os.path.join(W, 'repo', file)
            s = open(p).read()
            assert s.count(old) == 1, (n, file, s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
    for p in props:
        t = time.time()
        r = subprocess.run(['python3', 'check.py', p], cwd=W + '/verif', capture_output=True, text=True,
                           env=dict(os.environ, CPPPOSIT_REPO=W + '/repo', VERIF_TIER='quick', VERIF_SEED='1'))
        vs = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        ev = {}
        try:
            ev = json.load(open(W + '/verif/evidence/%s.json' % p))['coverage']
        except Exception:
            pass
        dt = time.time() - t
        print('%-14s %s exit=%d viol=%d %4.0fs obl=%s undec=%s %s%s' % (n, p, r.returncode, len(vs), dt, ev.get('obligations'), ev.get('undecided'),
              '' if r.returncode == 0 and dt < 400 else 'BAD ', ((r.stderr or r.stdout).strip().split('\n') or [''])[-1][:160] if r.returncode else ''), flush=True)
