#!/usr/bin/env python3
"""runs, in a scratch copy, the check of each planted bug's property: runseeds.py [-p ID[,ID]] [seed...]"""
import json, os, subprocess, sys, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
W = '/tmp/rs'
os.makedirs(W, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '--exclude=/_build', '/repo/', W + '/repo'], check=True)
subprocess.run(['rsync', '-a', '--delete', '--exclude=/.git', '--exclude=/seeded', '--exclude=/evidence', V + '/', W + '/verif'], check=True)
os.makedirs(W + '/verif/evidence', exist_ok=True)
a = sys.argv[1:]
props = None
if '-p' in a:
    i = a.index('-p')
    props = a[i + 1].split(',')
    del a[i:i + 2]
CJ = os.path.join(HERE, 'caught.json')
caught = json.load(open(CJ)) if os.path.exists(CJ) else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    n = os.path.basename(d)
    if a and n not in a:
        continue
    m = json.load(open(d + '/meta.json'))
    subprocess.run('git checkout -q -- . && git apply ' + d + '/patch.diff', shell=True, cwd=W + '/repo', check=True)
    for p in props or [m['property']]:
        t = time.time()
        r = subprocess.run(['python3', 'check.py', p], cwd=W + '/verif', capture_output=True, text=True,
                           env=dict(os.environ, CPPPOSIT_REPO=W + '/repo', VERIF_TIER='quick', VERIF_SEED='1'))
        vs = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        c = set(caught.get(n, []))
        (c.add if r.returncode == 1 and any('property=' + p in l for l in vs) else c.discard)(p)
        caught[n] = sorted(c)
        json.dump(caught, open(CJ, 'w'), indent=1, sort_keys=True)
        print('%-24s %s exit=%d viol=%d %4.0fs %s' % (n, p, r.returncode, len(vs), time.time() - t, (r.stdout.strip().split('\n') or [''])[-1][:150] if not vs else ''), flush=True)
subprocess.run('git checkout -q -- .', shell=True, cwd=W + '/repo', check=True)
