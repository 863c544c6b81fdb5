#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from tools/seeds/*.py and validates each planted bug in a scratch copy of /repo

   mkseeded.py [-n] [ID...]      -n: only write, no build
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = '/repo'
BASE = '04e2d28'
SEEDS = []


def load():
    for f in sorted(glob.glob(HERE + '/seeds/*.py')):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        SEEDS.extend(m.SEEDS)


SH = '''#!/bin/bash
# run with cwd /repo: builds the demonstration against the headers there
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r -- "$t"' EXIT
%s
'''
DEF = '''g++ -std=c++14 -w %s -I include "$d/demo.cpp" %s -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''


def write(s):
    """creates the folder; returns its path"""
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        for side in 'ab':
            for f in {e[0] for e in s['edits']}:
                p = os.path.join(w, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join(REPO, f), p)
        for f, old, new in s['edits']:
            p = os.path.join(w, 'b', f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %d matches of %r' % (s['id'], t.count(old), old)
            base = subprocess.run(['git', '-C', REPO, 'show', BASE + ':' + f], capture_output=True, text=True).stdout
            gone = [l for l in old.split('\n') if l not in new.split('\n')]
            assert not gone or any(l in base for l in gone if l.strip()), '%s: changes no original line' % s['id']
            open(p, 'w').write(t.replace(old, new))
        r = subprocess.run(['diff', '-urN', 'a', 'b'], cwd=w, capture_output=True, text=True)
        t = re.sub(r'^diff .*\n', '', r.stdout, flags=re.M)
        t = re.sub(r'^(--- a/\S+|\+\+\+ b/\S+)\t.*$', r'\1', t, flags=re.M)
        open(os.path.join(d, 'patch.diff'), 'w').write(t)
    finally:
        shutil.rmtree(w)
    sh = s.get('sh') or DEF % (s.get('flags', ''), s.get('libs', ''))
    open(os.path.join(d, 'demo.sh'), 'w').write(SH % sh)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if s.get('demo'):
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d


def sandbox(k):
    w = '/tmp/sb%d' % k
    if not os.path.exists(w + '/repo'):
        os.makedirs(w, exist_ok=True)
        subprocess.run(['rsync', '-a', '--exclude=/_build', REPO + '/', w + '/repo'], check=True)
        os.makedirs(w + '/vp', exist_ok=True)
        for f in glob.glob('/opt/vp/*'):
            if os.path.isfile(f):
                try:
                    t = open(f).read()
                except UnicodeDecodeError:
                    continue
                open(w + '/vp/' + os.path.basename(f), 'w').write(t.replace('/repo', w + '/repo').replace('/opt/vp', w + '/vp'))
    subprocess.run('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=w + '/repo', check=True)
    return w


def validate(s, k):
    w = sandbox(k)
    r = w + '/repo'
    d = os.path.join(OUT, s['id'])
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    msg = []
    def demo():
        x = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
        return x.returncode, (x.stdout + x.stderr)[-400:]
    def build():
        x = subprocess.run(['bash', w + '/vp/build.sh'], capture_output=True, text=True)
        return x.returncode, x.stdout[-1500:]
    if s.get('needs_build'):
        build()
    a = demo()
    if a[0]:
        msg.append('demo fails on the unchanged tree: %s' % (a,))
    p = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
    if p.returncode:
        return '%s: patch does not apply %s' % (s['id'], p.stderr)
    b = build()
    if b[0]:
        msg.append('does not build ' + b[1])
    else:
        subprocess.run(['bash', w + '/vp/test.sh', w + '/out.json'], capture_output=True)
        o = json.load(open(w + '/out.json'))
        miss = stable - set(o['passed'])
        if miss:
            msg.append('breaks tests %s' % sorted(miss)[:4])
        c = demo()
        if c[0] == 0:
            msg.append('demo passes with the patch')
        elif c[0] == 3:
            msg.append('demo does not build: %s' % c[1])
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=r)
    return '%s: %s' % (s['id'], '; '.join(msg) or 'ok')


def main():
    load()
    a = sys.argv[1:]
    n = '-n' in a
    ids = [x for x in a if x[0] != '-']
    todo = [s for s in SEEDS if not ids or s['id'] in ids or s['property'] in ids]
    good = []
    for s in todo:
        try:
            write(s)
            good.append(s)
        except AssertionError as e:
            print(e)
    if not n:
        J = 4
        def job(k):
            return [validate(s, k) for s in good[k::J]]
        with ThreadPoolExecutor(J) as ex:
            for l in ex.map(job, range(J)):
                for x in l:
                    print(x)


main()
