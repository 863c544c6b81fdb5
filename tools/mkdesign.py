#!/usr/bin/env python3
"""fill in the generated parts of DESIGN.md: the table of planted bugs and of repairs"""
import json, os, re, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, 'DESIGN.md')
caught = {}
p = os.path.join(R, 'tools', 'caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
rows = ['| planted bug | property | reported by | what it breaks |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], ', '.join(caught.get(s, ['?'])), m['what_it_breaks'].replace('|', '\\|')))
fix = ['| commit | property | what failed |', '|---|---|---|']
for l in open(os.path.join(R, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fix.append('| %s | %s | %s |' % (m.group(2), m.group(1), m.group(3)))
t = open(D).read()
for tag, body in (('seeds', rows), ('fixes', fix)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda m: m.group(1) + '\n'.join(body) + '\n' + m.group(2), t, flags=re.S)
open(D, 'w').write(t)
