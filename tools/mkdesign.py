#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md from design.tmpl, the properties, claims, harnesses and seeds."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import claims
from design_notes import NOTES, FIRST, ORDER_FIXES
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']
    if i not in claims.CLAIMS:
        continue
    out.append('\n### %s %s\n' % (i, p['title']))
    n = NOTES[i]
    out.append('Specified and oracle: ' + n[0] + '\n')
    out.append('Bounds: ' + claims.CLAIMS[i].replace(claims.REAL, '(real mode) ').strip() + '\n')
    out.append('Beyond tests: ' + n[1] + ' Cost: ' + n[2] + '.\n')
    hs = []
    for f in sorted(glob.glob(V + '/harness/%s/*.go' % i)):
        t = open(f).read()
        for m in re.finditer(r'func VX_%s_(\w+)\(' % i, t):
            hs.append(m.group(1))
    out.append('Harnesses: ' + ', '.join(hs) + '.\n')
fx = {}
nfix = 0
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        nfix += 1
        fx.setdefault(m.group(1), []).append('%s (%s)' % (m.group(3), m.group(2)))
fixes = '\n'.join('- %s: %s.' % (k, '; '.join(v)) for k, v in sorted(fx.items())) + '\n'
seeds = ['| change | property | what it breaks | needs | note |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); s = os.path.basename(os.path.dirname(d))
    seeds.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], FIRST.get(s, '')))
na = '\n'.join('- %s: %s' % kv for kv in sorted(claims.NA.items()))
t = open(V + '/tools/design.tmpl').read()
for k, v in (('PROPS', '\n'.join(out)), ('NFIX', str(nfix)), ('FIXES', fixes), ('SEEDS', '\n'.join(seeds)), ('NA', na)):
    t = t.replace('@@%s@@' % k, v)
open(V + '/DESIGN.md', 'w').write(t)
