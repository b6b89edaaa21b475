#!/usr/bin/env python3
"""Writes DESIGN.md: prose plus tables generated from the harness and bug folders."""
import re, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(here + '/tools/design_head.md').read()
o += '## Bounds per harness (generated)\n\n| Harness | Decides | Bounds |\n|---|---|---|\n'
for f in sorted(glob.glob(here + '/harness/h/c*.go')):
    s = open(f).read()
    for m in re.finditer(r'^//verif: ([^\n]*)\n(?://bounds: ([^\n]*)\n)?func H_(\w+)', s, re.M):
        prop = re.search(r'prop=(\S+)', m.group(1)).group(1)
        tier = ' (thorough only)' if 'tier=thorough' in m.group(1) else ''
        o += '| %s%s | %s | %s |\n' % (m.group(3), tier, prop.replace(',', ', '), (m.group(2) or '').replace('|', '\\|'))
o += open(here + '/tools/design_tail.md').read()
o += '| Change | What it breaks | Needs | Caught |\n|---|---|---|---|\n'
missed = {}
p = here + '/tools/missed.txt'
if os.path.exists(p):
    missed = dict(l.rstrip('\n').split(' ', 1) for l in open(p) if l.strip())
for d in sorted(glob.glob(here + '/seeded/*/')):
    n = os.path.basename(d[:-1])
    m = json.load(open(d + 'meta.json'))
    o += '| %s | %s | %s | %s |\n' % (n, m['what_it_breaks'], m['needs'], missed.get(n, 'yes, ' + m['property']))
open(here + '/DESIGN.md', 'w').write(o)
