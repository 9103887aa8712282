#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = '| bug | check | needs |\n|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json') + glob.glob(V + '/seeded-templates/*/meta.json'), key=lambda d: d.split('/')[-2]):
    m = json.load(open(d))
    rows += '| %s | %s | %s |\n' % (d.split('/')[-2], m['property'], m['needs'].replace('|', '/').replace('\n', ' '))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- end -->\n', lambda m: '<!-- seeds -->\n' + rows + '<!-- end -->\n', s, flags=re.S)
open(p, 'w').write(s)
