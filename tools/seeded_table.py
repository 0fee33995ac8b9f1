#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s; needs: %s | %s |' % (
        f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs'],
        m.get('caught_by', m['property'])))
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- plants -->', '<!-- /plants -->'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '\n\n| id | property | what breaks | caught by |\n|----|---|---|---|\n' + '\n'.join(rows) + '\n\n' + s[j:]
open(p, 'w').write(s)
