#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    f = re.findall(r'^\+\+\+ b/(\S+)', open(os.path.dirname(m) + '/patch.diff').read(), re.M)
    rows.append((j['property'], n, ', '.join(x.replace('src/', '') for x in f), j['needs'], j['what_it_breaks']))
rows.sort()
t = ['| planted | file | needs | breaks | caught by |', '|---|---|---|---|---|']
t += ['| %s | %s | %s | %s | %s |' % (n, f, a, b, p) for p, n, f, a, b in rows]
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(t) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
