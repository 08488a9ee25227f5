#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from the directories in seeded/
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for b in sorted(os.listdir(V + '/seeded')):
    p, n = b.split('_', 1)
    d.setdefault(p.upper(), []).append(n)
s = open(V + '/DESIGN.md').read()
t = '| check | planted bugs it catches |\n|---|---|\n' + ''.join('| %s | %s |\n' % (p, ', '.join(d[p])) for p in sorted(d))
s = re.sub(r'\| check \| planted bugs it catches \|\n(\|.*\n)+', lambda m: t, s)
open(V + '/DESIGN.md', 'w').write(s)
