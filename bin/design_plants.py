#!/usr/bin/env python3
# rewrites the planted-bug list of DESIGN.md from seeded/*/meta.json
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
L = []
for f in glob.glob('seeded/*/meta.json'):
    d = json.load(open(f)); L.append("* %s `%s`: %s" % (d['property'], f.split('/')[1], d['what_it_breaks']))
s = open('DESIGN.md').read()
a = s.index("\n* C", s.index("## Planted bugs")); b = s.index("\n\n", a)
open('DESIGN.md', 'w').write(s[:a] + "\n" + "\n".join(sorted(L)) + s[b:])
