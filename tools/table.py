"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json and
tools/caught.json (written when the checks are run against the bugs)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(ROOT, 'tools/caught.json')))
t = ['| bug | property | what it needs | result |', '|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))
    t.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), C.get(b, 'not run')))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
i = s.find('| bug | property') if '@@TABLE@@' not in s else s.find('@@TABLE@@')
open(p, 'w').write(s[:i] + '\n'.join(t) + '\n')
