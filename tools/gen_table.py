"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- table by tools/gen_table.py -->'
MISSED = set(sys.argv[1:])

lines = ['| bug | needs | caught by |', '|---|---|---|']
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
  m = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
  lines.append(f"| {i} | {m['needs'].rstrip('.')} | "
               f"{'missed' if i in MISSED else m['property']} |")
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = s[:s.index(MARK) + len(MARK)] + '\n' + '\n'.join(lines) + '\n'
open(p, 'w').write(s)
