"""rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json and the last results of tools/plant.sh"""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(here, 'tools', 'plant_results.txt')
if os.path.exists(p):
    for ln in open(p):
        m = re.match(r'== (\S+) (\S+) demo clean=(\d+) bug=(\d+) tests: (\d+) passed.*check rc=(\d+)', ln)
        if m:
            res[m[1]] = 'caught' if m[6] == '1' else f'missed (rc {m[6]})'
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    mp = os.path.join(here, 'seeded', d, 'meta.json')
    if os.path.exists(mp):
        m = json.load(open(mp))
        rows.append(f'| {d} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {res.get(d, "?")} |')
t = open(os.path.join(here, 'DESIGN.md')).read()
table = '<!-- bugs -->\n| bug | property | what it breaks | needs | quick check of that property |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /bugs -->'
if '<!-- bugs -->' in t:
    t = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda m: table, t, flags=re.S)
else:
    t += '\n## Planted bugs\n\n' + table + '\n'
open(os.path.join(here, 'DESIGN.md'), 'w').write(t)
