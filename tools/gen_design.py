#!/usr/bin/env python3
"""fills the tables of DESIGN.md from properties.jsonl, scen/meta.json, scen/*.cpp, known-findings.txt and seeded/ (reads tools/DESIGN.in.md)"""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + '/properties.jsonl')]; M = json.load(open(H + '/scen/meta.json'))
sc = {}
for f in sorted(glob.glob(H + '/scen/*.cpp')):
    for p, n, w in re.findall(r'^SCENARIO\((C\d+), (\w+), (\d+)\)', open(f).read(), re.M): sc.setdefault(p, [os.path.basename(f)]).append(n)
per = []
for p in P:
    m = M.get(p['id'])
    if not m: continue
    per.append('### %s %s  \nScenarios in scen/%s: %s\n* Decided by: %s.\n* Oracle: %s.\n* Real: %s. Simulated: %s.\n* Bounds: %s.\n' % (p['id'], p['title'], sc[p['id']][0], ', '.join(sc[p['id']][1:]), m['technique'], m['oracle'], m['real'], m['stub'], m['bounds']))
na = '\n'.join('* **%s** - %s' % (n['property'], n['reason']) for n in json.load(open(H + '/tools/not_applicable.json')))
fx = '\n'.join('* %s `%s`: %s' % re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups() for l in open(H + '/known-findings.txt') if l.startswith('fixed:'))
rows = ['| id | property | breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
s = open(H + '/tools/DESIGN.in.md').read()
for k, v in (('PER_PROPERTY', '\n'.join(per)), ('NA', na), ('FIXES', fx), ('SEEDED', '\n'.join(rows))): s = s.replace('@%s@' % k, v)
open(H + '/DESIGN.md', 'w').write(s)
