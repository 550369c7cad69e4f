#!/usr/bin/env python3
"""writes /verif/MANIFEST.json: claims every property that has a scenario, lists the others"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
na = json.load(open(H + '/tools/not_applicable.json'))
meta = json.load(open(H + '/scen/meta.json'))
have = set()
for f in os.listdir(H + '/scen'):
    if f.endswith('.cpp'): have |= set(re.findall(r'^SCENARIO\((C\d+)', open(H + '/scen/' + f).read(), re.M))
nas = {x['property'] for x in na}
checks = []
for p in props:
    i = p['id']
    if i in nas: continue
    if i not in have: na.append({'property': i, 'reason': 'check not built yet'}); continue
    m = meta.get(i, {})
    checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded schedule and fault search over the real code, ' + m.get('technique', 'invariants and history checks'),
        'level': 'exploration',
        'level_note': m.get('note', 'Seeded sampling of schedules and faults, no exhaustiveness.') + ' Trusts the simulated libuv, threads, disk and clocks (sim/*.cpp).'})
man = {'version': 1, 'setup_cmd': './check --build',
       'hooks': {'guard': 'none (link-time seams: libuv, pthread, stdio, clock and allocation calls are resolved to the simulator; memory accesses through the compiler)', 'enable': 'nothing to enable: /repo sources are compiled unmodified by ./check', 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'Replay a violation with ./check --replay evidence/replays/<id>.replay'}
json.dump(man, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
