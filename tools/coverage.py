#!/usr/bin/env python3
"""which lines of /repo the simulated runs of all scenarios never reached (development aid; not a check)
usage: tools/coverage.py [WALL] [IDs...]     builds with MG_COV=1 into build/cov"""
import os, sys, subprocess, re, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['MG_COV'] = '1'; B = os.environ['MG_BUILD'] = os.path.join(H, 'build', 'cov')
wall = sys.argv[1] if len(sys.argv) > 1 else '5'
sys.path.insert(0, H)
import importlib.machinery, importlib.util
ld = importlib.machinery.SourceFileLoader('chk', H + '/check'); chk = importlib.util.module_from_spec(importlib.util.spec_from_loader('chk', ld)); ld.exec_module(chk)
ids = sys.argv[2:] or sorted(chk.GROUP)
tot = collections.defaultdict(set); hit = collections.defaultdict(set)
maps = {}
for p in ids:
    b = chk.build(chk.GROUP[p])
    if b not in maps:
        d = subprocess.run(['objdump', '-d', '--no-show-raw-insn', b], stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines()
        pcs, was = [], False
        for l in d:
            if was and ':' in l: pcs.append(l.split(':')[0].strip())
            was = 'call' in l and '<__sanitizer_cov_trace_pc>' in l
        o = subprocess.run(['addr2line', '-e', b], input='\n'.join('%x' % (int(x, 16) - 1) for x in pcs), stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines()
        maps[b] = {int(x, 16): re.sub(r' \(disc.*', '', l) for x, l in zip(pcs, o)}
    out = B + '/cov.' + p
    subprocess.run([b, '--prop', p, '--wall', wall, '--runs', '100000000'], env=dict(os.environ, MG_COV_OUT=out), stdout=subprocess.DEVNULL)
    hs = {int(x, 16) for x in open(out)}
    for a, l in maps[b].items():
        f, _, n = l.rpartition(':')
        f = os.path.realpath(f)
        if not f.startswith(chk.REPO + '/src') or not n.isdigit(): continue
        tot[f].add(int(n))
        if a in hs: hit[f].add(int(n))
for f in sorted(tot):
    miss = sorted(tot[f] - hit[f])
    print('%s: %d of %d lines with code blocks reached' % (f[len(chk.REPO) + 1:], len(hit[f]), len(tot[f])))
    src = open(f, errors='replace').read().splitlines()
    for n in miss: print('   %5d  %s' % (n, src[n - 1].strip()[:110]))
