#!/usr/bin/env python3
"""Append the per-property sections to the hand-written head: python3 tools/design.py > DESIGN.md"""
import json, os, sys, importlib.util
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(name, p):
    s = importlib.util.spec_from_file_location(name, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


A = load('assumptions', os.path.join(H, 'specs/assumptions.py')).ASSUMPTIONS
D = load('design_texts', os.path.join(H, 'tools/design_texts.py'))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
fixed = json.load(open(os.path.join(H, 'known_findings.json')))['fixed']
seeds = {}
for s in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', s, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m))
print(open(os.path.join(H, 'tools/design_head.md')).read().rstrip())
print('\n## Properties, one by one\n')
for p in props:
    i = p['id']
    if i not in D.TEXT:
        continue
    print('### %s  %s\n' % (i, p['title']))
    d = D.TEXT[i]
    for k in ('proof', 'reach', 'rt'):
        if k in d:
            print('*%s*: %s\n' % (dict(proof='Proved', reach='Why tests cannot', rt='Bounded stand-in / failing inputs')[k],
                                  ' '.join(d[k].split())))
    if A.get(i):
        print('*Taken from elsewhere or assumed*: ' + '; '.join(' '.join(x.split()) for x in A[i]) + '.\n')
    f = [x.split(' ', 2)[2] for x in fixed if 'property=%s ' % i in x]
    if f:
        print('*Defects found and repaired*: ' + '; '.join('`%s` %s' % tuple(x.split(' ', 1)) for x in f) + '.\n')
    for s, m in seeds.get(i, []):
        print('*Planted*: `%s` (%s) - %s.\n' % (s, m['what_it_breaks'], D.CAUGHT.get(s, 'see table')))
print(D.TAIL.strip())
