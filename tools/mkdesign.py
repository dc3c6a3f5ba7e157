#!/usr/bin/env python3
""" DESIGN.md = tools/design_head.md + a section per property + findings + planted bugs """
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R+'/tools')
from decisions import D
N = json.load(open(R+'/tools/notes.json'))
P = [json.loads(x) for x in open(R+'/properties.jsonl')]
T = json.load(open(R+'/tools/cost.json')) if os.path.exists(R+'/tools/cost.json') else {}
for p in P:
    f = f"{R}/evidence/{p['id']}.json"
    if os.path.exists(f):
        e = json.load(open(f))
        if e['tier'] == 'quick' and not e['violations']:
            c = e['coverage']
            T[p['id']] = dict(s=round(e['wall_s']), states=c['states'], tr=c['transitions'], groups={g: v['cases'] for g, v in c['groups'].items()})
json.dump(T, open(R+'/tools/cost.json', 'w'), indent=0, sort_keys=True)
o = [open(R+'/tools/design_head.md').read().rstrip(), '', '## Properties', '']
for p in P:
    i = p['id']
    o += [f"### {i} {p['title']}", '', f"- *Decided by* {N[i][0]}.", f"- *Bounds:* {N[i][1]}"]
    w, ds = D[i]
    o += [f"- *Beyond tests:* {w}"]
    if i in T:
        t = T[i]
        o += ["- *Last quick run:* %d s, %d states, %d transitions; cases per group: %s." % (t['s'], t['states'], t['tr'], ', '.join(f'{g} {n}' for g, n in t['groups'].items()))]
    o += ['- *Taken as right / not judged:* '+'; '.join(ds)+'.', '']
o += [open(R+'/tools/design_tail.md').read().rstrip(), '', '### Planted bugs', '',
      'Each was made by `tools/mkseed.py` (applies to HEAD, stable tests pass, demonstration fails with it and passes without it).', '',
      '| bug | property | needs | first run | now |', '|---|---|---|---|---|']
res = json.load(open(R+'/tools/seedres.json'))
for s in sorted(os.listdir(R+'/seeded')):
    m = json.load(open(f'{R}/seeded/{s}/meta.json'))
    r = res.get(s, ['?', '?'])
    o.append(f"| {s} | {m['property']} | {m['needs']} | {r[0]} | {r[1]} |")
open(R+'/DESIGN.md', 'w').write('\n'.join(o)+'\n')
