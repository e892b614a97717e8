#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
exec(open(os.path.join(T, 'design_how.py')).read())
missed = set(open(os.path.join(T, 'missed.txt')).read().split())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = [open(os.path.join(T, 'design_head.md')).read(), '\n## 2. Properties\n']
for p in props:
    i = p['id']
    src = open(os.path.join(V, 'harness', i.lower() + '.py')).read()
    info, parts = {}, []
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'INFO':
            info = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'HARNESSES':
            parts = [e.elts[0].value for e in n.value.elts]
    out.append('### %s %s\n' % (i, p['title']))
    out.append(HOW[i].strip() + '\n')
    out.append('*Parts:* %s. *Bounds:* %s. *Outside:* %s.%s\n' % (
        ', '.join(parts), info['bounds'], info['outside'],
        ' *Assumed:* %s.' % '; '.join(info['assumptions']) if info.get('assumptions') else ''))
out.append(open(os.path.join(T, 'design_tail.md')).read())
out.append('| bug | found by | what it breaks |\n|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    s = d.split('/')[-2]
    out.append('| %s%s | %s | %s |' % (s, '*' if s in missed else '', m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
