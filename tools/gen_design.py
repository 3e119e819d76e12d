#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md with the table of planted bugs."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(V, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
extra = {}
for part in open(os.path.join(V, 'tools', 'design_notes.md')).read().split('\n## ')[1:]:
    k, t = part.split('\n', 1)
    extra[k.strip()] = t.strip()


def explanation(p):
    t = ast.parse(open(os.path.join(V, 'sa', 'checks', p.lower() + '.py')).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'EXPLANATION':
            return ' '.join(ast.literal_eval(n.value).split())


out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip()]
for d in props:
    p = d['id']
    out.append('\n### %s: %s\n' % (p, d['title']))
    c = C['claimed'].get(p)
    if not c:
        out.append('Not applicable: ' + C['not_applicable'][p])
        continue
    out.append('*Technique:* %s.\n' % c[0].rstrip('.'))
    out.append('*What is decided:* %s\n' % explanation(p))
    out.append('*Bounds and limits:* %s\n' % c[1])
    if d.get('why_tests_cant'):
        out.append('*Why tests cannot:* %s\n' % d['why_tests_cant'])
    if p in extra:
        out.append('*Notes:* %s\n' % extra[p])
seeds = []
S = os.path.join(V, 'seeded')
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    seeds.append('| `%s` | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
tail = open(os.path.join(V, 'tools', 'design_tail.md')).read()
fixes = ['* ' + json.loads(l)['what'].replace('fixed: ', '') for l in open(os.path.join(V, 'known_findings.jsonl')) if l.strip()]
out.append('\n' + tail.replace('@SEEDS@', '| planted bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(seeds)).replace('@FIXES@', '\n'.join(fixes)))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
