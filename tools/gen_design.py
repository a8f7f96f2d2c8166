#!/usr/bin/env python3
"""writes DESIGN.md"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vp import meta, props
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
o = [open(V + '/tools/design/head.md').read()]
for p in P:
    i = p['id']; m = meta.M.get(i)
    o.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in props.NOT_APPLICABLE: o.append('*Not applicable:* ' + props.NOT_APPLICABLE[i] + '\n'); continue
    o.append(f"- **Decided by:** {m['how']}\n- **Oracle:** {m['oracle']}\n- **Bounds:** " + '; '.join(m['bounds']) + '.')
    if m.get('outside'): o.append('- **Outside:** ' + '; '.join(m['outside']) + '.')
    if m.get('assumptions'): o.append('- **Assumptions:** ' + '; '.join(m['assumptions']) + '.')
    ev = V + f'/evidence/{i}.json'
    if m.get('cost'): o.append('- **Cost:** ' + m['cost'])
    o.append('- **Beyond tests because:** ' + m['why'] + '.\n')
K = json.load(open(V + '/known_findings.json'))
o.append('## 3. Genuine defects: repaired\n\nEach is one `fix:` commit in /repo; the check reports the violation when the commit is reverted.\n')
o += ['- ' + x for x in K['fixed']]
o.append('\n## 4. Genuine defects: recorded (known findings)\n')
o += [f"- {x['property']} `{x['entry']}`: {x['what']}." for x in K['findings']]
o.append('\n## 5. Planted bugs and mutation campaign\n')
try: S = json.load(open(V + '/tools/design/seeds.json'))
except FileNotFoundError: S = {}
o.append('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    o.append(f"| {n} | {m['property']} | {m['needs'].strip()} | {S.get(n, '?')} |")
o.append('')
if os.path.exists(V + '/tools/design/mutation.md'): o.append(open(V + '/tools/design/mutation.md').read())
o.append(open(V + '/tools/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
