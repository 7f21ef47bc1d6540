#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, bounds.json, the harnesses, known_findings.json and seeded/."""
import json, os, re, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
out = [open('tools/design_head.md').read().rstrip() + '\n']
props = [json.loads(l) for l in open('properties.jsonl')]
bounds = json.load(open('bounds.json'))
known = json.load(open('known_findings.json'))
cost = json.load(open('tools/cost.json')) if os.path.exists('tools/cost.json') else {}
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
notes = json.load(open('tools/notes.json')) if os.path.exists('tools/notes.json') else {}
seeds = {}
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    seeds.setdefault(m['property'], []).append((d, m))
out.append('## 3. The properties\n')
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    out.append(p['statement'] + '\n')
    if i in notes:
        out.append('**Oracle and approach.** ' + notes[i] + '\n')
    out.append('**Bounds.** ' + bounds[i]['bounds'] + ' **Outside:** ' + bounds[i]['outside'] + '\n')
    if i in cost:
        out.append('**Cost.** ' + '; '.join(f'{t}: {v}' for t, v in cost[i].items()) + '.\n')
    out.append('Harnesses:\n')
    f = (glob.glob(f'harness/root/h/{i}.go') + glob.glob(f'harness/xt/h/{i}.go'))[0]
    c = []
    for l in open(f):
        l = l.rstrip('\n')
        if l.startswith('//'):
            if not l.startswith('//gosym') and l != '//':
                c.append(l[2:].strip())
            continue
        m = re.match(r'func (H_\w+)\(\)', l)
        if m:
            t = ' '.join(c)
            t = re.sub(r'^' + m.group(1) + r':\s*', '', t)
            out.append(f'* `{m.group(1)}`: {t}')
        c = []
    out.append('')
    ks = [k for k in known if k['property'] == i]
    for k in ks:
        if k['status'] == 'finding':
            out.append(f"Known finding ({k['id']}, not repaired): {k['what']}.\n")
    for k in ks:
        if k['status'] == 'fixed':
            w = k['what'].split(' ', 3)
            out.append(f"Defect found here and repaired ({w[2]}): {w[3]}.\n")
out.append('## 4. Planted bugs\n')
n = sum(len(v) for v in seeds.values())
out.append(f'{n} changes under `seeded/`, each with a demonstration. The check of the property named catches the change (quick tier); the last column names a harness that reports it.\n')
out.append('| change | what it breaks | needs | caught by |\n|---|---|---|---|')
for i in sorted(seeds):
    for d, m in seeds[i]:
        out.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, i)} |".replace('\n', ' '))
out.append('')
out.append(open('tools/design_tail.md').read() if os.path.exists('tools/design_tail.md') else '')
open('DESIGN.md', 'w').write('\n'.join(out))
