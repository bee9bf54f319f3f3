"""writes CONTRACTS.md: every contract and its verdict, from the last run of every check (evidence/*.json)"""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p['title'] for p in (json.loads(x) for x in open(os.path.join(V, 'properties.jsonl')))}
out, tot = [], [0, 0, 0, 0]
for f in sorted(glob.glob(os.path.join(V, 'evidence', 'C*.json'))):
    d = json.load(open(f))
    c = d['coverage']
    tot[0] += c['contracts']
    tot[1] += c['contracts_proved']
    tot[2] += c['discharged']
    tot[3] += len(c['functions_under_contract'])
    out += ['', '## %s %s' % (d['property'], props[d['property']]), '', '| contract | functions | verdict | why bounded |', '| --- | --- | --- | --- |']
    for r in c['detail']:
        fns = ', '.join(sorted({x.split(':')[1] for x in r['functions']}))
        out.append('| %s | %s | %s | %s |' % (r['contract'], fns, r['verdict'], (r.get('reason') or '').replace('|', '/').split('\n')[0][:120] if r['verdict'] != 'proved' else ''))
head = ['# Contracts', '', 'Generated by tools/mkcontracts.py from the evidence of the last quick runs.', '',
        '%d contracts, %d proved (all obligations discharged for all inputs), the others bounded; %d obligations discharged over %d functions.' % (tot[0], tot[1], tot[2], tot[3])]
open(os.path.join(V, 'CONTRACTS.md'), 'w').write('\n'.join(head + out) + '\n')
print(head[-1])
