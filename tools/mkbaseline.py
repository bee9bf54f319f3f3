"""lists the fully proved contracts of the last run of every check (evidence/*.json) in BASELINE_PROVED.txt"""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for f in sorted(glob.glob(os.path.join(V, 'evidence', 'C*.json'))):
    d = json.load(open(f))
    out += ['%s/%s' % (d['property'], r['contract']) for r in d['coverage']['detail'] if r['verdict'] == 'proved']
open(os.path.join(V, 'BASELINE_PROVED.txt'), 'w').write('\n'.join(sorted(out)) + '\n')
print(len(out))
