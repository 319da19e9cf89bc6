"""Refreshes docs/cost.json from the evidence of the last quick runs."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(ROOT, 'evidence', '*.json'))):
    e = json.load(open(f))
    c = e['coverage']
    if e['tier'] == 'quick':
        out[e['property']] = dict(instances=c['instances'], paths=c['states'], assertions=c['assertions_reached'],
                                  queries=c['queries'], wall=round(e['wall_s']))
json.dump(out, open(os.path.join(ROOT, 'docs', 'cost.json'), 'w'), indent=1, sort_keys=True)
open(os.path.join(ROOT, 'docs', 'cost.json'), 'a').write('\n')
