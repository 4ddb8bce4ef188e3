#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and check.py's CONF"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
TECH = {
    'seq': 'explicit enumeration of all bounded inputs, real code compared with a reference model',
    'sched': 'stateless model checking of the real code: source-DPOR over all goroutine interleavings, plus exhaustive bounded input enumeration against a reference model',
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p not in check.CONF:
        na.append(dict(property=p, reason='not built yet'))
        continue
    c = check.CONF[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                       technique=TECH['sched' if c.get('race') else 'seq'], level='model_checking',
                       level_note=c.get('note', 'Exhaustive within the stated bounds of input shapes, processor counts and interleavings; '
                                  'trusts the reference model, the Go compiler, the rewriting of goroutine/channel/lock operations and the race detector; '
                                  'says nothing about inputs outside the enumerated families.')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks rewrite a copy of the working tree\'s sources and build it through an overlay.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
