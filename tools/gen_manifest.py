#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = {
 'A01': 'Real statutil under seeded interleavings of its callers; recorded histories are checked for linearizability against a sequential window model; stepped clocks. Assumes sequential consistency.',
 'L01': 'Real node/log under seeded interleavings with slow and failing outputs; every line written is matched to the call that wrote it. The standard log package is a stand-in with the same API. Assumes sequential consistency.',
}
ex = os.path.join(V, 'tools', 'claims.json')
if os.path.exists(ex):
    CLAIM.update(json.load(open(ex)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'deterministic simulation with seeded fault injection',
                       'level': 'exploration', 'level_note': CLAIM[i]})
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': './tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed in /repo: the checks transform a copy of its working tree at build time', 'source_commits': []},
     'notes': 'Every check builds the simulation from /repo (tools/run.sh) into .build/, runs seeded simulations and writes evidence/<id>.json; replay a violation with ./tools/run.sh -replay FILE.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
