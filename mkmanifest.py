#!/usr/bin/env python3
# writes MANIFEST.json; levels and notes are kept here
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {'C25': 'Needs a concurrency logic (goroutines, channels, time.Timer callbacks, mutex ownership across callbacks) for Go; no deductive verifier for it is available offline and the engine built here is sequential. Interleavings would have to be enumerated, which is another technique.'}
exec(open(os.path.join(here, 'levels.py')).read())
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    lv, note = LEVEL[i]
    checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                   'technique': 'contract-based deductive verification of the Go SSA (govc, z3/cvc5)' + (' with bounded replay against the real code' if lv == 'proof' else '; the deciding step here is still the bounded replay of the contract oracle on the real code'),
                   'level': lv, 'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: contracts live in /verif/specs and are bound to the functions of /repo by name; ghost lemma functions are added by an in-memory overlay only.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
