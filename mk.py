#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py and the registered rules"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta.props import P, NA          # noqa: E402
import run                             # noqa: E402

rules = run.rules()
missing = sorted(set(rules) - set(P))
assert not missing, 'rules without property text: %s' % missing
props, checks, na = [], [], []
for pid in sorted(P):
    d = P[pid]
    if pid not in rules and pid not in NA:
        print('not emitted yet:', pid)
        continue
    props.append({'id': pid, 'title': d['title'], 'statement': d['statement'], 'quantifier': {'over': d['over'], 'text': d['text']}, 'why_tests_cant': d['why'],
                  'anchors': {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']], 'observe_at': d['observe'], 'hook_needed': None}})
    if pid in rules:
        fn, level, tech = rules[pid]
        checks.append({'property': pid, 'quick_cmd': 'python3 run.py %s' % pid, 'thorough_cmd': 'python3 run.py %s --thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
                       'technique': tech, 'level': level,
                       'level_note': 'Decided from the current source without running it, over all abstract paths; quiet where a construct leaves the analysed fragment (listed in the evidence notes). '
                                     'Trusts the models of pyserial, threading, re and datetime and the CPython semantics of the constructs used.'})
    else:
        na.append({'property': pid, 'reason': NA[pid]})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q gsa run.py', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis only; no hooks in /repo. See DESIGN.md.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
