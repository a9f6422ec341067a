#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
import specs
with open(V + '/properties.jsonl', 'w') as f:
    for pid, p in sorted(specs.PROPS.items()):
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}) + '\n')
checks = []
for pid, p in sorted(specs.PROPS.items()):
    if p['na']:
        continue
    py = any('py' in e for e in p['entries'])
    checks.append({'property': pid, 'quick_cmd': 'bin/check.py %s quick' % pid, 'thorough_cmd': 'bin/check.py %s thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
                   'technique': 'symbolic execution of the real Python code, z3' if py else 'symbolic execution of the real C++ code (LLVM IR), z3 and cvc5', 'level': 'model_checking',
                   'level_note': (p['note'] + ' ' if p['note'] else '') + 'Every path of the harness within the stated sizes is explored with symbolic values and every assertion is decided by the solver; '
                   'floating point is exact real arithmetic except in the entries run with IEEE semantics; ROS 2, nanoflann and fmt are stand-ins. Bounds: ' + '; '.join(dict.fromkeys(e['bounds'] for e in p['entries'] if e['bounds'])) + '.'})
m = {'version': 1, 'setup_cmd': 'bin/setup.sh', 'checks': checks,
     'not_applicable': [{'property': pid, 'reason': p['na']} for pid, p in sorted(specs.PROPS.items()) if p['na']],
     'notes': 'No hooks in /repo. bin/gen.py writes this file and properties.jsonl from bin/specs.py.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
