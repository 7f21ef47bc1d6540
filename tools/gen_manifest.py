#!/usr/bin/env python3
"""Writes MANIFEST.json from bounds.json (which lists the claimed properties) and properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
bounds = json.load(open('bounds.json'))
checks, na = [], []
for p in props:
    i = p['id']
    b = bounds.get(i)
    if not b or 'not_applicable' in b:
        na.append({'property': i, 'reason': (b or {}).get('not_applicable', 'harness not finished yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i} quick',
        'thorough_cmd': f'bash check.sh {i} thorough',
        'technique': 'symbolic execution of the Go SSA of the real code; Z3 decides every branch and assertion; counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Holds for every value within the bounds: ' + b['bounds'] + ' Outside: ' + b.get('outside', 'larger sizes') +
                      ' Trusted: the gosym engine and its library intrinsics (sampled paths are validated against the compiled code on every run), Z3, go/ssa.',
    })
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: harnesses are laid over the source tree (go build -overlay), unexported code is reached through the public API.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
