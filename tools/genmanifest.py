#!/usr/bin/env python3
# Writes MANIFEST.json from the properties and the registered checks.
import json, subprocess, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:]
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
special = json.load(open(here + '/tools/levels.json')) if os.path.exists(here + '/tools/levels.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in ids:
        sp = special.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'technique': sp.get('technique', 'stateless model checking of the instrumented implementation: exhaustive enumeration of inputs, faults and schedules within bounds'),
            'level': 'model_checking',
            'level_note': sp.get('note', 'Every execution within the stated bounds of the real (source-instrumented) code is explored under a controlled scheduler; the operating system, pion, LiveKit SDK and redis are stand-ins. Nothing is claimed beyond the bounds listed in the evidence file and DESIGN.md.'),
        })
    else:
        na.append({'property': i, 'reason': special.get(i, {}).get('na', 'check under construction')})
doc = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks are committed to /repo: every check instruments a scratch copy of the working tree at source level (tools/instr) and explores that.'}
json.dump(doc, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
