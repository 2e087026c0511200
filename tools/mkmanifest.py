#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the properties listed"""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

props = [json.loads(x) for x in open(f'{VERIF}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{VERIF}/checks/{i}.py'):
        c = importlib.import_module(f'checks.{i}').CHECK
        mods = sorted({m.module for m in c.models}) or ['-']
        traces = sorted({x.module for x in c.parts})
        checks.append({
            'property': i,
            'quick_cmd': f'python3 bin/check {i} --tier quick',
            'thorough_cmd': f'python3 bin/check {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': f'TLA+ specification checked with TLC ({", ".join(mods)}); its behaviours are run on the real code '
                         f'and the recorded traces are validated against the specification by TLC ({", ".join(traces)})',
            'level': c.level,
            'level_note': 'The models are exhausted within the bounds in their .cfg files; the code is bound to the specification '
                          'by the replayed and random cases of this run (counted in the evidence). Trusted: TLC, the IEEE '
                          'arithmetic override, the recording harness. ' + '; '.join(c.assumptions),
        })
    else:
        na.append({'property': i, 'reason': 'Specified in DESIGN.md; its check is not built yet.'})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: the harness drives the public entry points of a scratch copy built from the '
              'working tree. Genuine defects that were repaired are listed in known_findings.jsonl.'}
open(f'{VERIF}/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
