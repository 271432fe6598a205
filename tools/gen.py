#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and sa/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
sys.dont_write_bytecode = True
import props
from sa import registry

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in props.PROPS:
    i = p['id']
    if i in props.NA:
        na.append({'property': i, 'reason': props.NA[i]})
    elif i not in registry.ANALYSES:
        na.append({'property': i, 'reason': 'no analysis built yet'})
    else:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': 'static analysis: ' + registry.TECH[i], 'level': 'other',
                       'level_note': registry.NOTE.get(i, registry.NOTE['*'])})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 9)"', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks: the analyses read the source text under /repo/src on every run and execute nothing of it.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
