#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with an entry in checks/registry.PROPS is claimed, the others carry their reason."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import registry

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in registry.PROPS:
        q = registry.PROPS[pid]
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': q.technique, 'level': q.level, 'level_note': q.note})
    else:
        na.append({'property': pid, 'reason': registry.NOT_APPLICABLE[pid]})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis of the resolved clang AST of /repo/sources; nothing of /repo is executed. Every run re-exports and re-analyses the current sources.'}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not applicable')
