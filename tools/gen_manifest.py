#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
NA = {}
checks = []
for i in ids:
    if i not in props.PROPS: continue
    c = props.PROPS[i]
    specs = sorted({f['spec'] for f in c['families']})
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
        technique='TLA+ model checking; trace validation of the real code against %s with TLC' % ', '.join(specs),
        level='model_checking',
        level_note=c.get('note', 'The specification is model checked exhaustively within the bounds of its configurations; the code is bound to it by validating recorded executions of randomised and generated histories (%s), so coverage of the code is by the histories explored.' % ', '.join(f['name'] for f in c['families'])),
        evidence_file='evidence/%s.json' % i))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, 'Not claimed yet: its specification and conformance families are still being built.')) for i in ids if i not in props.PROPS],
    notes='Specifications in spec/ (TLA+, TLC); harness/ drives the real code; tools/ddv.py connects them. See DESIGN.md.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(m['not_applicable']), 'not claimed')
