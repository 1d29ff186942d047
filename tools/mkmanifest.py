#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.PROPS."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import props
ids = [json.loads(x)['id'] for x in open(V+'/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=P.get('technique', 'TLA+ specification, model checked with TLC and bound to the code by trace validation with TLC'),
            level='model_checking', level_note=P.get('note', 'The design is model checked exhaustively within small bounds; the implementation is bound to the specification by validating recorded executions (TLC, module Trace) of generated scenarios, so conformance holds for the executions explored, not for all inputs.')))
    else: na.append(dict(property=i, reason='check in progress: the specification does not cover it yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(V+'/MANIFEST.json', 'w'), indent=1); open(V+'/MANIFEST.json', 'a').write('\n')
import importlib
try:
    import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(checks), 'checks', len(na), 'not claimed')
