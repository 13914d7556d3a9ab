#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed when it has a harness module"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(HERE, 'harness', pid.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=pid, reason='no check yet'))
        continue
    ns = {}
    m = re.search(r"^BOUNDS = \((.*?)\)$|^BOUNDS = (.*?)$", open(f).read(), re.S | re.M)
    b = eval('(' + (m.group(1) or m.group(2)) + ')')
    m = re.search(r"^OUTSIDE = \((.*?)\)$|^OUTSIDE = (.*?)$", open(f).read(), re.S | re.M)
    o = eval('(' + (m.group(1) or m.group(2)) + ')') if m else ''
    checks.append(dict(
        property=pid,
        quick_cmd='python3-vt check.py %s --tier quick' % pid,
        thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='symbolic execution of the real source (re-read each run), path conditions and assertions '
                  'decided by z3, counterexamples replayed on the real code',
        level='model_checking',
        level_note='Holds for every value within the bounds: %s. Outside: %s. Trusted: the symbolic models of '
                   'zlib, hashlib, files and str/bytes primitives (each sampled path is re-run on the real code '
                   'and compared).' % (b, o)))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())"',
               checks=checks, not_applicable=na,
               notes='No hooks: the code under test is loaded from /repo through an instrumenting loader.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
