#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/conf.py and the list of properties without a check."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(D, 'harness'))
sys.dont_write_bytecode = True
import conf
NA = {}
NOT_YET = 'no check yet'
TECH = 'symbolic execution of the clang LLVM IR of the real code, assertions and undefined behaviour decided by z3 (%s); counterexamples replayed natively'
checks, na = [], []
for l in open(os.path.join(D, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if i in conf.CONF and i not in NA:
        c = conf.CONF[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=TECH % c.get('theory', 'non-linear integer arithmetic, bit-vectors at small scope when that is undecided'),
                           level='model_checking', level_note='bounds: ' + c['bounds']))
    else: na.append(dict(property=i, reason=NA.get(i, NOT_YET)))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
