#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from props/*.py (META) and the reasons below."""
import glob, importlib, json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
NA = json.load(open(here + '/tools/not_applicable.json'))
checks, na = [], []
for i in ids:
    if os.path.exists('%s/props/%s.py' % (here, i)) and i not in NA:
        m = importlib.import_module('props.' + i)
        M = m.META
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=M['technique'], level=M['level'], level_note=M['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet: no contract on the functions of this property has been discharged so far')))
man = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=checks, not_applicable=na,
           notes='Checks read /repo/gyp/pylib and /repo/lib as they are; nothing is built or written there. VERIF_SEED and VERIF_TIER are honoured. No hooks in /repo.')
json.dump(man, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
