#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/harnesses.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from harnesses import PROPS, NOT_APPLICABLE, LEVEL_NOTE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
            technique='symbolic execution of the real program (LLVM IR of possum, std, rusqlite and SQLite) with an SMT solver (Z3); counterexamples replayed natively',
            level='model_checking', level_note=PROPS[i].get('note', LEVEL_NOTE)))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'the check for this property is not built yet')))
m = dict(version=1, setup_cmd='bash tools/build.sh', checks=checks, not_applicable=na,
    notes='Every check rebuilds the executor, the LLVM IR of the program from /repo, and the native replayer, under target/.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
