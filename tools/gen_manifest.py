#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
TECH = 'symbolic execution of the LLVM IR of the real sources with Z3 (bounded, all paths); counterexamples replayed natively'
NOTE = 'Bounded: for every value of the symbolic inputs within the bounds of props.py no path of the real code violates the property. %s Trusts: the executor in engine/ (cross-checked by replaying passing paths natively), Z3, clang, the in-memory file model rt/vfs.c. Larger sizes than the bounds are not covered.'
checks = [dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking', level_note=NOTE % props.PROPS[i]['bounds']) for i in ids if i in props.PROPS]
m = dict(version=1, setup_cmd='bash engine/build.sh', hooks=dict(guard='FFDB_VERIFY_HASHSIZE', enable='the checks compile /repo with -DFFDB_VERIFY_HASHSIZE=8 (page-pool hash chains)', source_commits=['68f745d']), checks=checks,
  not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in props.PROPS])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
