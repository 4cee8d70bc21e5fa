#!/usr/bin/env python3
"""replay.py EVIDENCE/<id>.replayN.json: rebuilds the native (ASan) program from /repo and reruns the recorded counterexample."""
import sys, os, json, tempfile, shutil
import check
d = json.load(open(sys.argv[1])); w = tempfile.mkdtemp(prefix='vf_replay_')
try:
    nat = check.Build(w).program(d['harness'], 'nat')
    v, t = check.native(nat, os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), d['inputs']), '-', d['params'], d['preempt'])
    print(v, t); sys.exit(1 if v in ('viol', 'timeout') else 0)
finally: shutil.rmtree(w, ignore_errors=True)
