#!/usr/bin/env python3-vt
"""Re-run a recorded counterexample natively against /repo's current tree: replay.py FILE"""
import json
import sys
import check

rec = json.load(open(sys.argv[1]))
low = rec['property'].lower()
exe = check.build_asan(low) if rec['native']['status'] == 'asan' else check.build_native(low, check.NATIVE_PROFILE[rec['profile']])
inputs = [x[1] for x in rec['inputs']]
print('harness %s inputs %s' % (rec['harness'], inputs))
r = check.native_run(exe, rec['harness'], rec['tier'], inputs)
print(r)
sys.exit(1 if check.failing(r['status']) else 0)
