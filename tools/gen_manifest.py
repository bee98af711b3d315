#!/usr/bin/env python3
import json, sys
sys.path.insert(0, '/verif/engine')
import props
checks = []
for pid in sorted(props.PROPS):
    checks.append(dict(property=pid, quick_cmd='python3-vt engine/check.py %s' % pid,
        thorough_cmd='VERIF_TIER=thorough python3-vt engine/check.py %s' % pid,
        technique='symbolic execution of the compiled code (LLVM IR of /repo) with z3 deciding every obligation; counterexamples replayed natively',
        level='model_checking',
        level_note='Holds for every value within these bounds: %s. Outside: %s. Trusted: rustc down to LLVM IR, the executor in engine/ '
                   '(its explored paths are sampled and replayed against the native build on every run), z3.' % (props.PROPS[pid]['bounds'][0], props.PROPS[pid]['outside'] or 'nothing further')))
m = dict(version=1, setup_cmd='python3-vt engine/setup.py', checks=checks, not_applicable=[],
         notes='No hooks in /repo: everything is reached through the public interface. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
