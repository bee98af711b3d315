#!/usr/bin/env python3
"""Makes and confirms a planted bug.   tools/seed.py make DEFFILE | confirm [ID..] | hunt [ID..]

DEFFILE: python file defining SEEDS = {id: dict(prop, file, old, new, needs, breaks, demo[, release])}.
 make     writes seeded/<id>/ from the definitions and confirms them
 confirm  in a scratch copy: patch applies, builds, stable tests pass, demo passes without and fails with the patch
 hunt     applies each patch to /repo, runs the property's quick check, undoes it; reports caught or missed
"""
import concurrent.futures, json, os, re, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))

DEMO = '''#!/bin/sh
# run with cwd = the repository, after its build; exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$d/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
morton-index = { path = "$repo" }
nalgebra = "0.31"
[workspace]
%s
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" || exit 1
CARGO_TARGET_DIR="$t/target" cargo run --offline -q%s
'''
PRE = '''#![allow(unused)]
use morton_index::{dimensions::*, number::*, *};
use nalgebra::{Vector2, Vector3};
'''

def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def scratch():
    d = tempfile.mkdtemp(prefix='seed-')
    w = os.path.join(d, 'repo')
    sh('cp -a /repo %s' % w, '/')
    return d, w

def tests_ok(w):
    # the same as /opt/vp/test.sh, on the copy
    r = sh('cargo test --offline --lib 2>&1', w)
    passed = set(re.findall(r'^test (\S+) \.\.\. ok', r.stdout, re.M))
    names = BASE.get('stable') or BASE.get('tests') or BASE.get('passed') or BASE
    m = re.search(r'test result: (\w+)\. (\d+) passed; (\d+) failed', r.stdout)
    return m and m.group(1) == 'ok' and int(m.group(2)) >= 489, (m.group(0) if m else r.stdout[-1500:])

def confirm(sid):
    sd = os.path.join(SEEDED, sid)
    d, w = scratch()
    try:
        a = sh('sh %s/demo.sh' % sd, w)
        p = sh('git apply %s/patch.diff' % sd, w)
        if p.returncode:
            return 'patch: ' + p.stdout
        ok, msg = tests_ok(w)
        b = sh('sh %s/demo.sh' % sd, w)
        st = []
        if a.returncode: st.append('DEMO FAILS UNCHANGED: ' + a.stdout[-800:])
        if not ok: st.append('TESTS: ' + msg)
        if b.returncode == 0: st.append('DEMO PASSES WITH PATCH')
        if 'error' in b.stdout and 'could not compile' in b.stdout: st.append('DEMO DOES NOT COMPILE ' + b.stdout[-500:])
        return '; '.join(st) or 'ok'
    finally:
        shutil.rmtree(d)

def make(f):
    g = {}
    exec(open(f).read(), g)
    only = sys.argv[3:]
    made = []
    for sid, s in g['SEEDS'].items():
        if only and sid not in only: continue
        sd = os.path.join(SEEDED, sid)
        os.makedirs(sd, exist_ok=True)
        d, w = scratch()
        try:
            eds = s['edits'] if 'edits' in s else [(s['file'], s['old'], s['new'])]
            bad = None
            for fn, old, new in eds:
                p = os.path.join(w, fn); t = open(p).read()
                n = t.count(old)
                if n != 1: bad = '%s: %d occurrences of %r' % (fn, n, old[:60])
                open(p, 'w').write(t.replace(old, new, 1))
            if bad:
                print(sid, bad); continue
            diff = sh('git diff', w).stdout
        finally:
            shutil.rmtree(d)
        open(sd + '/patch.diff', 'w').write(diff)
        rel = s.get('release')
        extra = '[profile.release]\noverflow-checks = false\n' if rel else ''
        open(sd + '/demo.sh', 'w').write(DEMO % (extra, ' --release' if rel else ''))
        open(sd + '/main.rs', 'w').write(PRE + s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
        made.append(sid)
    confirm_all(made)

def confirm_all(ids):
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for i, r in zip(ids, ex.map(confirm, ids)):
            print(i, r, flush=True)

def hunt(ids):
    for sid in ids:
        sd = os.path.join(SEEDED, sid)
        prop = json.load(open(sd + '/meta.json'))['property']
        assert sh('git status --porcelain', '/repo').stdout == ''
        assert sh('git apply %s/patch.diff' % sd, '/repo').returncode == 0
        try:
            r = sh('timeout 900 python3-vt engine/check.py %s' % prop, ROOT)
        finally:
            sh('git checkout -- .', '/repo')
        v = [x for x in r.stdout.splitlines() if '->' in x or 'ERROR' in x]
        hj = os.path.join(ROOT, 'tools', 'hunt.json')
        known = json.load(open(hj)) if os.path.exists(hj) else {}
        hit = re.search(r'^(c\w+): (assert|panic|memory|\w+)', v[0].strip()) if v else None
        known[sid] = ('%s (%s)' % (prop, hit.group(1) if hit else 'quick')) if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED'
        json.dump(known, open(hj, 'w'), indent=1, sort_keys=True)
        print('%-28s %s rc=%d %s | %s' % (sid, prop, r.returncode, 'caught' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED',
              (v[0] if v else r.stdout[-200:]).strip()[:200]), flush=True)

if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'make': make(ids[0])
    else:
        ids = ids or sorted(os.listdir(SEEDED))
        if cmd == 'confirm':
            confirm_all(ids)
        else: hunt(ids)
