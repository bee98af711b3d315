#!/usr/bin/env python3-vt
"""Decide one property of morton-rs by symbolic execution of its compiled code.

usage: check.py PROPERTY            (VERIF_TIER=quick|thorough, VERIF_SEED=n)

 1. compile /repo's working tree together with the property's harnesses to LLVM IR
 2. explore every harness symbolically; z3 decides each assertion, bounds check, panic
    edge and case split over all values within the stated bounds
 3. replay every counterexample, and a sample of the explored paths, natively
exit 0: held;  exit 1: VIOLATION (reproduced natively);  exit 2: no answer
"""
import json
import os
import random
import re
import resource
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(1000000)
threading.stack_size(1 << 29)

import props                                            # noqa: E402

TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
HARNESS = os.path.join(ROOT, 'harness')
BUILD = os.path.join(ROOT, '.build')
REPO = '/repo'


# ------------------------------------------------------------------ building

def cargo_env(target, toolchain=TOOLCHAIN):
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0')
    return env


def forget(target, profile):
    """make cargo rebuild the crate under test and the harness whatever the file times say"""
    fp = os.path.join(target, profile, '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(('morton-index-', 'mh-')):
                p = os.path.join(fp, d)
                for f in os.listdir(p):
                    os.unlink(os.path.join(p, f))
                os.rmdir(p)


def run_cargo(args, target, toolchain=TOOLCHAIN, extra_env=None, timeout=600):
    env = cargo_env(target, toolchain)
    env.update(extra_env or {})
    r = subprocess.run(['cargo'] + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if r.returncode:
        raise RuntimeError('cargo %s failed:\n%s' % (' '.join(args), r.stdout[-6000:]))
    return r.stdout


def build_ir(prop, profile):
    target = os.path.join(BUILD, 'ir-' + prop)
    forget(target, profile)
    pdir = os.path.join(target, profile, 'deps')
    if os.path.isdir(pdir):
        for f in os.listdir(pdir):
            if f.endswith('.ll'):
                os.unlink(os.path.join(pdir, f))
    run_cargo(['rustc', '--offline', '--lib', '--crate-type', 'cdylib', '--profile', profile, '--features', prop, '--',
               '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'relocation-model=static',
               '-C', 'linker=/bin/true'], target)
    ll = [f for f in os.listdir(pdir) if f.endswith('.ll') and f.startswith('mh')]
    if len(ll) != 1:
        raise RuntimeError('expected one IR module, found %s' % ll)
    return os.path.join(pdir, ll[0])


def build_native(prop, profile):
    target = os.path.join(BUILD, 'nat-' + prop)
    forget(target, profile)
    run_cargo(['build', '--offline', '--bin', 'replay', '--profile', profile, '--features', 'native,' + prop], target)
    return os.path.join(target, profile, 'replay')


def build_asan(prop):
    target = os.path.join(BUILD, 'asan-' + prop)
    forget(os.path.join(target, 'x86_64-unknown-linux-gnu'), 'native')
    run_cargo(['build', '--offline', '--bin', 'replay', '--profile', 'native', '--target', 'x86_64-unknown-linux-gnu',
               '--features', 'native,nofence,' + prop], target, 'nightly-x86_64-unknown-linux-gnu', {'RUSTFLAGS': '-Zsanitizer=address'})
    return os.path.join(target, 'x86_64-unknown-linux-gnu', 'native', 'replay')


NATIVE_PROFILE = {'release': 'native', 'unchecked': 'native-unchecked'}


def native_run(exe, harness, tier, inputs, timeout=20):
    try:
        r = subprocess.run([exe, harness, str(tier)] + [str(x) for x in inputs], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(status='timeout', obs=[], out='')
    st, obs, pan = None, [], ''
    for ln in r.stdout.splitlines():
        if ln.startswith('STATUS '):
            st = ln[7:]
        elif ln.startswith('OBS'):
            obs = [int(x) for x in ln[3:].split()]
        elif ln.startswith('PANIC '):
            pan = ln[6:]
    if st is None:
        st = 'signal %d' % -r.returncode if r.returncode < 0 else 'exit %d' % r.returncode
    if 'AddressSanitizer' in r.stderr:
        st = 'asan'
        pan = next((x for x in r.stderr.splitlines() if 'ERROR: AddressSanitizer' in x), '')
    return dict(status=st, obs=obs, panic=pan)


def failing(status):
    return status.startswith(('assert', 'panic', 'signal', 'exit', 'asan', 'timeout')) and status != 'panic-expected'


# ---------------------------------------------------------------- exploration

def explore_job(mod, name, shard, shards, tier, deadline, limit, seed, late, conn_path):
    """runs in a forked child"""
    import engine
    import terms
    out = {}
    t0 = time.time()
    if limit:
        deadline = min(deadline, t0 + limit)
    e = engine.Engine(mod, tier=tier, deadline=deadline)
    if late:
        e.max_steps = 1 << 40                                # the time limit ends these
    e.rnd.seed('%d %s %d' % (seed, name, shard))
    if tier:
        e.max_samples = 12
    try:
        e.explore(name, shard, shards)
        out['error'] = None
    except engine.Inconclusive as ex:
        out['error'] = None
        out['incomplete'] = str(ex)
    except (engine.Unsupported, engine.IRError) as ex:
        out['error'] = '%s: %s' % (type(ex).__name__, ex)
    except RecursionError:
        out['error'] = 'recursion in the executor'
    except MemoryError:
        out['error'] = 'out of memory'
    except Exception as ex:                                  # noqa: BLE001
        import traceback
        out['error'] = 'internal: %r %s' % (ex, traceback.format_exc()[-1500:])
    out.update(name=name, shard=shard, shards=shards, stats=e.stats, violations=e.violations, samples=e.samples,
               functions=sorted(e.encoded()), calls=sorted(e.called), terms=len(terms._tab),
               wall=time.time() - t0)
    with open(conn_path, 'w') as f:
        json.dump(out, f)


def fork_job(args, path):
    pid = os.fork()
    if pid:
        return pid
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        th = threading.Thread(target=explore_job, args=args + (path,))
        th.start()
        th.join()
    finally:
        os._exit(0)


def run_jobs(jobs, workers, workdir, grace=None):
    """jobs: list of (key, args). returns {key: result}. With a counterexample in hand the rest gets `grace` seconds."""
    running = {}
    res = {}
    queue = list(jobs)
    cut = None
    while queue or running:
        if cut and time.time() > cut:
            queue = []
            if not running:
                break
        while queue and len(running) < workers:
            key, args = queue.pop(0)
            path = os.path.join(workdir, '%s.json' % key)
            if os.path.exists(path):
                os.unlink(path)
            running[fork_job(args, path)] = (key, path)
        pid, status = os.waitpid(-1, os.WNOHANG if cut else 0)
        if pid == 0:
            if time.time() > cut:
                queue = []
                for p in running:
                    os.kill(p, signal.SIGKILL)           # not reaped yet: the number is still ours
            time.sleep(0.05)
            continue
        if pid not in running:
            continue
        key, path = running.pop(pid)
        try:
            with open(path) as f:
                res[key] = json.load(f)
        except (OSError, ValueError):
            res[key] = dict(error='worker ended (status %d)' % status, stats={}, violations=[], samples=[], functions=[],
                            calls=[], wall=0, name=key, terms=0)
        if res[key]['violations'] and grace and not cut:
            cut = time.time() + grace
    return res


# ---------------------------------------------------------------------- main

def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) site=(\S+) (.*)', ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def site(v):
    """identifies a violation independently of the inputs"""
    if v['kind'] == 'assert':
        return 'assert:%s' % v['info']
    m = re.search(r'src/[\w/.]+:\d+', str(v['info']))
    return '%s:%s' % (v['kind'], m.group(0) if m else 'x')


def main(prop):
    t0 = time.time()
    tier = 1 if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = props.PROPS[prop]
    low = prop.lower()
    profiles = cfg.get('profiles', props.PROFILES)
    ev = os.path.join(ROOT, 'evidence')
    work = os.path.join(BUILD, 'work-' + low)
    os.makedirs(ev, exist_ok=True)
    os.makedirs(work, exist_ok=True)
    budget = int(os.environ.get('VERIF_BUDGET') or cfg.get('budget', (660, 6 * 3600))[tier])
    deadline = t0 + budget
    # harnesses beyond the claimed bounds start after the others and end by this time
    late_deadline = t0 + budget * 3 // 4

    # native builds run while the exploration does
    native = {}
    errs = []

    def build(f, d, p, q):
        try:
            d[p] = f(low, q)
        except Exception as ex:                              # noqa: BLE001
            errs.append(str(ex))
    irs = {}
    ths = {}
    for p in profiles:
        for f, d, q in ((build_ir, irs, p), (build_native, native, NATIVE_PROFILE[p])):
            th = threading.Thread(target=build, args=(f, d, p, q))
            th.start()
            ths[f, p] = th
    for p in profiles:
        ths[build_ir, p].join()
    if errs:
        print('ERROR: %s' % errs[0])
        return 2
    t_build = time.time() - t0

    import llir
    mods = {p: llir.Module(irs[p]) for p in profiles}
    pat = re.compile(r'^%s_\w+$' % low)
    only = os.environ.get('VERIF_ONLY')
    jobs = []
    for p in profiles:
        names = sorted(n for n in mods[p].funcs if pat.match(n))
        if only:
            names = [n for n in names if re.search(only, n)]
        if p != profiles[0]:
            names = [n for n in names if props.elsewhere(cfg, n, tier)]
        for n in names:
            sh = 1
            for rx, k in cfg.get('shards', []):
                if re.match(rx, n):
                    sh = k[tier] if isinstance(k, tuple) else k
            limit = next((k[tier] for rx, k in cfg.get('limits', []) if re.match(rx, n)), None)
            for s in range(sh):
                jobs.append(('%s.%s.%d' % (p, n, s), (mods[p], n, s, sh, tier, late_deadline if limit else deadline, limit, seed,
                                                      limit is not None)))
    if not jobs:
        print('ERROR: no harness found')
        return 2
    jobs.sort(key=lambda j: (j[1][8], not j[0].startswith(profiles[0]), j[1][3] == 1))
    for th in ths.values():
        th.join()                                            # forking with a running thread is unsafe
    if errs:
        print('ERROR: %s' % errs[0])
        return 2
    res = run_jobs(jobs, int(os.environ.get('VERIF_JOBS', '8')), work, 90 if tier == 0 else None)
    t_explore = time.time() - t0 - t_build

    # ---- aggregate
    errors = []
    incomplete = []
    short = []
    short_names = set()
    viol = []
    tot = {}
    fns = set()
    samples = []
    for key, r in sorted(res.items()):
        prof = key.split('.')[0]
        if r['error']:
            errors.append('%s: %s' % (key, r['error']))
        if r.get('incomplete'):
            msg = '%s: %s after %d paths' % (key, r['incomplete'], r['stats'].get('paths', 0))
            # harnesses listed under 'limits' go beyond the claimed bounds: they may run out of time
            if any(re.match(rx, r['name']) for rx, _ in cfg.get('limits', [])):
                incomplete.append(msg)
            else:
                short.append(msg)
                short_names.add((key.split('.')[0], r['name']))
        for k, v in r['stats'].items():
            if k == 'max_query_s':
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        fns.update(tuple(x) for x in r['functions'])
        for v in r['violations']:
            viol.append((prof, r['name'], v))
        for s in r['samples']:
            samples.append((prof, r['name'], s))
    # every harness must have completed a path with at least one assertion or expected panic
    per = {}
    for key, r in res.items():
        k = (key.split('.')[0], r['name'])
        a = per.setdefault(k, [0, 0])
        a[0] += r['stats'].get('paths', 0)
        a[1] += r['stats'].get('asserts', 0) + r['stats'].get('expected_panics', 0)
    vacuous = [k for k, a in per.items() if not (a[0] and a[1])]
    failed_names = {(p, n) for p, n, _ in viol}
    for k in vacuous:
        if k not in failed_names and not any(e.startswith('%s.%s.' % k) for e in errors + incomplete + short):
            errors.append('%s.%s: vacuous (no completed path reached an assertion)' % k)
    # the verdict is about what was explored; with little of the claimed bounds explored there is none
    if len(short_names) * 4 > len(per):
        errors.extend(short)

    # ---- replay counterexamples
    known = known_findings(prop)
    reported = []
    unrepro = []
    seen_known = set()
    asan = None
    seen_sites = set()
    for prof, name, v in viol:
        key = (name, site(v))
        if key in seen_sites and len(reported) >= 1:
            continue
        seen_sites.add(key)
        inputs = [x[1] for x in v['inputs']]
        r = native_run(native[prof], name, tier, inputs)
        if not failing(r['status']) and v['kind'] in ('memory', 'ub', 'panic', 'hang'):
            try:
                if asan is None:
                    asan = build_asan(low)
                r2 = native_run(asan, name, tier, inputs)
                if failing(r2['status']):
                    r = r2
            except Exception as ex:                          # noqa: BLE001
                print('note: sanitizer replay not available: %s' % str(ex)[-300:])
        rec = dict(property=prop, harness=name, profile=prof, tier=tier, kind=v['kind'], info=v['info'], inputs=v['inputs'],
                   expected_panic=v.get('expect'), native=r,
                   command='%s/engine/replay.py <this file>' % ROOT)
        if not failing(r['status']):
            unrepro.append(rec)
            continue
        kn = [x for x in known if x[0] == name and x[1] == site(v)]
        if kn:
            if key not in seen_known:
                seen_known.add(key)
                print('KNOWN-FINDING: property=%s %s' % (prop, kn[0][2]))
            continue
        reported.append(rec)

    # ---- replay a sample of the explored paths
    validated = 0
    mism = []
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    cap = 400 if tier == 0 else 2000
    for prof, name, s in samples[:cap]:
        if time.time() > deadline + 60:
            break
        inputs = [x[1] for x in s['inputs']]
        r = native_run(native[prof], name, tier, inputs)
        want = 'panic-expected' if s['why'] == 'panic' else 'ok'
        if r['status'] != want or r['obs'] != s['obs']:
            mism.append(dict(harness=name, profile=prof, inputs=inputs, model=dict(why=s['why'], obs=s['obs']), native=r))
        else:
            validated += 1
    if mism and not reported:
        for m in mism[:3]:
            errors.append('executor disagrees with the compiled code: %s' % json.dumps(m)[:600])

    wall = time.time() - t0
    # ---- evidence
    show = []
    for prof, name, s in samples[:4]:
        show.append(dict(harness=name, inputs=[x[1] for x in s['inputs']][:40], observed=s['obs'][:10], ended=s['why']))
    cov = dict(
        states=tot.get('paths', 0) + tot.get('merges', 0),
        transitions=tot.get('blocks', 0),
        traces_validated_against_impl=validated,
        samples=show,
        bounds=cfg['bounds'][tier],
        outside=cfg['outside'],
        harnesses=sorted(set('%s (%s)' % (r['name'], k.split('.')[0]) for k, r in res.items())),
        paths=tot.get('paths', 0), if_conversions=tot.get('merges', 0), forks=tot.get('forks', 0),
        solver_case_splits=tot.get('splits', 0),
        assertions_executed=tot.get('asserts', 0),
        obligations_closed_by_rewriting=tot.get('trivial', 0),
        obligations_sent_to_solver=tot.get('obligations', 0),
        expected_panics=tot.get('expected_panics', 0),
        queries=tot.get('queries', 0), unsat=tot.get('unsat', 0), sat=tot.get('sat', 0),
        answered_from_cached_models=tot.get('model_hits', 0), answered_from_query_cache=tot.get('cache_hits', 0),
        solver_s=round(tot.get('solver_s', 0), 2), max_query_s=round(tot.get('max_query_s', 0), 3),
        functions_encoded=sorted('%s (%s)' % (n, f) for n, f in fns),
        functions_encoded_count=len(fns),
        build_s=round(t_build, 1), explore_s=round(t_explore, 1),
        errors=errors, incomplete_within_bounds=short, incomplete=incomplete, unreproduced=unrepro[:5], known_findings=len(seen_known),
        profiles=profiles,
    )
    evd = dict(property=prop, tier='thorough' if tier else 'quick', seed=seed, level='model_checking', coverage=cov,
               assumptions=props.ASSUMPTIONS + cfg.get('assumptions', []), wall_s=round(wall, 1), violations=len(reported))
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
        f.write('\n')
    print('%s %s: %d paths, %d assertions, %d queries, solver %.1f s, %d traces validated, %d functions, build %.0f s, total %.0f s'
          % (prop, evd['tier'], tot.get('paths', 0), tot.get('asserts', 0), tot.get('queries', 0), tot.get('solver_s', 0),
             validated, len(fns), t_build, wall))
    if os.environ.get('VERIF_VERBOSE'):
        for key, r in sorted(res.items(), key=lambda x: -x[1]['wall']):
            print('   %-50s %7.1fs  %s' % (key, r['wall'], {k: (round(v, 1) if isinstance(v, float) else v)
                                                         for k, v in r['stats'].items() if v}))
    for k, rec in enumerate(reported):
        path = os.path.join(ev, '%s.violation%d.json' % (prop, k))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        print('  %s: %s %s -> native: %s %s' % (rec['harness'], rec['kind'], rec['info'], rec['native']['status'],
                                                rec['native'].get('panic', '')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        if k >= 9:
            break
    for rec in unrepro[:3]:
        print('  not reproduced natively: %s %s %s %s -> %s' % (rec['harness'], rec['kind'], rec['info'],
                                                            [x[1] for x in rec['inputs']][:30], rec['native']['status']))
    for e in errors[:5]:
        print('ERROR: ' + e)
    for e in short:
        print('INCOMPLETE: ' + e)
    for e in incomplete:
        print('INCOMPLETE (beyond the claimed bounds): ' + e)
    if reported:
        return 1
    if errors or unrepro:
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except Exception:                                            # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
