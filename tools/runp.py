"""dev helper: explore harnesses of one property in parallel (no native replay): runp.py c02 [REGEX] [TIER] [DEADLINE] [PROFILE]"""
import os, re, sys, threading, time
sys.path.insert(0, '/verif/engine')
import check
def main():
    import llir, props
    prop = sys.argv[1]
    rx = sys.argv[2] if len(sys.argv) > 2 else '.'
    tier = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    dl = float(sys.argv[4]) if len(sys.argv) > 4 else 300
    prof = sys.argv[5] if len(sys.argv) > 5 else 'release'
    mod = llir.Module('/verif/.build/ir-%s/%s/deps/mh.ll' % (prop, prof))
    names = [n for n in mod.funcs if re.match('^%s_\\w+$' % prop, n) and re.search(rx, n)]
    os.makedirs('/tmp/runp', exist_ok=True)
    cfg = props.PROPS.get(prop.upper(), {})
    jobs = []
    for n in names:
        sh = 1
        for r, k in cfg.get('shards', []):
            if re.match(r, n):
                sh = k[tier] if isinstance(k, tuple) else k
        for s in range(sh):
            jobs.append(('p.%s.%d' % (n, s), (mod, n, s, sh, tier, time.time() + dl,
                         next((k[tier] for rx, k in cfg.get('limits', []) if re.match(rx, n)), None), 1)))
    t0 = time.time()
    res = check.run_jobs(jobs, 8, '/tmp/runp')
    tot = 0
    for k, r in sorted(res.items(), key=lambda x: x[1]['wall']):
        tot += r['wall']
        st = r['stats']
        print('%-30s %6.1fs p=%d a=%d q=%d qs=%.1f max=%.1f %s %s' % (k[2:], r['wall'], st.get('paths', 0), st.get('asserts', 0), st.get('queries', 0), st.get('solver_s', 0), st.get('max_query_s', 0), 'VIOL %d' % len(r['violations']) if r['violations'] else '', (r['error'] or r.get('incomplete') or '')[:300]))
        for v in r['violations'][:2]:
            print('      ', v['kind'], v['info'], 'in', [x[1] for x in v['inputs']][:30], v['expect'])
    print('total %.1f cpu, %.1f wall' % (tot, time.time() - t0))
t = threading.Thread(target=main); t.start(); t.join()
