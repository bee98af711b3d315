"""dev helper: run1.py PROP HARNESS [tier]"""
import sys, time, threading, pprint, json
sys.path.insert(0, '/verif/engine')
sys.setrecursionlimit(1000000); threading.stack_size(512*1024*1024)
def main():
    import llir, engine
    t0=time.time()
    mod=llir.Module('/verif/.build/ir-%s/%s/deps/mh.ll'%(sys.argv[1], 'release'))
    print('parsed',time.time()-t0)
    names=[n for n in mod.funcs if n.startswith(sys.argv[2])]
    for n in names:
        t0=time.time()
        e=engine.Engine(mod,tier=int(sys.argv[3]) if len(sys.argv)>3 else 0)
        try:
            e.explore(n)
            err=''
        except Exception as ex:
            import traceback; 
            if '-t' in sys.argv: traceback.print_exc()
            err=repr(ex)[:600]
            if e.violations: err+=' (and violations)'
        print('%-28s %6.1fs %s' % (n,time.time()-t0, err), {k:(round(v,2) if isinstance(v,float) else v) for k,v in e.stats.items() if v})
        for v in e.violations[:3]: print('   VIOL',v['kind'],v['info'],'inputs',[x[1] for x in v['inputs']][:40], 'expect',v['expect'])
        if '-s' in sys.argv:
            for s in e.samples: print('   ',s)
t=threading.Thread(target=main); t.start(); t.join()
