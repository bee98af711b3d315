# differential self-test of the term layer against z3
import sys, random; sys.path.insert(0,'/verif/engine')
import terms as t, z3
sys.setrecursionlimit(100000)
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 0)
W=[1,2,3,8,16,32,64]
vs={w:[t.var('v%d_%d'%(w,i),w) for i in range(2)] for w in W}
def const(w):
    r=random.random()
    if r<.3: return random.getrandbits(w)
    if r<.6: return random.choice([0,1,(1<<w)-1, 1<<random.randrange(w)])&((1<<w)-1)
    return ((1<<random.randrange(w+1))-1)<<random.randrange(w) & ((1<<w)-1)
# build parallel: (term, plainfn(model)->int)
pool={w:[(v,(lambda m,v=v:m[v.vm.bit_length()-1])) for v in vs[w]] for w in W}
def pick(w):
    if random.random()<.25:
        c=const(w); return (c,lambda m,c=c:c)
    return random.choice(pool[w][-30:])
def ref(op,w,x,y):
    M=(1<<w)-1
    import terms
    s=lambda v:v-(1<<w) if v>>(w-1) else v
    if op=='add':return (x+y)&M
    if op=='sub':return (x-y)&M
    if op=='mul':return (x*y)&M
    if op=='udiv':return x//y if y else M
    if op=='urem':return x%y if y else x
    if op=='sdiv':
        a,b=s(x),s(y)
        if b==0:return M if a>=0 else 1
        q=abs(a)//abs(b); return (q if (a<0)==(b<0) else -q)&M
    if op=='srem':
        a,b=s(x),s(y)
        if b==0:return x
        q=abs(a)%abs(b); return (-q if a<0 else q)&M
    if op=='and':return x&y
    if op=='or':return x|y
    if op=='xor':return x^y
    if op=='shl':return (x<<y)&M if y<w else 0
    if op=='lshr':return x>>y if y<w else 0
    if op=='ashr':return (s(x)>>min(y,w-1))&M
def refc(op,w,x,y):
    s=lambda v:v-(1<<w) if v>>(w-1) else v
    if op[0]=='s': x,y=s(x),s(y); op='u'+op[1:]
    return int({'eq':x==y,'ne':x!=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y}[op])
models=[]
for i in range(30):
    models.append({v.vm.bit_length()-1: random.choice([random.getrandbits(v.w),const(v.w)]) for w in W for v in vs[w]})
cnt=0; MEMO=[{} for _ in range(30)]
for it in range(6000):
    w=random.choice(W); k=random.randrange(7)
    if k<=2:
        op=random.choice(list(t.BIN)); (a,fa),(b,fb)=pick(w),pick(w)
        if w==1 and op in('sdiv','srem','udiv','urem','shl','lshr','ashr','mul'): continue
        r=t.BIN[op](w,a,b); f=lambda m,op=op,w=w,fa=fa,fb=fb:ref(op,w,fa(m),fb(m)); rw=w
    elif k==3:
        op=random.choice(list(t.CMP)); (a,fa),(b,fb)=pick(w),pick(w)
        r=t.CMP[op](w,a,b); f=lambda m,op=op,w=w,fa=fa,fb=fb:refc(op,w,fa(m),fb(m)); rw=1
    elif k==4:
        (c,fc),(a,fa),(b,fb)=pick(1),pick(w),pick(w)
        r=t.ite(w,c,a,b); f=lambda m,fc=fc,fa=fa,fb=fb: fa(m) if fc(m) else fb(m); rw=w
    elif k==5:
        w2=random.choice(W); (a,fa)=pick(w)
        if w2>w:
            if random.random()<.7: r=t.zext(w,w2,a); f=fa
            else: r=t.sext(w,w2,a); f=lambda m,fa=fa,w=w,w2=w2:(fa(m)-(1<<w) if fa(m)>>(w-1) else fa(m))&((1<<w2)-1)
        else:
            lo=random.randrange(w-w2+1); r=t.ext(lo+w2-1,lo,a); f=lambda m,fa=fa,lo=lo,w2=w2:(fa(m)>>lo)&((1<<w2)-1)
        rw=w2
    else:
        ps=[];rw=0
        for _ in range(random.randrange(2,5)):
            pw=random.choice([1,2,8,16]); ps.append((pw,)+pick(pw)); rw+=pw
        r=t.concat([(p[0],p[1]) for p in ps])
        def f(m,ps=ps):
            v=0
            for p in ps: v=v<<p[0]|p[2](m)
            return v
        if rw not in pool: 
            lo=0; w2=8 if rw>=8 else 2
            if rw<8 and rw<2: continue
            g=f; r=t.ext(w2-1,0,r); f=lambda m,g=g,w2=w2:g(m)&((1<<w2)-1); rw=w2
    # memo the ref
    cache={}
    def F(m,f=f,cache=cache):
        k=id(m)
        if k not in cache: cache[k]=f(m)
        return cache[k]
    for mi,m in enumerate(models):
        x=t.evaluate(r,m,MEMO[mi]); y=F(m)
        assert x==y,(it,t.show(r,6),hex(x),hex(y))
        assert y & ~t.pmof(r)==0,(it,'pm',t.show(r,6),hex(y),hex(t.pmof(r)))
    if type(r) is t.T:
        assert r.w==rw,(t.show(r,5),rw)
        pool[rw].append((r,F))
        if it%3==0:
            z=t.to_z3(r); m=models[0]
            s=z3.substitute(z,*[( t.to_z3(v), z3.BoolVal(bool(m[v.vm.bit_length()-1])) if w==1 else z3.BitVecVal(m[v.vm.bit_length()-1],w)) for w in W for v in vs[w]])
            s=z3.simplify(s); val=(1 if z3.is_true(s) else 0) if rw==1 else s.as_long()
            assert val==F(m),(it,t.show(r,5)); cnt+=1
print('ok',cnt)
