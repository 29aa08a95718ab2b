import sys; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
import random
from jxv.terms import *
from jxv import terms as TT
from jxv.interp import sdivmod
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 0)
d,s,N=dim("d"),dim("s"),dim("N"); ds=dim("d*s")
assert ds==d*s
def val(l,env):
    t=l.k
    for v,a in l.c:
        if v.kind=="prod": t+=a*env[v.name[0]]*env[v.name[1]]
        elif v.kind=="dim":
            p=1
            for f in TT.dim_factors(v): p*=env[f]
            t+=a*p
        else: t+=a*env[v]
    return t
class E(dict):
    def __missing__(self,k): return super().__getitem__(k.name)
def tval(t,env):
    out=0
    for (bv,fs),c in t.m.items():
        assert not bv
        p=c
        for a,e in fs:
            if a.kind=='iv':
                x=val(a.data[1],env); p*= (x>=0 if a.data[0]=='ge' else x==0)
            else: assert a.kind=='var',a; p*=val(a.data[0],env)**e
        out+=p
    return out
bad=0
for it in range(6000):
    i,i2=ix(d),ix(d); j,j2=ix(s),ix(s); k=ix(s-4); n=ix(N); q=ix(ds)
    base=[i*s+j, i2*s+j2, i*s, j, i*s+k+3, i*s+s-1, ds, s, d, q, n, i, i2*s+1, Lin.of(random.randint(-5,5)), ds-s, d*s-1]
    l=Lin()
    for _ in range(random.randint(1,3)): l=l+random.choice(base)*random.choice([1,1,-1,-1,2,-2])
    lo,hi=TT.bounds(l)
    eq,ge=iv_eq(l),iv_ge(l)
    try: dm=sdivmod(l,s)
    except Unsupported: dm=None
    for _ in range(6):
        e=E({'d':random.randint(1,4),'s':random.randint(4,6),'N':random.randint(1,4)})
        vs=set(l.vars())|{v for x in (i,i2,j,j2,k,n,q) for v in x.vars()}
        ok=True
        for v in vs:
            if v.kind=='ix':
                m=val(v.ext,e)
                if m<=0: ok=False;break
                e[v]=random.randrange(m)
        if not ok: continue
        x=val(l,e)
        if lo is not None and x<lo or hi is not None and x>hi: print('BOUNDS',l,lo,hi,x,e); bad+=1
        if tval(eq,e)!=(x==0): print('EQ',l,eq,x,e); bad+=1
        if tval(ge,e)!=(x>=0): print('GE',l,ge,x,e); bad+=1
        if dm is not None:
            A,B=val(dm[0],e),val(dm[1],e)
            if x!=A*e['s']+B or not 0<=B<e['s']: print('DM',l,dm,x,e); bad+=1
    if bad>5: break
print('done',it,bad)
