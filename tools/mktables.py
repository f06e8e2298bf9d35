#!/usr/bin/env python3
"""Builds spec/tables.ndjson: the discrete-log / exponential / circle tables of the tower of
finite fields in which spec/Fields.tla interprets expressions, and the values of the variables
at the sample points.  Deterministic.  Every algebraic law the specification relies on is
re-checked by TLC from these tables (spec/FieldsLaws.tla), so nothing here is trusted."""
import json, os, random
rnd = random.Random(20240917)
# node: p, q (order of the "positive" subgroup; 0 = none), ES (node of exponents), TS (node of angles)
N = [(28319,14159,2,5),(14159,7079,3,5),(7079,3539,4,5),(3539,61,10,5),(59,29,6,8),
     (29,7,0,0),(827,59,5,9),(5,0,0,0),(23,11,0,0),(61,5,0,0)]
EP = [0,1,2,3,7,5,0,0,0,4]
def isprime(n): return n>1 and all(n%d for d in range(2,int(n**.5)+1))
def order_gen(p,q):
    h=2
    while True:
        g=pow(h,(p-1)//q,p)
        if g!=1 and pow(g,q,p)==1: return g
        h+=1
def cmul(a,b,p): return ((a[0]*b[0]-a[1]*b[1])%p,(a[0]*b[1]+a[1]*b[0])%p)
def cpow(a,n,p):
    r=(1,0)
    while n:
        if n&1: r=cmul(r,a,p)
        a=cmul(a,a,p); n>>=1
    return r
nodes=[]
for i,(p,q,es,ts) in enumerate(N):
    assert isprime(p)
    nd=dict(p=p,q=q,es=es,ts=ts,ep=EP[i],g=0,exp=[],log=[],r=0,co=[],si=[])
    if q:
        assert isprime(q) and (p-1)%q==0
        if es: assert N[es-1][0]==q
        g=order_gen(p,q); nd['g']=g
        e=[1]
        for _ in range(q-1): e.append(e[-1]*g%p)
        lg=[-1]*p
        for k,v in enumerate(e): lg[v]=k
        nd['exp']=e; nd['log']=lg
    if ts:
        r=N[ts-1][0]; nd['r']=r
        assert p%4==3 and (p+1)%r==0
        while True:
            z=(rnd.randrange(1,p),rnd.randrange(1,p))
            # z/conj(z) has norm 1
            ni=pow((z[0]*z[0]+z[1]*z[1])%p,p-2,p)
            w=cmul(z,z,p); w=(w[0]*ni%p,w[1]*ni%p)
            w=cpow(w,(p+1)//r,p)
            if w!=(1,0): break
        assert cpow(w,r,p)==(1,0)
        c=(1,0)
        for _ in range(r):
            nd['co'].append(c[0]); nd['si'].append(c[1]); c=cmul(c,w,p)
        assert c==(1,0)
    nodes.append(nd)
VARS=["x","y","z","a","b","c","n","t","u","v"]
K=10                      # points 1..5 live at home node 2, 6..10 at home node 3
HOME=[2]*5+[3]*5
MIXED={4,5,9,10}          # points where the variables have arbitrary sign
def pos(i,v):
    nd=nodes[i]; return nd['q']==0 or nd['log'][v%nd['p']]>=0
env={v:[[0]*K for _ in N] for v in VARS}
for i,(p,q,es,ts) in enumerate(N):
    for k in range(1,K+1):
        done=[]
        for name in VARS:
            best=None
            for _ in range(300000):
                v=rnd.randrange(2,p-1) if p>23 else rnd.randrange(1,p)
                if i>2:
                    if q and (k not in MIXED) and not pos(i,v): continue
                    best=v; break
                if k in MIXED:
                    if v in done: continue
                    if i in (1,2) and name==("x" if k in (4,9) else "y") and pos(i,v): continue
                    best=v; break
                if not all(pos(i,w) for w in (v,v+1,v+2,2*v+1,v*v+1)): continue
                m=len(done)
                prev=done[:3] if m<4 else done[:1]
                if all(pos(i,w) for d in prev for w in (v+d,)) and (m>2 or all(pos(i,w) for d in prev for w in (v+d+1,v*d+1))):
                    best=v; break
            assert best is not None,(i,k,name)
            done.append(best); env[name][i][k-1]=best
# make sure mixed points really have negative x at the homes
for k in MIXED:
    i=HOME[k-1]-1
    assert any(not pos(i,env[v][i][k-1]) for v in ("x","y")),k
pi=[[rnd.randrange(2,p) if p>5 else 2 for _ in range(K)] for (p,_,_,_) in N]
for i in (0,1,2):
    for k in range(K):
        while not pos(i,pi[i][k]): pi[i][k]=rnd.randrange(2,N[i][0])
out=os.path.join(os.path.dirname(__file__),'..','spec','tables.ndjson')
with open(out,'w') as f:
    f.write(json.dumps(dict(nodes=nodes,K=K,home=HOME,mixed=[1 if k in MIXED else 0 for k in range(1,K+1)],pi=pi,env=env,vars=VARS))+"\n")
for i in (0,1,2,3): print(N[i][0],[ (w,pos(i,w)) for w in (2,3,5,6,7,10)])
for k in sorted(MIXED):
    i=HOME[k-1]-1; print(k,[(v,pos(i,env[v][i][k-1])) for v in "xyz"])
