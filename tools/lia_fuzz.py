import sys, random
sys.path.insert(0,'/verif')
import z3
from vp import lia
R=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 0)
W=8
vs=[z3.BitVec(f"v{i}",W) for i in range(3)]
def bv(d,w=W):
    if d==0 or R.random()<.1:
        return R.choice(vs) if (w==W and R.random()<.7) else z3.BitVecVal(R.randrange(1<<w),w)
    o=R.randrange(20)
    a=lambda: bv(d-1,w)
    c=lambda: z3.BitVecVal(R.randrange(1<<w),w)
    if o==0: return a()+a()
    if o==1: return a()-a()
    if o==2: return -a()
    if o==3: return ~a()
    if o==4: return a()*c()
    if o==5: return z3.UDiv(a(),c())
    if o==6: return z3.URem(a(),c())
    if o==7: return a()/c()
    if o==8: return z3.SRem(a(),c())
    if o==9: return a()<<z3.BitVecVal(R.randrange(w+1),w)
    if o==10: return z3.LShR(a(),z3.BitVecVal(R.randrange(w+1),w))
    if o==11: return a()>>z3.BitVecVal(R.randrange(w+1),w)
    if o==12: return a()&c()
    if o==13: return a()|a()
    if o==14: return a()^c()
    if o==15: return z3.If(bo(d-1),a(),a())
    if o==16 and w>2:
        k=R.randrange(1,w); return z3.Concat(bv(d-1,k) , bv(d-1,w-k))
    if o==17 and w<20:
        k=R.randrange(1,6); l=R.randrange(k+1); return z3.Extract(l+w-1,l,bv(d-1,w+k))
    if o==18 and w>2:
        k=R.randrange(1,w); return z3.ZeroExt(k,bv(d-1,w-k)) if R.random()<.5 else z3.SignExt(k,bv(d-1,w-k))
    if o==19: return z3.UDiv(a(),a()) if R.random()<.5 else a()*a()
    return a()&a()
def bo(d):
    o=R.randrange(8)
    if d>0 and o==0: return z3.And(bo(d-1),bo(d-1))
    if d>0 and o==1: return z3.Or(bo(d-1),bo(d-1))
    if d>0 and o==2: return z3.Not(bo(d-1))
    a,b=bv(max(d,0)),bv(max(d,0))
    return R.choice([z3.ULT,z3.ULE,z3.UGT,z3.UGE,lambda a,b:a<b,lambda a,b:a<=b,lambda a,b:a==b,lambda a,b:a!=b])(a,b)
import collections
st=collections.Counter()
for i in range(1500):
    cs=[bo(3) for _ in range(R.randrange(1,5))]
    if R.random()<.5: cs=[z3.simplify(c) for c in cs]
    s=z3.Solver(); s.set("timeout",3000); s.add(*cs); r=s.check()
    t=z3.Solver(); t.set("timeout",1000); t.add(*lia.translate(cs)); q=t.check()
    st[(str(r),str(q))]+=1
    if r==z3.sat and q==z3.unsat:
        print("BUG",cs); print(s.model()); break
print(st)
