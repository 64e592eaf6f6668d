"""every true instance of a floating point formula must satisfy its translation to reals"""
import sys, random, struct
sys.path.insert(0,'/verif')
import z3
from vp import lia
R=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 0)
F=z3.Float32(); D=z3.Float64(); RM=z3.RNE(); RZ=z3.RTZ()
def val(k):
    if k==0: return float(R.randrange(-20,20))
    if k==1: return R.uniform(-2,2)
    if k==2: return struct.unpack('f',struct.pack('f',R.uniform(-1e6,1e6)))[0]
    if k==3: return R.choice([0.0,1.0,-1.0,0.5,1e-44,-1e-40,2.0**24,2.0**24-1,0.1])
    return R.uniform(-1,1)*10.0**R.randrange(-44,30)
import collections
st=collections.Counter()
for it in range(int(sys.argv[2]) if len(sys.argv)>2 else 400):
    vs=[z3.FP(f"x{it}_{i}",F) for i in range(3)]
    iv=[z3.BitVec(f"i{it}_{i}",32) for i in range(2)]
    cs=[]; sub=[]
    for v in vs:
        x=z3.simplify(z3.fpFPToFP(RM,z3.FPVal(val(R.randrange(5)),D),F)); sub.append((v,x))
        lo,hi=z3.FPVal(-1e30,F),z3.FPVal(1e30,F)
        if R.random()<.3: cs+= [z3.fpGEQ(v,x),z3.fpLEQ(v,x)]
        else: cs+=[z3.fpLEQ(lo,v),z3.fpLEQ(v,hi)]
    for v in iv:
        x=R.choice([R.randrange(-30,30),R.randrange(-2**31,2**31)]); sub.append((v,z3.BitVecVal(x,32)))
        if R.random()<.5: cs+=[v>=-2**10 if -2**10<=x else v>=-2**31, v<=2**10 if x<=2**10 else v<=2**31-1]
    def fp(d,s=F):
        if s==D:
            return z3.fpFPToFP(RM,fp(d-1),D) if R.random()<.6 or d<=0 else R.choice([z3.fpAdd,z3.fpMul,z3.fpDiv])(RM,fp(d-1,D),fp(d-1,D))
        if d<=0:
            return R.choice(vs) if R.random()<.7 else z3.simplify(z3.fpFPToFP(RM,z3.FPVal(val(R.randrange(5)),D),F))
        o=R.randrange(12); a=lambda: fp(d-1)
        if o==0: return z3.fpAdd(RM,a(),a())
        if o==1: return z3.fpSub(RM,a(),a())
        if o==2: return z3.fpMul(RM,a(),a())
        if o==3: return z3.fpDiv(RM,a(),a())
        if o==4: return z3.fpAbs(a())
        if o==5: return z3.fpNeg(a())
        if o==6: return z3.If(bo(d-1),a(),a())
        if o==7: return z3.fpSignedToFP(RM,R.choice(iv),F)
        if o==8: return z3.fpUnsignedToFP(RM,R.choice(iv),F)
        if o==9: return z3.fpFPToFP(RM,fp(d-1,D),F)
        if o==10: return z3.fpFMA(RM,a(),a(),a())
        return z3.fpMax(a(),a()) if R.random()<.5 else z3.fpMin(a(),a())
    def bo(d):
        o=R.randrange(9)
        if o==8 and d>0: return z3.fpToSBV(RZ,fp(d-1),z3.BitVecSort(32))<=R.choice(iv)
        if d>0 and o==0: return z3.And(bo(d-1),bo(d-1))
        if d>0 and o==1: return z3.Or(bo(d-1),bo(d-1))
        if d>0 and o==2: return z3.Not(bo(d-1))
        return R.choice([z3.fpLT,z3.fpLEQ,z3.fpGT,z3.fpGEQ,z3.fpEQ,lambda a,b:a==b])(fp(max(d,0)),fp(max(d,0)))
    fs=[bo(4) for _ in range(4)]
    true=[]
    for f in fs:
        v=z3.simplify(z3.substitute(f,*sub))
        if z3.is_true(v): true.append(f)
        elif z3.is_false(v): true.append(z3.Not(f))
        else: st["?"]+=1
    cs+=true
    if R.random()<.5: cs=[z3.simplify(c) for c in cs]
    # the instance itself
    x=lia.Lia()
    for c in cs: x.learn(c); x.learn_fp(c)
    out=[x.bo(c) for c in cs]
    pin=[]
    for v,c in sub:
        if z3.is_bv(v):
            e=x.bv(v)[0]; 
            if not isinstance(e,int): pin.append(e==c.as_long())
        else:
            e=x.fp(v)
            if e is not None and not isinstance(e[0],lia.real.Q if hasattr(lia,'real') else __import__('fractions').Fraction):
                q=x.const(c); pin.append(e[0]==z3.RealVal(str(q)))
    t=z3.Solver(); t.set("timeout",2000); t.add(*out,*x.side,*x.finish_fp(),*pin); q=t.check()
    st[str(q)]+=1
    if q==z3.unsat:
        print("BUG",cs); print(sub); break
print(st)
