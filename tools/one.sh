#!/bin/bash
# one.sh FILE.cc harness [budget]
cd /verif
python3 - "$1" <<'P' >/tmp/one.bc.cmd
P
/opt/veriftools/pyvenv/bin/python - "$@" <<'P'
import sys,os,json,subprocess,time
sys.path.insert(0,'/verif')
from vp import run as R
from vp.engine import *
src='/verif/contracts/'+sys.argv[1]
r=R.sh(R.CXX+R.IRFLAGS+[src,'-o','/tmp/one.bc'])
if r.returncode: print(r.stdout); sys.exit(1)
m=json.loads(subprocess.run(['/verif/build/irdump','/tmp/one.bc'],stdout=subprocess.PIPE,text=True).stdout)
fo,ho,_,_=R.options(src)
import re
for n in sorted(m['fns']):
    if n.startswith('vp_h_') and re.fullmatch(sys.argv[2],n[5:]):
        o=dict(fo)
        for pat,kv in ho.items():
            if re.fullmatch(pat,n[5:]): o.update(kv)
        e=Engine(m,o); t=time.time()
        if os.environ.get('PROF'):
            import cProfile; cProfile.run("e.verify(n,int(sys.argv[3]) if len(sys.argv)>3 else 60)",sort='cumtime')
        else: e.verify(n,int(sys.argv[3]) if len(sys.argv)>3 else 60)
        print(n,"paths",e.stats.paths,"insts",e.stats.insts,"vcs",e.stats.vcs,"q",e.stats.queries,"%.1fs"%(time.time()-t),"solver %.1f"%e.stats.time,"ends",e.ends,"obl",len(e.obls),"undec",e.undecided,"cov",e.covers,e.stats.by)
        for i in e.stats.invs: print("   INV",str(i)[:600])
        for k,f in e.failures.items(): print("   FAIL",k,f["where"],str(f["values"][:1])[:700])
P
