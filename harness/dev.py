import sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
os.environ["VERIF_DEBUG"]="1"
from common import *
fnp,a,b=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
fn=resolve(fnp)
import time,collections
t=time.time(); c=collections.Counter(); bad=0; sigs=set(); known=set()
for i in range(a,b):
    r=run_case(fn,fnp.split(":")[1].upper(),1,i,"quick",120)
    c.update(r["counts"]); sigs.add(r["sig"]); known|=set(r["known"])
    if r["status"]!="ok":
        bad+=1
        if bad<=int(os.environ.get("NB","1")):
            print(r["index"],r["status"],r["message"]); print(r["trace"][-1800:]); print("\n".join(r["log"][-12:]))
print(fnp,"bad",bad,"of",b-a,round(time.time()-t,2),"s",len(sigs),known,dict(c))
