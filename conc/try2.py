import sys; sys.path.insert(0,'/verif/conc'); sys.path.insert(0,'/verif/dv')
import importlib, random, conc, time, os
from collections import Counter
t=importlib.import_module("try")
import extra, scen
exe,msg=conc.build("/tmp/cw", os.environ.get("DV_REPO","/repo")); assert exe,msg
d=conc.Driver(exe)
for nm in sys.argv[2:] or extra.CUSTOM:
    k=Counter(); t0=time.time(); n=0
    for s in range(int(sys.argv[1])):
        try: x=extra.CUSTOM[nm][0](random.Random("%s%d"%(nm,s)))
        except scen.Retry: k['retry']+=1; continue
        n+=1
        try: b=x.run(d)
        except (conc.Crash,conc.Hang) as e: b=[(str(e)[:200],(),"")]
        for y in b: k[y[0]]+=1; k[y[0],'ex']=(s,y[2])
    print(nm,n,"%.1fms"%(1000*(time.time()-t0)/n),k)
