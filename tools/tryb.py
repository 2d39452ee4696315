import sys,time,traceback
sys.path.insert(0,'/verif')
from vlib import bounded
from vlib.drv import Fail
ids=sys.argv[2:] or sorted(bounded.BOUNDED)
for k in ids:
    t=time.time(); c=bounded.Ctx(k,sys.argv[1],1)
    try:
        bounded.BOUNDED[k](c); print(k,"ok",c.n,"%.1fs"%(time.time()-t))
    except Fail as e:
        print(k,"FAIL",e.msg,"%.1fs"%(time.time()-t)); 
        for a,b in e.data.items(): print("   ",a,":",str(b)[:1500])
    except Exception: traceback.print_exc()
    sys.stdout.flush()
