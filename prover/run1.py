import sys, time
sys.path.insert(0, '/verif/prover')
sys.setrecursionlimit(10000)
from contract import *
from base import *
from lib import Lib
import lib as L
import spec_bn
import spec_p2
import spec_vec
import spec_bp
import spec_bytes
import spec_bb
import spec_pair
import spec_pool
import spec_parse
if __name__=='__main__':
    import props; import os; V=props.setup(os.environ.get('SSA','/verif/build/ssa.json')); V.strict=True; V.prop=os.environ.get("PROP")
    pat=sys.argv[1:]
    for n,c in CONTRACTS.items():
        if pat and not any(p in n for p in pat): continue
        if c.o.get("special") or c.trusted: continue
        r=Report(); t=time.time()
        V.verify(c,r)
        bad=[o for o in r.obl if o[2]!='proved']
        print(n.replace(PKG,''), len(r.obl), 'obligations', 'OK' if not bad else 'BAD', '%.2fs'%(time.time()-t))
        for o in bad[:12]: print('    ',o[1:3],str(o[3])[:600])
