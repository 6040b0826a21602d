import sys,time,importlib
import os
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import contract, prove
importlib.import_module('contracts.'+sys.argv[1])
for k,c in list(contract.REGISTRY.items()):
    if len(sys.argv)>2 and sys.argv[2] not in k: continue
    t=time.time(); r=contract.verify(c,verbose=len(sys.argv)>3,contracts={q.split('#')[0]:x for q,x in contract.REGISTRY.items() if x.modular and q.split('#')[0]!=k.split('#')[0]})
    print(k, 'ERR '+r.error if r.error else '', len(r.obls),'obls',len(r.failed),'failed', round(time.time()-t,1),'s', r.loops)
    for o in r.failed: print('   FAIL',o.name(),o.backend,[c for c in [o.text]])
    print('  vac',r.vacuity); 
    if len(sys.argv)>3 and 'i' in sys.argv[3]:
        for l,v in r.invs.items():
            print('  ',l); [print('      ',x) for x in sorted(v)]
print(prove.STATS)
