import sys,cProfile,pstats,importlib
sys.path.insert(0,'/verif')
from pyvc import contract, prove
importlib.import_module('contracts.'+sys.argv[1])
c=[c for k,c in contract.REGISTRY.items() if sys.argv[2] in k][0]
p=cProfile.Profile(); p.enable(); r=contract.verify(c); p.disable()
print(len(r.obls),len(r.failed),r.seconds,prove.STATS)
pstats.Stats(p).sort_stats('tottime').print_stats(22)
