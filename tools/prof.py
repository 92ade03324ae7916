import os,sys
os.environ["PYTHONHASHSEED"]="0"
sys.path.insert(0,"/verif")
from symx import runner
import cProfile,pstats
from time import perf_counter
mod=runner.prepare(sys.argv[1],True)
cases=[c for c in mod.cases("quick") if sys.argv[2] in repr(c)][:1]
ex=runner.Explorer(mod,cases)
t=perf_counter()
lim=float(sys.argv[3]) if len(sys.argv)>3 else 10
pr=cProfile.Profile()
pr.enable()
v,left=ex.explore(0,[[]],lim,t+lim)
pr.disable()
print(cases, ex.npaths,len(left),perf_counter()-t,ex.engine.stats.as_dict(),v[:2],dict(ex.unsupported))
pstats.Stats(pr).sort_stats("tottime").print_stats(28)
