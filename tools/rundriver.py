import sys; sys.path.insert(0,'/verif')
from irv import smlbuild, build
import time
d=sys.argv[1]
b=smlbuild.driver(d)
for t in smlbuild.names(d):
    t0=time.time(); r=smlbuild.run_driver(b,t,7,timeout=100); print(t, r, round(time.time()-t0,1))
