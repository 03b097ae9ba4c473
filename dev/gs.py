import sys; sys.path.insert(0,'/verif/checks'); sys.path.insert(0,'/verif')
from store_common import *
c=Check("T07")
c.seed=int(sys.argv[2]) if len(sys.argv)>2 else 1
exe=daemon_driver("drv_store")
progs=[lines(p) for p in generate(c,"GenStore",num=int(sys.argv[1]),depth=50,shards=8)]
c.log("gen %d"%len(progs))
conform(c,"TraceStore",exe,progs,"store")
sys.exit(c.finish())
