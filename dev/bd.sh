cd /verif; python3 -c "
import sys; sys.path.insert(0,'/verif')
from vp.core import *
try: print(daemon_driver('$1'))
except CheckError as x: print(x)"
