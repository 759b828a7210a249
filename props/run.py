import importlib
import os
import sys
sys.setrecursionlimit(20000)
m = importlib.import_module('props.' + sys.argv[1].lower())
rc = m.main()
sys.stdout.flush()
sys.stderr.flush()
sys.exit(1 if rc else 0)
