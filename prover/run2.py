import sys
sys.path.insert(0, '/verif/prover')
sys.setrecursionlimit(10000)
import props, importlib
from contract import *
V = props.setup('/verif/build/ssa.json')
V.strict = True
for g in sys.argv[1:]:
    m, f = g.split('.')
    r = Report()
    getattr(importlib.import_module(m), f)(V, r)
    for o in r.obl:
        print(o)
