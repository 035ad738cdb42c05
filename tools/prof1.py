"""Profile one harness: prof1.py PROP NAME (developer tool)."""
import cProfile, pstats, sys, os
sys.path.insert(0, '/verif')
from pvc import prove_worker as w
hs = [h for h in w.load(sys.argv[1]) if h.name == sys.argv[2]]
from pvc import engine
pr = cProfile.Profile()
pr.enable()
r = engine.run_harness(hs[0], 'proof', 60.0, timeout=6.0)
pr.disable()
print(r['status'], r['reason'])
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
