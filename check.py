#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] [--seed N] [--replay FILE] [--case I]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from dst import engine
def main(av):
    pid = av[0]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); replay = None
    i = 1
    while i < len(av):
        if av[i] in ("quick", "thorough"): tier = av[i]
        elif av[i] == "--seed": i += 1; seed = int(av[i])
        elif av[i] == "--replay": i += 1; replay = av[i]
        i += 1
    return engine.main(pid, tier, seed, replay)
if __name__ == "__main__":
    try: rc = main(sys.argv[1:])
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
