import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C18", keys=r".", rule="a case is one random world whose emitters are applied once to a random set of cell components; every emitted particle is attributed to its face by its weight; distinct ones differ in box, faces, emission parameters or fields", assumptions=["storage is sized by the user for what may be emitted (running out is a documented warning)"])
    n = 600 if THOROUGH else 130
    S = SEED
    cfgs = ["ref", "v4sse", "v8avx2", "v16avx512"] if THOROUGH else ["ref", ["v4sse", "v8avx2", "v16avx512"][S % 3]]
    if THOROUGH:
        cfgs += ["v4port", "v8port", "legacy", "omp"]
    plan = []
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (3, 2), (2, 4), (8, 0), (1, 8), (5, 3)] if THOROUGH else [(2, 0), (1, 2 + (S + k) % 3), (1, [4, 6, 8][(S + k) % 3])]):
            for s in range(3 if THOROUGH else 1):
                plan.append((c, "--mode emit --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3, tpp), ranks))
    ck.matrix("bnd", "bnd.cc", plan, skip="src/(collision|vpic)")
    return ck.finish()


main(run)
