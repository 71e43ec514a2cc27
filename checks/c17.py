import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C17", keys=r".", rule="a case is one random world with one to 32 boundary models on its outer and inner walls, stepped one to five times; every particle is followed by its identity and every count compared; distinct ones differ in box, models, species or particles", assumptions=["custom models sit on faces that ranks do not share (a documented limit)"])
    n = 600 if THOROUGH else 130
    S = SEED
    cfgs = ["ref", "v4sse", "v8avx2", "v16avx512"] if THOROUGH else ["ref", ["v4sse", "v8avx2", "v16avx512"][S % 3]]
    if THOROUGH:
        cfgs += ["v4port", "v8port", "legacy", "omp"]
    plan = []
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (3, 2), (2, 4), (8, 0), (1, 8), (5, 3)] if THOROUGH else [(2, 0), (1, 2 + (S + k) % 3), (1, [4, 6, 8][(S + k) % 3])]):
            for s in range(3 if THOROUGH else 1):
                plan.append((c, "--mode pbc --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3, tpp), ranks))
    for k, c in enumerate(cfgs if THOROUGH else [cfgs[0], cfgs[1 + S % (len(cfgs) - 1)]]):
        plan.append((c, "--mode pbc --cases %d --seed %d --tpp %d" % (n // 4, S * 1000 + 500 + 7 * k, wide(k)), 0))
    ck.matrix("bnd", "bnd.cc", plan, skip="src/(collision|vpic)")
    return ck.finish()


main(run)
