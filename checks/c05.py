import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C05", keys=r".", rule="a case is one random box with random fields, accumulations of every pipeline and particles; every interpolation coefficient, reduced and unloaded current, charge density, bound charge, hydro moment and species energy is compared with a double-precision evaluation on the global mesh",
               assumptions=["hydro is compared after synchronisation; rho on perfect-conductor surfaces is defined as zero by the code"])
    S = SEED
    n = 400 if THOROUGH else 120
    plan = []
    cfgs = ["ref", "v4sse", "v8avx2", "v16port", "v16avx512"]
    if THOROUGH:
        cfgs += [c for c in ["ref", "v4sse", "v4port", "v4avx", "v4avx2", "v8avx", "v8avx2", "v8port", "v16port", "v16avx512", "omp", "legacy"] if c not in cfgs]
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (3, 2), (2, 4), (8, 0), (1, 8), (5, 3)] if THOROUGH else [(1 + (k + S) % 4, 0), (1 + k % 3, [2, 4, 4, 8][(k + S) % 4])]):
            for s in range(2 if THOROUGH else 1):
                plan.append((c, "--mode moments --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3 + 0, tpp), ranks))
    for k, c in enumerate(cfgs):
        for j in range(8 if THOROUGH else 2):
            plan.append((c, "--mode moments --cases %d --seed %d --tpp %d" % (n // 6, S * 1000 + 500 + 70 * j + 7 * k, wide(k + j)), 0))
            plan.append((c, "--mode moments --cases %d --seed %d --tpp %d" % (n // 6, S * 1000 + 600 + 70 * j + 7 * k, 1 + (S + k + 4 * j) % 8), 0))
    ck.matrix("particle", "particle.cc", plan, skip="src/(collision/|emitter/|vpic/)", defs=[])
    return ck.finish()


main(run)
