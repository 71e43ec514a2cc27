import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C23", keys=r"^(touched|center-value|uncenter-value|not-inverse)$", rule="a case is one random species with random fields that is centered, uncentered back, and uncentered afresh; every momentum is compared with a double-precision evaluation and everything else bit for bit",
               assumptions=["tolerances scale with the size of the kick in units of the momentum"])
    S = SEED
    n = 3000 if THOROUGH else 600
    plan = []
    cfgs = ["ref", "v4sse", "v8avx2", "v16port", "v16avx512"]
    if THOROUGH:
        cfgs += [c for c in ["ref", "v4sse", "v4port", "v4avx", "v4avx2", "v8avx", "v8avx2", "v8port", "v16port", "v16avx512", "omp", "legacy"] if c not in cfgs]
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (3, 2), (2, 4), (8, 0), (1, 8), (5, 3)] if THOROUGH else [(1 + (k + S) % 4, 0), (1 + k % 3, [2, 4, 4, 8][(k + S) % 4])]):
            for s in range(3 if THOROUGH else 1):
                plan.append((c, "--mode center --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3 + 0, tpp), ranks))
    for k, c in enumerate(cfgs if THOROUGH else [cfgs[0], cfgs[1 + S % (len(cfgs) - 1)]]):
        plan.append((c, "--mode center --cases %d --seed %d --tpp %d" % (n // 4, S * 1000 + 500 + 7 * k, wide(k)), 0))
    ck.matrix("particle_nm", "particle.cc", plan, skip="src/(collision|emitter|vpic|species_advance/standard/(hydro|energy|rho)_p|species_advance/standard/pipeline/(hydro|energy|rho)_p)", defs=["-DRV_NO_MOMENTS"])
    return ck.finish()


main(run)
