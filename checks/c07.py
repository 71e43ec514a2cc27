import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C07", keys=r"^(count|last-sorted|order|permutation|partition)$", rule="a case is one species filled with a random particle distribution and sorted once; the multiset of complete records, the order and the partition of every interior cell are compared with what was put in",
               assumptions=["ghost-cell entries of the partition are not specified and not checked"])
    S = SEED
    n = 1500 if THOROUGH else 350
    plan = []
    cfgs = ["ref", "legacy", "v4sse", "omp"]
    if THOROUGH:
        cfgs += [c for c in ["ref", "v4sse", "v4port", "v4avx", "v4avx2", "v8avx", "v8avx2", "v8port", "v16port", "v16avx512", "omp", "legacy"] if c not in cfgs]
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (3, 2), (2, 4), (8, 0), (1, 8), (5, 3)] if THOROUGH else [(1 + (k + S) % 4, 0), (1 + k % 3, [2, 4, 4, 8][(k + S) % 4])]):
            for s in range(3 if THOROUGH else 1):
                plan.append((c, "--mode sort --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3 + 0, tpp), ranks))
    for k, c in enumerate(cfgs):
        for j in ((0, 1, 2, 3) if THOROUGH else (0, 4)):
            plan.append((c, "--mode sort --cases %d --seed %d --tpp %d" % (n // 4, S * 1000 + 500 + 7 * k + j, wide(k + j)), 0))
    ck.matrix("particle_nm", "particle.cc", plan, skip="src/(collision|emitter|vpic|species_advance/standard/(hydro|energy|rho)_p|species_advance/standard/pipeline/(hydro|energy|rho)_p)", defs=["-DRV_NO_MOMENTS"])
    return ck.finish()


main(run)
