import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C06", keys=r"^(duplicated|lost|not-absorbed|appeared|np-range|weight-changed|outside-domain|offset-range|unfinished-move|position)$", rule="a case is one random world stepped 1-4 times on 1-8 ranks; after each step the union of all particles of all ranks is matched one to one against the reference; distinct cases differ in box, boundary actions, storage sizes or particles",
               assumptions=["mover storage is sized by the user as the documentation asks; running out of it is a documented warning"])
    S = SEED
    n = 600 if THOROUGH else 170
    plan = []
    cfgs = ["ref", "v4sse", "v8avx2", "v16avx512"]
    if THOROUGH:
        cfgs += [c for c in ["ref", "v4sse", "v4port", "v4avx", "v4avx2", "v8avx", "v8avx2", "v8port", "v16port", "v16avx512", "omp", "legacy"] if c not in cfgs]
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (3, 2), (2, 4), (8, 0), (1, 8), (5, 3)] if THOROUGH else [(1 + (k + S) % 4, [0, 3][k % 2]), (1 + k % 3, [2, 4, 5, 8][(k + S) % 4]), (1, [4, 8, 2, 6][(k + S) % 4])]):
            for s in range(3 if THOROUGH else 1):
                plan.append((c, "--mode step --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3 + 0, tpp), ranks))
    for k, c in enumerate(cfgs if THOROUGH else [cfgs[0], cfgs[1 + S % (len(cfgs) - 1)]]):
        plan.append((c, "--mode step --cases %d --seed %d --tpp %d" % (n // 4, S * 1000 + 500 + 7 * k, wide(k)), 0))
    ck.matrix("particle_nm", "particle.cc", plan, skip="src/(collision|emitter|vpic|species_advance/standard/(hydro|energy|rho)_p|species_advance/standard/pipeline/(hydro|energy|rho)_p)", defs=["-DRV_NO_MOMENTS"])
    return ck.finish()


main(run)
