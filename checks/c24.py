import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C24", keys=r".", rule="a case is one random simulation set up through the deck interface: definitions read back; 120 global positions (cell faces, rank faces and their neighbouring floating point numbers, walls, outside) injected one at a time with every rank's storage, charge and fields compared before and after; 80 aged injections followed to where they must be; or 3 to 9 region helpers with random regions whose every mesh location is compared with the documented classification; a distinct one differs in the kind of position, owner, region shape or outcome")
    n = 120 if THOROUGH else 40
    S = SEED
    cfgs = ["ref", "v4sse", "v8avx2", "v16avx512", "legacy", "omp", "v4port", "asan"] if THOROUGH else ["ref", ["v4sse", "v8avx2", "v16avx512"][S % 3]]
    plan = []
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (2, 2), (1, 3), (1, 4), (2, 6), (1, 8)] if THOROUGH else [(2, 0), (1, 2), (1, 4 + 2 * ((S + k) % 3))]):
            for s in range(3 if THOROUGH else 1):
                for m in ("region", "inject"):
                    if m == "region" and k > 1 and c != "asan":
                        continue # the helpers are part of the deck: the build does not matter
                    plan.append((c, "--mode %s --cases %d --seed %d --tpp %d" % (m, n * (3 if m == "region" else 1), S * 1000 + s * 17 + k * 3 + ranks * 101, tpp), ranks))
    ck.matrix("load", "load.cc", plan)
    return ck.finish()


main(run)
