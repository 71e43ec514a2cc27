import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C15", keys=r".", rule="a case is one random set of species in one random box under one collision model with its own parameters, applied on one to four steps; distinct ones differ in model, parameters, box or particles",
               assumptions=["momenta are compared in the non-relativistic form the models document; distributions and rates are judged at seven standard deviations"])
    n = 20000 if THOROUGH else 2640
    S = SEED
    cfgs = ["ref", "v4sse", "v8avx2", "v16avx512", "omp", "legacy"] if THOROUGH else ["ref", ["v4sse", "v8avx2", "omp"][S % 3]]
    plan = []
    for k, c in enumerate(cfgs):
        for j, tpp in enumerate((1, 2, 3, 5, 8, 16) if THOROUGH else (1, 3, 8)):
            for s in range(3 if THOROUGH else 1):
                plan.append((c, "--mode mix --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3 + j * 100, tpp), 0))
        plan.append((c, "--mode big --cases %d --seed %d --tpp %d" % (60 if THOROUGH else 12, S * 1000 + 900 + k, 1 + S % 4), 0))
    plan += [("asan", "--mode mix --cases %d --seed %d --tpp 2" % (n // 4, S * 1000 + 700), 0), ("asan", "--mode big --cases 6 --seed %d --tpp 1" % (S * 1000 + 701), 0)]
    plan += [("tsan", "--mode mix --cases %d --seed %d --tpp 4" % (n // 12, S * 1000 + 710), 0)]
    ck.matrix("col", "col.cc", plan, skip="src/vpic")
    return ck.finish()


main(run)
