import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C02", rule="a case is one random box (size, decomposition, boundaries, materials, field values): either residual / cleaning / bound-charge "
               "operations whose every output value was compared with an independent double-precision evaluation, or a run of 20-120 "
               "source-free steps after which both rms residuals were read and repeated cleaning passes were watched",
               assumptions=["bound charge on absorbing faces and div B at symmetric faces are unspecified by the documentation and not judged"])
    S = SEED
    n = 1200 if THOROUGH else 200
    plan = []
    cfgs = ["ref", "v4sse", "v8avx2", "v16port"]
    if THOROUGH:
        cfgs += ["v16avx512", "v4port", "v4avx", "v4avx2", "v8avx", "v8port", "omp"]
    for k, c in enumerate(cfgs):
        for tpp, ranks in ([(1, 0), (3, 2), (2, 4), (8, 0), (1, 8)] if THOROUGH else [(1 + (k + S) % 4, 0), (1 + k % 2, 4)]):
            for s in range(4 if THOROUGH else 1):
                plan.append((c, "--mode div --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k, tpp), ranks))
                plan.append((c, "--mode long --cases %d --seed %d --tpp %d" % (n // 3, S * 1000 + s * 17 + k, tpp), ranks))
    if not THOROUGH:
        plan += [("ref", "--mode div --cases 60 --seed %d --tpp 7" % (S + 500), 2), ("ref", "--mode long --cases 20 --seed %d" % (S + 600), 8)]
    for k, c in enumerate(cfgs if THOROUGH else [cfgs[0], cfgs[1 + S % (len(cfgs) - 1)]]):
        plan.append((c, "--mode div --cases %d --seed %d --tpp %d" % (n // 6, S * 1000 + 500 + 7 * k, wide(k)), 0))
        plan.append((c, "--mode long --cases %d --seed %d --tpp %d" % (n // 12, S * 1000 + 500 + 7 * k, wide(k)), 0))
    ck.matrix("field", "field.cc", plan, skip="src/(species_advance|collision|emitter|boundary|vpic)/")
    return ck.finish()


main(run)
