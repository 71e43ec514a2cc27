import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C22", keys=r".", rule="a case draws hostile and random operands (signed zeros, extremes, random bit patterns, all-same and one-hot masks, records at every documented alignment in shuffled order) and applies every operation of one vector width; each lane is compared with the scalar operation, memory around stores with a shadow copy",
               assumptions=["-x is compared by value (the x86 classes compute 0-x, so -(+0) is +0)", "reciprocal and root estimates are held to 4e-4 (approximate) and 1.2e-6 (refined) for operands within exp(+-30)", "AltiVec and NEON implementations cannot run on this machine"])
    n = 200000 if THOROUGH else 4000
    # these four hold every x86 and portable implementation of each width
    plan = []
    for k, c in enumerate(["v16port", "v16avx512", "v8avx", "v4sse"] + (["v4port", "v8port", "v4avx", "v8avx2"] if THOROUGH else ["v8avx2"] if not config_usable("v16avx512") else [])):
        for s in range(8 if THOROUGH else 2):
            plan.append((c, "--cases %d --seed %d" % (n, SEED * 1000 + 31 * s + k), 0))
    ck.matrix("vec", "vec.cc", plan, libs=False, par=8)
    return ck.finish()


main(run)
