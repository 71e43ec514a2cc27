import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def sub(d, n):
    p = os.path.join(d, str(n))
    os.mkdir(p)
    return p


def run():
    ck = Check("C21", keys=r"^(energy|conserve|reported|log|flux|field-energy|species-energy|gyration|plasma)",
               rule="a case is one complete random simulation whose energy log is read back and compared, line by line, with double-precision energies of the states it was written from (and, for closed plasmas and for particles in a constant magnetic field, with its own beginning); or one random box of random fields and materials whose reported energy is compared with the weighted sum over the global mesh; or one closed lossless box advanced for 60 to 400 steps whose exact leapfrog energy must stay; a distinct one differs in box, decomposition, content or length",
               assumptions=["the energy of the leapfrog is E.eps.E + B(n+1/2).B(n-1/2)/mu; the reported one, with B(n).B(n), lies between it and its Courant bound",
                            "a closed plasma with cells of about a Debye length changes its total energy by less than 4% of its kinetic energy in 120 steps, and half of any dozen of them by less than 0.2%: the largest change seen in 4000 runs is 1.1%, the median 0.02%"])
    S = SEED
    base = ["ref", "v4sse", "v8avx2", "v16avx512"]
    cfgs = base + (["v4port", "v4avx", "v4avx2", "v8avx", "v8port", "v16port", "omp", "legacy", "asan"] if THOROUGH else [])
    plan, fplan = [], []
    for k, c in enumerate(cfgs):
        tr = [(1, 0), (3, 2), (2, 4), (1, 6), (1, 8), (8, 0)] if THOROUGH else [(1 + (k + S) % 4, 0), (1 + k % 2, [2, 4, 6, 8][(k + S) % 4])]
        for tpp, ranks in tr:
            for s in range(3 if THOROUGH else 1):
                seed = S * 1000 + s * 17 + k * 3 + ranks * 101
                plan.append((c, ["--cases", 400 if THOROUGH else 80, "--seed", seed, "--tpp", tpp], ranks))
                fplan.append((c, "--mode conserve --cases %d --seed %d --tpp %d" % (600 if THOROUGH else 120, seed, tpp), ranks))
                if c in ("ref", "omp", "asan"): # this sum has one implementation
                    fplan.append((c, "--mode energy --cases %d --seed %d --tpp %d" % (1500 if THOROUGH else 300, seed, tpp), ranks))
    with Scratch() as d:
        libs = build_libs([c for c in cfgs if config_usable(c)])
        ck.matrix("energy", "energy.cc", [(c, a + ["--dir", sub(d, n)], r) for n, (c, a, r) in enumerate(plan)], libs=libs)
        ck.matrix("field", "field.cc", fplan, libs=libs)
    return ck.finish()


main(run)
