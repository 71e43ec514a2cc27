import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C16", keys=r".", rule="a case is a seed whose streams are replayed and compared with an independent SFMT-11213, a variate whose draws are tested against its interval, lattice and distribution, a permutation or shuffle shape whose orders are counted, a set of pools compared over all ranks, or a set of generators continued in a fresh process from a checkpoint; distinct ones differ in seed, variate, shape or rank count",
               assumptions=["statistical oracles act at 7 standard deviations, so deviations below about 1e-3 of a bin's probability stay unseen",
                            "generators of different builds are compared on this machine (SSE2 and portable)"])
    t = time.time()
    cfgs = ["ref", "nosse"]
    libs = build_libs(cfgs)
    src = [os.path.join(VERIF, "harness/rng.cc")]
    exe = dict(zip(cfgs, build_many([(c, libs[c], "rng", src, (), ()) for c in cfgs])))
    ck.extra["build_s"] = round(time.time() - t, 1)
    ck.extra["configurations"] = cfgs
    T = THOROUGH
    plan = []
    for c in cfgs:
        plan += [(c, "stream", 6000 if T else 600, 0, SEED), (c, "perm", 12 if T else 1, 0, SEED), (c, "pools", 60 if T else 12, 0, SEED)]
        plan += [(c, "dist", 60 if T else 4, 0, SEED * 2 + (c == "ref"))] if T or c == "ref" else [(c, "dist", 1, 0, SEED * 2)]
    plan += [("ref", "pools", 30 if T else 8, r, SEED + r) for r in ((2, 3, 5, 8) if T else (3, 4))]
    plan += [("ref", "stream", 2000 if T else 150, 2, SEED + 5)]
    if T:
        plan += [("ref", "dist", 60, 0, SEED * 7919 + k) for k in range(6)]
    plan.sort(key=lambda p: p[1] != "dist")

    def one(p):
        c, mode, n, ranks, seed = p
        return ck.run_harness(exe[c], ["--mode", mode, "--cases", n, "--seed", seed], ranks, timeout=600 if T else 120, label="%s %s ranks=%d seed=%d" % (c, mode, ranks, seed))

    def cont(k):
        c, c2, seed = cfgs[k % 2], cfgs[(k // 2) % 2], SEED * 1000 + k
        with Scratch() as d:
            ranks = [0, 0, 2, 3][k % 4]
            a = ck.run_harness(exe[c], ["--mode", "save", "--seed", seed, "--dir", d], ranks, timeout=60, label="%s save seed=%d" % (c, seed))
            b = ck.run_harness(exe[c2], ["--mode", "resume", "--seed", seed, "--dir", d], ranks, timeout=60, label="%s resume seed=%d" % (c2, seed))
            x, y = sorted((e["k"], e["h"]) for e in a.of("stream")), sorted((e["k"], e["h"]) for e in b.of("stream"))
            ck.add("generators_continued", len(x))
            if x != y and not a.timed_out and not b.timed_out and a.rc == 0 and b.rc == 0:
                z = [p for p in x if p not in y]
                ck.violation("continuation", "%s->%s seed=%d ranks=%d: generators %s differ after being restored" % (c, c2, seed, ranks, [p[0] for p in z][:8]), {"seed": seed, "cfg": [c, c2]})
            if not x:
                ck.violation("continuation", "nothing recorded: %s" % a.tail(300), {"seed": seed})

    def builds(k):
        o = [sorted((e["k"], e["h"]) for e in ck.run_harness(exe[c], ["--mode", "print", "--seed", SEED * 50 + k, "--cases", 20], 0, timeout=60, label="%s print" % c).of("stream")) for c in cfgs]
        ck.add("streams_compared_between_builds", len(o[0]))
        if o[0] != o[1]:
            ck.violation("builds-differ", "seed %d: the SSE2 and the portable generator give different streams" % (SEED * 50 + k), {"seed": SEED * 50 + k})
    with ThreadPoolExecutor(8) as ex:
        f = [ex.submit(one, p) for p in plan] + [ex.submit(cont, k) for k in range(60 if T else 12)] + [ex.submit(builds, k) for k in range(4)]
        for x in f:
            x.result()
    return ck.finish()


main(run)
