import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C20", keys=r".", rule="a case is a partitioned box with a history of boundary overrides, a ring of unequal domains joined by hand, or a region dealt out to pipelines; distinct ones differ in shape, topology, boundary kind or history length",
               assumptions=["more global cells than fit this machine's memory (2^31 and up) are out of reach"])
    lib = build_libs(["ref", "asan"])
    src = [os.path.join(VERIF, "harness/grid.cc")]
    exe, exea = build_many([("ref", lib["ref"], "grid", src, (), ()), ("asan", lib["asan"], "grid", src, (), ())])
    T = THOROUGH
    plan = []
    for k, r in enumerate((0, 2, 3, 4, 6, 8, 12, 16) if not T else (0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 18, 24, 27, 32)):
        for j in range(12 if T else 2 if r < 9 else 1):
            plan.append((exe, (60 if r < 9 else 24) * (5 if T else 1), r, SEED * 1000 + 16 * j + k))
    plan += [(exea, 200 if T else 30, r, SEED * 1000 + 500 + r) for r in (0, 4)]

    def one(p):
        e, n, r, s = p
        ck.run_harness(e, ["--mode", "box", "--cases", n, "--seed", s], r, timeout=600 if T else 200, label="ranks=%d seed=%d" % (r, s))

    def reject(k):
        r = (1, 2, 4, 6)[k % 4]
        x = execute([exe, "--mode", "reject", "--seed", str(SEED * 100 + k)], r if r > 1 else 0, {}, 60)
        asked = [e for e in x.events if e.get("t") == "asked"]
        ck.add("impossible_partitions", 1)
        if x.rc == 0 or any(e.get("t") == "accepted" for e in x.events):
            ck.violation("accepted", "a partition that cannot be made was accepted: %s" % (asked[:1],), {"seed": SEED * 100 + k, "ranks": r})
    with ThreadPoolExecutor(4) as ex:
        f = [ex.submit(one, p) for p in plan] + [ex.submit(reject, k) for k in range(40 if T else 8)]
        for x in f:
            x.result()
    return ck.finish()


main(run)
