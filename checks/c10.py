import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
import random


def run():
    ck = Check("C10", rule="a case is one random simulation run uninterrupted, run while checkpointing, and continued from checkpoints in fresh processes (also from checkpoints of continued runs); after each step digests of the complete state of every rank are compared bit for bit; distinct cases differ in model set, box, build, ranks, pipelines or the step restored from",
               assumptions=["the state compared is all field, particle and interpolator storage, deck globals, tallies, run-loop settings, energies and what every generator yields next"])
    cfgs = ["ref", "v4sse", "v8avx2"]
    if THOROUGH:
        cfgs += ["v16avx512", "v8omp", "v16port", "v4port", "legacy"]
    w = Worlds(ck, cfgs)
    cfgs = w.cfgs
    n = 220 if THOROUGH else 30
    rnd = random.Random(SEED * 1013)
    plan = []
    for k in range(n):
        ranks = [0, 2, 0, 4, 3, 0, 8][(k + SEED) % 7]
        plan.append((SEED * 100000 + k, cfgs[k % len(cfgs)], ranks, rnd.choice([1, 2, 3, 5]), sorted(rnd.sample(range(1, 9), 2)), rnd.random()))

    def one(p):
        case, cfg, ranks, tpp, steps, frac = p
        with Scratch() as d:
            e = {"RV_CASE": case, "RV_STEPS": 8, "RV_TOPO": "auto"}
            if not w.run(cfg, d, "a", ranks, tpp, env=e):
                return
            if not w.run(cfg, d, "b", ranks, tpp, env=dict(e, RV_CKPT="all")):
                return
            A, B = digests(d, "a"), digests(d, "b")
            rep = {"case": case, "cfg": cfg, "ranks": ranks, "tpp": tpp}
            v = diff(A, B)
            if v:
                ck.violation("checkpoint-perturbs", "case %d %s ranks=%d tpp=%d: a run that writes checkpoints differs: %s" % (case, cfg, ranks, tpp, v[1]), rep)
            ck.count(1)
            dirs = [(d, steps[0]), (d, steps[1])]
            # and from a checkpoint that a restored run wrote
            for k, (src, s) in enumerate(dirs):
                sub = os.path.join(d, "r%d" % k)
                os.mkdir(sub)
                more = {"RV_CKPT": "all", "RV_CKDIR": sub} if k == 0 else {}
                t = "r%d" % k
                r = w.run(cfg, d, t, ranks, tpp, args=["--restore", "%s/ck.%d" % (src, s)], env=dict(e, **more), label="continued from step %d" % s)
                if not r:
                    continue
                want = {q: l for q, l in A.items() if q[1] > s}
                v = diff(want, digests(d, t))
                ck.count(len(want), "%d-%d" % (case, s))
                if v:
                    ck.violation("restored-differs", "case %d %s ranks=%d tpp=%d restored at step %d: %s" % (case, cfg, ranks, tpp, s, v[1]), dict(rep, step=s))
                if k == 0 and s < 8:
                    s2 = s + 1 + int(frac * (8 - s))
                    r = w.run(cfg, d, "c", ranks, tpp, args=["--restore", "%s/ck.%d" % (sub, s2)], env=e, label="continued twice, from steps %d and %d" % (s, s2))
                    if r:
                        want = {q: l for q, l in A.items() if q[1] > s2}
                        v = diff(want, digests(d, "c"))
                        ck.count(len(want), "%d-%d-%d" % (case, s, s2))
                        if v:
                            ck.violation("restored-differs", "case %d %s ranks=%d tpp=%d restored at step %d and again at %d: %s" % (case, cfg, ranks, tpp, s, s2, v[1]), rep)
            if case % 7 == 0:
                ck.sample("case %d %s ranks=%d tpp=%d: %d states equal over restores at %s" % (case, cfg, ranks, tpp, len(A), steps))
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, plan))
    return ck.finish()


main(run)
