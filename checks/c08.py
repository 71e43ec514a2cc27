import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
from rv import images
import random


def run():
    ck = Check("C08", rule="three kinds of case: a dispatched operation of a monitored probe (every share and item counted, distinct by completion order); a random simulation run again under other schedules, with injected delays and host-dispatch settings, compared bit for bit after each step; and the same simulation on another number of pipelines, compared location by location to rounding",
               assumptions=["models that give each pipeline its own random stream (collisions) and sequence-dependent injectors are left out when the number of pipelines changes",
                            "comparison across pipeline counts ends when rounding may have turned into a discrete difference"])
    S = SEED
    cfgs = ["ref", "v4sse", "v8avx2", "v8omp"]
    if THOROUGH:
        cfgs += ["v16avx512", "omp", "v16port", "v4port", "legacy"]
    w = Worlds(ck, cfgs)
    cfgs = w.cfgs
    # the dispatchers themselves
    n = 6000 if THOROUGH else 1200
    plan = []
    for k, c in enumerate([c for c in cfgs if c in ("ref", "v8avx2", "v8omp", "v4sse", "omp")]):
        for t, tpp in enumerate([1, 2, 3, 4, 7, 8, 16, 40] if THOROUGH else [1 + (S + k) % 4, 5 + (S + 3 * k) % 9]):
            plan.append((c, "--mode disp --cases %d --seed %d --tpp %d" % (n, S * 977 + 31 * k + t, tpp) + ("" if "omp" in c else " --dispatch_to_host %d --serial.n_pipeline %d" % ((t + k + S) % 2, tpp)), 0))
    libs = build_libs(sorted(set(p[0] for p in plan)))
    ck.matrix("disp", "disp.cc", plan, libs=libs, env={"RV_DELAY": str(S)}, par=3)

    rnd = random.Random(S * 331)
    jobs = []
    for k in range(260 if THOROUGH else 32):
        cfg = cfgs[k % len(cfgs)]
        kind = "tpp" if k % 3 == 2 else "repeat"
        jobs.append((kind, S * 100000 + k, cfg, [0, 0, 2, 4, 3][(k // 2 + S) % 5], rnd.choice([2, 3, 4, 6, 8]), rnd.choice([1, 2, 3, 5, 8])))

    def one(j):
        kind, case, cfg, ranks, tpp, tpp2 = j
        with Scratch() as d:
            e = {"RV_CASE": case, "RV_STEPS": 8, "RV_TOPO": "auto"}
            rep = {"case": case, "cfg": cfg, "ranks": ranks, "tpp": tpp}
            if kind == "repeat":
                if not w.run(cfg, d, "a", ranks, tpp, env=e):
                    return
                A = digests(d, "a")
                alts = [("repeated", [], {}), ("with injected delays", [], {"RV_DELAY": case % 1000})]
                if "omp" not in cfg:
                    alts.append(("shares kept off the host, with injected delays", ["--dispatch_to_host", "0"], {"RV_DELAY": case % 1000 + 1}))
                else:
                    alts.append(("with passive waiting", [], {"OMP_WAIT_POLICY": "passive", "OMP_PROC_BIND": "false"}))
                for t, (what, args, env) in enumerate(alts):
                    if not w.run(cfg, d, "b%d" % t, ranks, tpp, args=args, env=dict(e, **env), label=what):
                        continue
                    v = diff(A, digests(d, "b%d" % t))
                    ck.count(len(A), "%d-%d" % (case, t))
                    ck.add("states_compared_bitwise", len(A))
                    if v:
                        ck.violation("not-reproducible", "case %d %s ranks=%d tpp=%d: the run %s differs: %s" % (case, cfg, ranks, tpp, what, v[1]), rep)
                if case % 5 == 0:
                    ck.sample("case %d %s ranks=%d tpp=%d: %d states identical in %d schedules" % (case, cfg, ranks, tpp, len(A), len(alts)))
            else:
                e.update({"RV_TRACE": 2, "RV_FEATURES": "*CERY"})
                if tpp == tpp2:
                    tpp2 = 1
                if not w.run(cfg, d, "a", ranks, tpp, env=e) or not w.run(cfg, d, "b", ranks, tpp2, env=e):
                    return
                v, st = images.compare(images.load(d, "a"), images.load(d, "b"), 0)
                ck.count(st["steps"], "%d" % case)
                for q in ("nodes", "particles", "stopped_early"):
                    ck.add(q + ("" if q == "stopped_early" else "_compared"), st[q])
                for q in ("max_field_diff", "max_particle_diff"):
                    ck.extra[q] = max(ck.extra.get(q, 0), st[q])
                if v:
                    ck.violation("pipelines-" + v[0], "case %d %s ranks=%d with %d pipelines against %d: %s" % (case, cfg, ranks, tpp, tpp2, v[1]), dict(rep, tpp2=tpp2))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, jobs))
    return ck.finish()


main(run)
