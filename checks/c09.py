import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
from rv import images
import random


def run():
    ck = Check("C09", rule="a case is one random global simulation (boxes, walls, materials, driven fields, species, injections) run on one rank and on other divisions into up to 8 ranks; after each step the complete global field arrays and all particles (matched by identity) are compared, and the copies of each mesh value on shared surfaces; distinct cases differ in problem, division, build or pipelines",
               assumptions=["models that draw random numbers per rank (collisions, reflux, emitters) are excluded: their results legitimately depend on the division",
                            "comparison of a run ends when rounding may have turned into a discrete difference (a particle within rounding of a cell face)",
                            "each local domain keeps at least two cells along every decomposed axis"])
    cfgs = ["ref", "v4sse", "v8avx2"]
    if THOROUGH:
        cfgs += ["v16avx512", "v8omp", "v16port", "v4port", "legacy"]
    w = Worlds(ck, cfgs)
    cfgs = w.cfgs
    rnd = random.Random(SEED * 7717)
    plan = []
    for k in range(320 if THOROUGH else 40):
        while True:
            gn = [rnd.choice([1, 4, 4, 6, 8, 12]) for a in range(3)]
            if 8 <= gn[0] * gn[1] * gn[2] <= 400:
                break
        tops = []
        for gp in [(a, b, c) for a in (1, 2, 3, 4, 6) for b in (1, 2, 3, 4, 6) for c in (1, 2, 3, 4, 6)]:
            n = gp[0] * gp[1] * gp[2]
            if 1 < n <= 8 and all(gn[a] % gp[a] == 0 and (gp[a] == 1 or gn[a] // gp[a] >= 2) for a in range(3)):
                tops.append(gp)
        rnd.shuffle(tops)
        # prefer divisions of different axes
        tops = tops[:3 if THOROUGH else 2]
        if not tops:
            continue
        plan.append((SEED * 100000 + k, cfgs[k % len(cfgs)], gn, tops, [rnd.choice([1, 1, 2, 3]) for t in range(4)]))

    def one(p):
        case, cfg, gn, tops, tpp = p
        with Scratch() as d:
            e = {"RV_CASE": case, "RV_STEPS": 8, "RV_GN": ",".join(map(str, gn)), "RV_TRACE": 2, "RV_FEATURES": "*CERY"}
            if not w.run(cfg, d, "s", 0, tpp[3], env=dict(e, RV_TOPO="1,1,1")):
                return
            A = images.load(d, "s")
            for k, gp in enumerate(tops):
                t = "m%d" % k
                if not w.run(cfg, d, t, gp[0] * gp[1] * gp[2], tpp[k], env=dict(e, RV_TOPO=",".join(map(str, gp)))):
                    continue
                v, st = images.compare(A, images.load(d, t), 0)
                ck.count(st["steps"], "%d-%s" % (case, gp))
                for q in ("nodes", "particles", "stopped_early"):
                    ck.add(q + ("" if q == "stopped_early" else "_compared"), st[q])
                for q in ("max_field_diff", "max_particle_diff"):
                    ck.extra[q] = max(ck.extra.get(q, 0), st[q])
                if v:
                    ck.violation("decomposition-" + v[0], "case %d %s cells %s on ranks %s (tpp %d) against one rank (tpp %d): %s" % (case, cfg, gn, gp, tpp[k], tpp[3], v[1]),
                                 {"case": case, "cfg": cfg, "gn": gn, "gp": gp, "tpp": tpp})
                elif k == 0:
                    ck.sample("case %d %s cells %s ranks %s: %d steps equal (field %.1e, particles %.1e)" % (case, cfg, gn, gp, st["steps"], st["max_field_diff"], st["max_particle_diff"]))
                for f in glob.glob("%s/%s.*" % (d, t)):
                    os.unlink(f)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, plan))
    return ck.finish()


main(run)
