import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
import random

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc posix_memalign aligned_alloc free fopen fclose strdup _Znwm _Znam _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm".split())]
SCRATCH = 6   # buffers that operations keep for their next call (the code has three kinds)


def read(fn):
    o = {"S": [], "P": [], "E": None, "L": []}
    for l in open(fn):
        f = l.split()
        if f[0] == "S":
            o["S"].append([int(x) for x in f[1:]])
        elif f[0] == "P":
            o["P"].append([int(x) for x in f[1:]])
        elif f[0] == "E":
            o["E"] = [int(x) for x in f[1:]]
        elif f[0] == "L":
            o["L"].append(f[2:])
    return o


def run():
    ck = Check("C26", keys=r"^(left-behind|left|files-left|blocks-grow|files-grow|descriptors-grow|threads-grow|storage|no-record)$", rule="a case is one rank of one random simulation with every block and file the program takes and returns on record; non-trivial when particles were stored again or files were written while it ran; distinct by simulation, rank and amounts seen",
               assumptions=["allocations made inside MPI and the C library are not counted", "the lasting scratch buffers of sorting, exchange and particle dumps (at most %d blocks) are allowed" % SCRATCH])
    S = SEED
    rnd = random.Random(S * 127)
    cfgs = ["ref", "v8omp"] + (["v4sse", "v8avx2", "v16port", "legacy"] if THOROUGH else [])
    w = Worlds(ck, cfgs, extra=["-DRV_RES"], lextra=WRAP)
    jobs = []
    for k in range(120 if THOROUGH else 20):
        jobs.append((S * 100000 + k, w.cfgs[k % len(w.cfgs)], [0, 2, 0, 4, 3, 0, 8, 0][(k // 2 + S) % 8], rnd.choice([1, 2, 3]), rnd.choice(["", "x", "c", "xc"]),
                     rnd.choice([20, 30, 50] if not THOROUGH else [30, 60, 200]), rnd.choice([2, 3, 5]), k % 3 == 1))

    def judge(d, tag, ranks, what, rep):
        R = []
        for q in range(max(1, ranks)):
            fn = "%s/%s.%d.res" % (d, tag, q)
            if not os.path.exists(fn):
                ck.violation("no-record", "%s: rank %d left no record" % (what, q), rep)
                return
            R.append(read(fn))
        total = {}
        for r in R:
            for p in r["P"]:
                total[p[0]] = total.get(p[0], 0) + p[2]
        peak = max(total.values()) if total else 0
        for q, r in enumerate(R):
            wh = "%s, rank %d" % (what, q)
            s = r["S"]
            if len(s) < 2 or not r["E"]:
                ck.violation("no-record", "%s: the record is incomplete" % wh, rep)
                continue
            ck.count(1, (what, q, s[-1][6], r["E"][1]) if s[-1][6] > s[0][6] else None)
            ck.add("blocks_taken", r["E"][3])
            ck.add("states", len(s))
            # s: step blocks bytes files descriptors threads taken
            b = max(s, key=lambda x: x[1])
            if b[1] > s[0][1] + SCRATCH:
                ck.violation("blocks-grow", "%s: %d blocks are held at step %d, %d at the first step (%d)" % (wh, b[1], b[0], s[0][1], s[0][0]), rep)
            f = max(s, key=lambda x: x[3])
            if f[3] > s[0][3] + 1:
                ck.violation("files-grow", "%s: %d files are open at the end of step %d, %d at the first" % (wh, f[3], f[0], s[0][3]), rep)
            m = min(3, len(s) - 1) # MPI opens its own when first used
            f = max(s, key=lambda x: x[4])
            if f[4] > s[m][4] + 8:
                ck.violation("descriptors-grow", "%s: %d descriptors are in use at step %d, %d at step %d" % (wh, f[4], f[0], s[m][4], s[m][0]), rep)
            f = max(s, key=lambda x: x[5])
            if f[5] > s[m][5] + 4:
                ck.violation("threads-grow", "%s: %d threads exist at step %d, %d at step %d" % (wh, f[5], f[0], s[m][5], s[m][0]), rep)
            first = {}
            for st, sid, np, mp, nm, mm in r["P"]:
                first.setdefault(sid, (mp, mm))
                ck.add("stores_checked", 1)
                if np > mp or nm > mm or np < 0 or nm < 0:
                    ck.violation("storage", "%s: species %d holds %d of %d particles and %d of %d movers at step %d" % (wh, sid, np, mp, nm, mm, st), rep)
                lim = 2 * (2 * peak + 1000)
                if mp > max(first[sid][0], lim) or mm > max(first[sid][1], lim):
                    ck.violation("storage", "%s: storage of species %d grew to %d particles and %d movers at step %d though at most %d particles exist" % (wh, sid, mp, mm, st, peak), rep)
            # what is left when the program ends
            init = [l for l in r["L"] if any(x in " ".join(l[4:]) for x in ("user_initialization", "restore_objects", "reanimate_objects", "boot_services", "define_")) and "vpic_simulation7advance" not in " ".join(l[4:])]
            init = [l for l in init if "sort_p" not in " ".join(l[4:]) and "boundary_p" not in " ".join(l[4:])]
            if any(l[0] == "f" for l in r["L"]):
                ck.violation("files-left", "%s: files were never closed: %s" % (wh, [" ".join(l[:2] + l[4:9]) for l in r["L"] if l[0] == "f"][:3]), rep)
            elif init:
                ck.violation("left", "%s: %d blocks taken while the simulation was set up were never returned: %s" % (wh, len(init), [" ".join(l[:2] + l[4:9]) for l in init][:3]), rep)
            elif len(r["L"]) > SCRATCH:
                ck.violation("left", "%s: %d blocks were never returned: %s" % (wh, len(r["L"]), [" ".join(l[:3] + l[4:9]) for l in r["L"]][:4]), rep)

    def one(j):
        case, cfg, ranks, tpp, dump, steps, every, res = j
        with Scratch() as d:
            e = {"RV_CASE": case, "RV_STEPS": steps, "RV_TOPO": "auto", "RV_DUMP": dump}
            cks = list(range(every, steps, every))
            e["RV_CKPT"] = ",".join(str(x) for x in cks)
            what = "case %d %s ranks=%d tpp=%d steps=%d dumps=%s checkpoints every %d" % (case, cfg, ranks, tpp, steps, dump or "none", every)
            rep = {"case": case, "cfg": cfg, "ranks": ranks, "tpp": tpp, "env": e}
            if not w.run(cfg, d, "a", ranks, tpp, env=e):
                return
            judge(d, "a", ranks, what, rep)
            if res:
                st = cks[len(cks) // 3]
                ck.add("restored_runs", 1)
                if w.run(cfg, d, "b", ranks, tpp, args=["--restore", "%s/ck.%d" % (d, st)], env=dict(e, RV_CKDIR=d + "/b"), label="restored") if not os.makedirs(d + "/b") else None:
                    judge(d, "b", ranks, what + ", restored at step %d" % st, rep)
            ck.sample(what)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, jobs))
    # thousands of worlds built and taken down in one process
    n = 10 if THOROUGH else 1
    plan = []
    for k, c in enumerate(["ref", "v4sse", "v8omp"] if THOROUGH else [["ref", "v4sse"][S % 2]]):
        for q, (src, mode, cases) in enumerate([("particle.cc", "step", 60), ("particle.cc", "moments", 30), ("particle.cc", "sort", 60), ("particle.cc", "center", 60), ("bnd.cc", "pbc", 50), ("bnd.cc", "emit", 40),
                                                ("field.cc", "advance", 50), ("field.cc", "div", 50), ("field.cc", "sync", 50), ("field.cc", "long", 20), ("col.cc", "mix", 60), ("mp.cc", "", 40), ("grid.cc", "box", 60),
                                                ("load.cc", "inject", 40), ("load.cc", "region", 40), ("energy.cc", "", 30), ("loop.cc", "", 40)]):
            for ranks in ([0] if src in ("col.cc",) else [0, [2, 3, 4][(S + q) % 3]] if THOROUGH or src != "particle.cc" else [[0, 2, 4][(S + q + k) % 3]]):
                plan.append((src, (c, (["--mode", mode] if mode else []) + ["--cases", cases * n, "--seed", S * 1000 + 600 + q + k, "--tpp", [2, 3][q % 2]], ranks)))
    libs = build_libs(sorted(set(p[1][0] for p in plan)))
    for src in sorted(set(p[0] for p in plan)):
        ck.matrix("res_" + src[:-3], src, [p[1] for p in plan if p[0] == src], libs=libs, defs=["-DRV_RES"], lextra=WRAP)
    return ck.finish()


main(run)
