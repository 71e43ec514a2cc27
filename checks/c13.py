import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
import random, re


def run():
    ck = Check("C13", rule="a case is one workload executed under the memory and undefined-behaviour sanitizers: a complete random simulation (every kind of boundary, material, model, storage growth, all diagnostics, checkpoints, restore, shutdown) or a batch of random operations; distinct cases differ in workload, build, ranks or pipelines",
               assumptions=["AddressSanitizer and UndefinedBehaviorSanitizer on the repository's own code; the MPI library is not instrumented",
                            "leaks at process end are not memory errors and are not reported"])
    S = SEED
    cfgs = ["asan", "asan8"] + (["asan4", "asan16"] if THOROUGH else ["asan4"])
    w = Worlds(ck, cfgs)
    libs = build_libs(w.cfgs)
    names = ["particle", "field", "disp"]
    exes = {}
    todo = [(c, n) for c in w.cfgs for n in names]
    t0 = time.time()
    for (c, n), e in zip(todo, build_many([(c, libs[c], n, [os.path.join(VERIF, "harness", n + ".cc")], (), ()) for c, n in todo])):
        exes[c, n] = e
    ck.add("build_s", round(time.time() - t0, 1))
    rnd = random.Random(S * 619)
    jobs = []
    for c in w.cfgs:
        for k in range(60 if THOROUGH else 14):
            jobs.append((c, "world", S * 100000 + k * 4 + w.cfgs.index(c), rnd.choice([1, 2, 3, 5]), [0, 0, 2, 0, 3][k % 5]))
        for n, mode, cases in [("particle", "step", 30), ("particle", "sort", 80), ("particle", "center", 50), ("particle", "moments", 30), ("field", "advance", 50), ("field", "div", 20), ("field", "energy", 20), ("field", "sync", 20), ("disp", "disp", 100)]:
            for r in range(5 if THOROUGH else 1):
                jobs.append((c, n, (mode, cases * (4 if THOROUGH else 1), S * 1000 + r), rnd.choice([1, 2, 3, 4, 6]), 2 if (r + S) % 3 == 0 and n != "disp" else 0))
    seen = set()

    def judge(r, label, rep):
        """Sanitizer reports and abnormal ends of one execution."""
        if r is None:
            return False
        txt = r.out + r.err
        rep = dict(rep, cmd=r.cmd)
        found = re.findall(r"([^\s]+: runtime error: [^\n]*)", txt) + re.findall(r"(ERROR: AddressSanitizer:? [^\n]*(?:\n[^\n]*){0,14})", txt)
        for f in found:
            key = re.sub(r"0x[0-9a-f]+|==\d+==", "", f)[:110]
            if key not in seen:
                seen.add(key)
                ck.violation("sanitizer", "[%s] %s" % (label, f[:1500]), rep)
        if r.timed_out:
            ck.violation("hang", "[%s] no end within the watchdog\n%s" % (label, r.tail(500)), rep)
            ck.hung = True
        elif r.rc and not found:
            ck.violation("abnormal-end", "[%s] ended with code %s\n%s" % (label, r.rc, r.tail(700)), rep)
        return not found and r.rc == 0

    def one(j):
        cfg, what, arg, tpp, ranks = j
        if ck.hung:
            return
        with Scratch() as d:
            if what == "world":
                e = dict(RV_CASE=arg, RV_STEPS=6, RV_DUMP="x", RV_CKPT="all", RV_TOPO="auto")
                if arg % 4 == 1:
                    e["RV_TRACE"] = 2
                lab = "whole run %s %s ranks=%d tpp=%d" % (arg, cfg, ranks, tpp)
                ok = judge(w.run(cfg, d, "t", ranks, tpp, env=e, want_ok=False, timeout=400), lab, {"env": e})
                ck.count(1, lab)
                ck.add("simulations", 1)
                s = 1 + arg % 5
                if ok:
                    judge(w.run(cfg, d, "r", ranks, tpp, args=["--restore", "%s/ck.%d" % (d, s)], env=e, want_ok=False, timeout=400), lab + " restored at %d" % s, {"env": e})
                    ck.count(1, lab + "r")
                    ck.add("restores", 1)
                    if arg % 9 == 0:
                        ck.sample(lab + ": clean, restored at step %d: clean" % s)
            else:
                lab = "%s %s %s ranks=%d tpp=%d" % (what, arg, cfg, ranks, tpp)
                r = execute([exes[cfg, what], "--mode", arg[0], "--cases", arg[1], "--seed", arg[2], "--tpp", tpp], ranks, timeout=400, cwd=d)
                judge(r, lab, {})
                for s in r.of("stat"):
                    ck.count(int(s.get("evals", 0)))
                    ck.add(what + "_operations", int(s.get("evals", 0)))
                ck.count(0, lab)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, jobs))
    return ck.finish()


main(run)
