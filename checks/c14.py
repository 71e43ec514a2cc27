import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
import random, re

RACE = "halt_on_error=0:exitcode=66:history_size=4:report_thread_leaks=0:second_deadlock_stack=1"


def run():
    ck = Check("C14", rule="a case is one workload (a random complete simulation with diagnostics and checkpointing, or a batch of random field, particle, collision or dispatcher operations) executed on several pipelines under the race detector; distinct cases differ in workload, build or number of pipelines",
               assumptions=["the detector (ThreadSanitizer) sees the accesses of the schedules executed; two accesses not ordered by synchronisation are reported whether or not they happened at the same moment",
                            "OpenMP builds are not instrumented (no instrumented OpenMP runtime here); they execute the same pipeline functions"])
    S = SEED
    cfgs = ["tsan", "tsan4", "tsan8"]
    w = Worlds(ck, cfgs)
    libs = build_libs(w.cfgs)
    src = lambda n: [os.path.join(VERIF, "harness", n)]
    names = ["particle", "field", "disp"]
    exes = {}
    todo = [(c, n) for c in w.cfgs for n in names]
    t0 = time.time()
    for (c, n), e in zip(todo, build_many([(c, libs[c], n, src(n + ".cc"), (), ()) for c, n in todo])):
        exes[c, n] = e
    ck.add("build_s", round(time.time() - t0, 1))
    rnd = random.Random(S * 517)
    jobs = []
    for c in w.cfgs:
        for k in range(40 if THOROUGH else 11):
            jobs.append((c, "world", S * 100000 + k * 3 + w.cfgs.index(c), rnd.choice([2, 3, 4, 5, 8]), 2 if k % 5 == 4 else 0))
        for n, mode, cases in [("particle", "step", 12), ("particle", "sort", 60), ("particle", "center", 40), ("particle", "moments", 16), ("field", "advance", 25), ("field", "div", 15), ("field", "energy", 10), ("disp", "disp", 150)]:
            for r in range(4 if THOROUGH else 1):
                jobs.append((c, n, (mode, cases * (3 if THOROUGH else 1), S * 1000 + r), rnd.choice([2, 3, 4, 6]), 0))
    seen = {}

    def one(j):
        cfg, what, arg, tpp, ranks = j
        env = {"TSAN_OPTIONS": RACE}
        with Scratch() as d:
            if ck.hung:
                return
            if what == "world":
                host = ["--dispatch_to_host", "0"] if arg % 3 == 0 else []
                r = w.run(cfg, d, "t", ranks, tpp, args=host, env=dict(env, RV_CASE=arg, RV_STEPS=5, RV_DUMP="x", RV_CKPT="all", RV_TOPO="auto"), want_ok=False, timeout=300)
                label = "whole run %s" % arg
            else:
                r = execute([exes[cfg, what], "--mode", arg[0], "--cases", arg[1], "--seed", arg[2], "--tpp", tpp], ranks, env=env, timeout=300, cwd=d)
                label = "%s %s" % (what, arg)
            if r is None:
                return
            races = re.findall(r"(WARNING: ThreadSanitizer.*?)SUMMARY: ThreadSanitizer: ([^\n]*)", r.out + r.err, re.S)
            ck.count(1, "%s-%s-%d" % (cfg, label, tpp))
            ck.add(what + "_runs", 1)
            ck.add("pipelines_watched", tpp)
            for body, summ in races:
                key = re.sub(r"0x[0-9a-f]+", "", summ)[:120]
                if key in seen:
                    continue
                seen[key] = 1
                ck.violation("race", "[%s %s tpp=%d ranks=%d] %s\n%s" % (label, cfg, tpp, ranks, summ, body[:1500]), {"cmd": r.cmd, "env": {k: str(v) for k, v in env.items()}})
            if r.timed_out:
                ck.violation("hang", "[%s %s tpp=%d] no end within the watchdog\n%s" % (label, cfg, tpp, r.tail(500)), {"cmd": r.cmd})
                ck.hung = True
            elif not races and r.rc not in (0, 66):
                ck.violation("abnormal-end", "[%s %s tpp=%d ranks=%d] ended with code %s\n%s" % (label, cfg, tpp, ranks, r.rc, r.tail(700)), {"cmd": r.cmd})
            elif not races and r.rc == 0 and len(jobs) and arg == jobs[0][2]:
                ck.sample("%s %s tpp=%d: no race reported" % (label, cfg, tpp))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, jobs))
    return ck.finish()


main(run)
