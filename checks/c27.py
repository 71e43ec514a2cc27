import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *

WRAP = ["-Wl,--wrap=_nanodelay"]


def requests(ck, d, cfgs, seeds):
    """every request in a process of its own, once acceptable and once not"""
    t = time.time()
    libs = build_libs(sorted(cfgs))
    exes = dict(zip(sorted(cfgs), build_many([(c, libs[c], "def", [os.path.join(VERIF, "harness", "def.cc")], (), WRAP) for c in sorted(cfgs)])))
    ck.extra["build_s"] = round(ck.extra.get("build_s", 0) + time.time() - t, 1)
    env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=66", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66"}
    r = execute([exes[cfgs[0]], "--mode", "refuse", "--tpp", "2", "--dir", d], 0, env=env, timeout=60, cwd=d)
    names = dict((int(a), b) for a, b in re.findall(r"^REQ (\d+) (.*)$", r.out, re.M))
    if len(names) < 200:
        ck.violation("requests", "the list of requests could not be read\n" + r.tail(), {"cmd": r.cmd})
        return
    jobs = []
    for seed in seeds:
        for i, c in enumerate(cfgs):
            for k in sorted(names):
                for v in (0, 1):
                    jobs.append((c, k, v, seed, 2 + (k + seed + i) % 3))

    def one(j):
        c, k, v, seed, tpp = j
        sub = "%s/%s.%d.%d.%d" % (d, c, k, v, seed)
        os.mkdir(sub)
        for a in range(2):
            r = execute([exes[c], "--mode", "refuse", "--req", str(k), "--valid", str(v), "--seed", str(seed), "--tpp", str(tpp), "--dir", sub], 0, env=env, timeout=60, cwd=sub)
            if not r.timed_out:
                break
        shutil.rmtree(sub, ignore_errors=True)
        return j, r

    with ThreadPoolExecutor(2 * JOBS) as ex:
        for (c, k, v, seed, tpp), r in ex.map(one, jobs):
            what = "[%s tpp=%d seed=%d] %s, request %d (%s)" % (c, tpp, seed, "acceptable arguments" if v else "not acceptable", k, names[k])
            rep = {"cmd": r.cmd}
            ready, acc, said = "READY" in r.out, "ACCEPTED" in r.out, re.search(r"error", r.err, re.I)
            ck.count(1, "%s %d %s" % (k, v, c))
            ck.add("requests_made", 1)
            if r.timed_out:
                ck.violation("request-hang", "%s: no end (twice)\n%s" % (what, r.tail(300)), rep)
            elif re.search(r"ERROR: \w+Sanitizer|runtime error:", r.err):
                ck.violation("request-memory", "%s: %s" % (what, re.search(r"(ERROR: \w+Sanitizer.*|.*runtime error:.*)", r.err)[0]), rep)
            elif not ready:
                ck.violation("request-setting", "%s: what comes before it ended with code %s\n%s" % (what, r.rc, r.tail(400)), rep)
            elif v and (r.rc != 0 or not acc):
                ck.violation("refused", "%s: was refused (code %s)\n%s" % (what, r.rc, r.tail(400)), rep)
            elif not v and acc:
                ck.violation("accepted", "%s: was accepted" % what, rep)
            elif not v and (r.rc is None or r.rc <= 0 or r.rc >= 128):
                ck.violation("crashed", "%s: ended with code %s, not with a diagnosis\n%s" % (what, r.rc, r.tail(400)), rep)
            elif not v and not said:
                ck.violation("silent", "%s: ended without a word" % what, rep)
            elif not v:
                ck.add("refusals", 1)
                ck.sample("%s: %s" % (names[k], " ".join(r.err[r.err.find("Error"):].split())[:150]))
            else:
                ck.add("acceptances", 1)


def run():
    ck = Check("C27", keys=r".", rule="a case is one definition of a random simulation (material, species, emitter, boundary condition, collision operator) read back by name, identifier, count and value after all the others, or one request in a process of its own, once with acceptable arguments and once not; a distinct one differs in the kind and number of the definition, or in the request, its outcome or the build")
    S = SEED
    n = 400 if THOROUGH else 100
    vec = ["v4sse", "v8avx2", "v16avx512"]
    cfgs = ["ref", "v4sse", "v8avx2", "v16avx512", "legacy", "omp", "v4port"] if THOROUGH else ["ref", vec[S % 3]]
    plan = []
    for k, c in enumerate(cfgs):
        for tpp, ranks in [(1 + k % 3, 0), (2, 2)]:
            for s in range(4 if THOROUGH else 1):
                plan.append((c, "--mode keep --cases %d --seed %d --tpp %d" % (n, S * 1000 + s * 17 + k * 3, tpp), ranks))
    with Scratch() as d:
        ck.matrix("def", "def.cc", plan, lextra=WRAP)
        requests(ck, d, (cfgs + ["asan"]) if THOROUGH else ["ref", vec[S % 3]], range(S * 10, S * 10 + (3 if THOROUGH else 1)))
    return ck.finish()


main(run)
