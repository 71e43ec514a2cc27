import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *
from rv.worlds import Worlds


def read(d, tag, rank):
    f = "%s/%s.%d.log" % (d, tag, rank)
    return [l.rstrip("\n") for l in open(f)] if os.path.exists(f) else []


def hooks(s0, n, first):
    o = ["init %d" % s0, "diag %d" % s0] if first else []
    for s in range(s0, n):
        o += ["coll %d" % s, "part %d" % s, "curr %d" % s, "fld %d" % s, "diag %d" % (s + 1)]
    return o


NAMES = ["num_step", "quota", "checkpt_interval", "hydro_interval", "field_interval", "particle_interval"]


def modfile(R, path, conf, last):
    """writes a file of changes, returns the configuration it leaves"""
    c = dict(conf)
    with open(path, "w") as f:
        for k in range(R.randint(1, 5)):
            n = R.choice(NAMES)
            if n == "num_step":
                v = last if last is not None else R.randint(1, 9)
            elif n == "quota":
                v = R.choice([R.randint(0, 9), round(R.uniform(0, 50), 3)])
            else:
                v = R.choice([0, R.randint(1, 500), -R.randint(1, 9)])
            c[n] = v if n in ("num_step", "quota") else max(v, 0)
            f.write("%s%s%s\n" % (n, R.choice([" ", "   ", "\t"]), v))
            if R.random() < .3:
                f.write(R.choice(["# num_step 1\n", "\n", "nothing 5\n"]))
        if last is not None:
            f.write("num_step %d\n" % last)
            c["num_step"] = last
    return c


def process_runs(ck, d):
    R = random.Random(SEED * 77 + 5)
    W = Worlds(ck, ["ref"] if not THOROUGH else ["ref", "v4sse", "v8avx2", "omp"], "loop_deck.cxx")
    base = {"num_step": 5, "quota": 3, "checkpt_interval": 21, "hydro_interval": 22, "field_interval": 23, "particle_interval": 24}

    def verify(r, tag, what, n, want, conf, count0):
        if r is None:
            return
        if "normal exit" not in r.err + r.out:
            ck.violation("exit", "%s: the run did not report its normal exit\n%s" % (what, r.tail(400)), {"cmd": r.cmd})
        for rk in range(max(1, n)):
            L = read(d, tag, rk)
            got = [" ".join(l.split()[:2]) for l in L if l.split("|")[0].split() and l.split()[0] in ("init", "coll", "part", "curr", "fld", "diag")]
            if got != want:
                k = next((i for i, (a, b) in enumerate(zip(got + [None], want + [None])) if a != b), 0)
                ck.violation("hooks", "%s rank %d: hook number %d was %s, expected %s (%d and %d in all)" % (what, rk, k, (got + [None])[k:k + 1], (want + [None])[k:k + 1], len(got), len(want)), {"cmd": r.cmd})
            full = [l for l in L if l.split() and l.split()[0] in ("coll", "part", "curr", "fld", "diag")]
            full = full[1:] if want and want[0].startswith("init") else full
            for l in full:
                v = l.split("|")[1].split()
                have = dict(zip(NAMES, [float(x) for x in v]))
                bad = [k for k in NAMES if abs(have[k] - conf[k]) > 1e-12]
                if bad:
                    ck.violation("modify", "%s rank %d: at '%s' %s is %g, expected %g" % (what, rk, " ".join(l.split()[:2]), bad[0], have[bad[0]], conf[bad[0]]), {"cmd": r.cmd})
                    break
            cnt = [int(l.split("|")[2]) for l in L if l.count("|") == 2 and not l.startswith("argv")]
            if cnt and cnt != list(range(count0, count0 + len(cnt))):
                ck.violation("globals", "%s rank %d: the deck's own state did not survive (%s...)" % (what, rk, cnt[:5]), {"cmd": r.cmd})
            ck.count(1, "%s %d" % (got, n))
            ck.add("hook_records", len(got))

    for it in range(12 if THOROUGH else 4):
        cfg = R.choice(W.cfgs)
        n = R.choice([0, 2, 3])
        s0 = R.choice([0, 0, 4, 100])
        steps = R.randint(1, 7)
        at = s0 + R.randint(1, steps)
        env = {"RV_STEP0": s0, "RV_T0": R.choice([0, -2.5]), "RV_STEPS": s0 + steps, "RV_CKPT": at}
        conf = dict(base, num_step=s0 + steps)
        tpp = R.choice([1, 2])
        user = R.choice([[], ["foo"], ["-x", "3", "a b"], ["--mine", "--other", "7.5"]])
        args = list(user)
        last = None
        if R.random() < .5:
            last = s0 + R.randint(1, 9)
            conf = modfile(R, d + "/mod", conf, last)
            args += ["--modify", d + "/mod"]
        R.shuffle(args) if args == user and not user else None
        tag = "a%d" % it
        r = W.run(cfg, d, tag, n, tpp, args, env, "first run %s" % args)
        end = last if last is not None else s0 + steps
        verify(r, tag, "run %d (%s ranks=%d)" % (it, cfg, n), n, hooks(s0, end, True), conf, 0)
        if r is not None:
            for rk in range(max(1, n)):
                a = [l for l in read(d, tag, rk) if l.startswith("argv")]
                words = a[0].split("|")[1:] if a else []
                w = [x for x in words if x not in ("--modify", d + "/mod")]
                if len(a) != 1 or w != user:
                    ck.violation("arguments", "run %d: the deck was given the arguments %s, expected %s" % (it, words, user), {"cmd": r.cmd})
        if r is None or end < at:
            continue
        # take it up again, as it was and changed
        for how in ("plain", "changed", "ended"):
            args, c2, e2 = ["--restore", "%s/ck.%d" % (d, at)], dict(conf), end
            if how != "plain":
                e2 = at + R.randint(1, 6) if how == "changed" else R.choice([at, max(1, at - 1)])
                c2 = modfile(R, d + "/mod2", conf, e2)
                args += ["--modify", d + "/mod2"]
                if R.random() < .5:
                    args = args[2:] + args[:2]
            tag = "b%d%s" % (it, how)
            r2 = W.run(cfg, d, tag, n, tpp, args, env, how)
            count0 = 2 + 5 * (at - s0)
            verify(r2, tag, "run %d restored at %d, %s" % (it, at, how), n, hooks(at, e2, False), c2, count0)
            ck.add("restores", 1)
    # arguments of the old style are refused
    for bad in (["-tpp", "2"], ["-restore", "x"], ["-restart"]):
        r = execute([W.exe["ref"]] + bad, 0, env={"RV_OUT": d, "RV_TAG": "old"}, timeout=60, cwd=d)
        ck.add("runs", 1)
        ck.count(1, "old %s" % bad)
        if r.timed_out or r.rc == 0 or read(d, "old", 0):
            ck.violation("old-style", "the argument %s was not refused (code %s)" % (bad[0], r.rc), {"cmd": r.cmd})
    for bad in (["--restore", d + "/nothing"], ["--modify", d + "/nothing"]):
        r = execute([W.exe["ref"]] + bad, 0, env={"RV_OUT": d, "RV_TAG": "none", "RV_STEPS": "3"}, timeout=60, cwd=d)
        ck.add("runs", 1)
        if r.timed_out or r.rc == 0 or [l for l in read(d, "none", 0) if l.startswith("coll")]:
            ck.violation("missing-file", "%s of a file that does not exist was not refused (code %s)" % (bad[0], r.rc), {"cmd": r.cmd})


def everything(ck, d):
    """complete simulations with every kind of object end normally"""
    W = Worlds(ck, [["ref", "v4sse", "v8avx2", "v16avx512"][SEED % 4]])
    for k in range(12 if THOROUGH else 4):
        r = W.run(W.cfgs[0], d, "w%d" % k, [0, 2, 4][k % 3], 1 + k % 2, env={"RV_CASE": SEED * 100 + k, "RV_STEPS": 3, "RV_TOPO": "auto"}, label="complete simulation")
        ck.count(1, "whole %d" % k)
        if r is not None and "normal exit" not in r.err + r.out:
            ck.violation("exit", "%s did not report its normal exit\n%s" % (r.what, r.tail(400)), {"cmd": r.cmd})


def run():
    ck = Check("C25", keys=r".", rule="a case is one simulation with random intervals, step range, hooks and objects, every hook and field advance call of every step compared with what was configured, or one command line, file of changes, or process run and restored; a distinct one differs in the record of its steps or in its words")
    n = 150 if THOROUGH else 40
    S = SEED
    cfgs = ["ref", "v4sse", "v8avx2", "v16avx512", "legacy", "omp", "v4port"] if THOROUGH else ["ref", ["v4sse", "v8avx2", "v16avx512"][S % 3]]
    with Scratch() as d:
        plan = []
        for k, c in enumerate(cfgs):
            for tpp, ranks in ([(1, 0), (2, 2), (1, 3), (1, 4), (2, 6), (1, 8)] if THOROUGH else [(2, 0), (1, 2), (1, 4 + 2 * ((S + k) % 3))]):
                for s in range(3 if THOROUGH else 1):
                    plan.append((c, "--cases %d --seed %d --tpp %d --dir %s" % (n, S * 1000 + s * 17 + k * 3 + ranks * 101, tpp, d), ranks))
        # runs share the scratch folder, not the names in it
        for i, p in enumerate(plan):
            sub = "%s/%d" % (d, i)
            os.mkdir(sub)
            os.chmod(sub, 0o777)
            plan[i] = (p[0], p[1].replace("--dir " + d, "--dir " + sub), p[2])
        ck.matrix("loop", "loop.cc", plan)
        process_runs(ck, d)
        everything(ck, d)
    return ck.finish()


main(run)
