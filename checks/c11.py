import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
import random, re, shutil, struct

MAGIC = {0x600DF00D: "object", 0xBADF00D: "end", 0xDA7A: "data", 0x577513B: "symbol", 0x2C11513B: "null-symbol",
         0x577: "string", 0x977: "pointer", 0x2c11977: "null-pointer"}


def structure(b):
    """Offsets of the structural words of a checkpoint, by kind."""
    o = {}
    for m, k in MAGIC.items():
        w, p = struct.pack("<Q", m), 0
        while True:
            p = b.find(w, p)
            if p < 0:
                break
            o.setdefault(k, []).append(p)
            p += 8
    return o


def run():
    ck = Check("C11", rule="a case is one restore of a damaged, missing or mismatched checkpoint of a random simulation, or one checkpoint whose writing was made to fail at a chosen place; the run must end by reporting an error with a failing status before any further step; distinct cases differ in simulation, kind and place of the damage",
               assumptions=["damage inside the values themselves (no redundancy is stored) and references exchanged for other valid ones are not detectable and not drawn",
                            "refused writes and short reads are injected at the C library calls made on checkpoint files and by limiting the file size"])
    S = SEED
    rnd = random.Random(S * 911)
    cfgs = ["ref", "v8omp"] + (["v4sse", "v8avx2", "v16port"] if THOROUGH else [])
    w = Worlds(ck, cfgs)
    kinds = {}

    def bad_end(r, d, tag, after, kind, what, rep):
        """The oracle: reported failure, failing status, no further step."""
        steps = [k[1] for k in digests(d, tag)]
        ck.count(1, what)
        kinds[kind] = kinds.get(kind, 0) + 1
        msg = None
        if r is None:
            return
        if r.timed_out:
            msg = "did not end"
        elif any(s > after for s in steps):
            msg = "continued to step %d (status %s)" % (max(steps), r.rc)
        elif r.rc == 0:
            msg = "ended with status 0"
        elif r.rc < 0 or r.rc in (134, 135, 136, 139) or "Signal:" in r.out + r.err:
            msg = "crashed (%s) instead of reporting the failure" % r.rc
        elif "Error at" not in r.out + r.err:
            msg = "ended with status %s without a message" % r.rc
        if msg:
            ck.violation(kind, "%s: the run %s\n%s" % (what, msg, r.tail(500)), rep)

    def one_world(k):
        cfg = w.cfgs[k % len(w.cfgs)]
        case, ranks, tpp = S * 100000 + k, [0, 2, 0][k % 3], rnd.choice([2, 3])
        with Scratch() as d:
            src = os.path.join(d, "src")
            os.mkdir(src)
            e = {"RV_CASE": case, "RV_STEPS": 6, "RV_TOPO": "auto"}
            st = rnd.choice([2, 3])
            if not w.run(cfg, d, "a", ranks, tpp, env=dict(e, RV_CKPT=str(st), RV_CKDIR=src)):
                return
            A = digests(d, "a")
            n = max(1, ranks)
            files = ["%s/ck.%d.%d" % (src, st, i) for i in range(n)]
            if not all(os.path.exists(f) for f in files):
                ck.violation("no-checkpoint", "case %d %s ranks=%d: no checkpoint was written at step %d" % (case, cfg, ranks, st), {"case": case})
                return
            data = [open(f, "rb").read() for f in files]
            # the undamaged checkpoint continues
            r = w.run(cfg, d, "ok", ranks, tpp, args=["--restore", "%s/ck.%d" % (src, st)], env=dict(e, RV_FAULT="count"), label="undamaged")
            if not r:
                return
            v = diff({q: l for q, l in A.items() if q[1] > st}, digests(d, "ok"))
            if v:
                ck.violation("undamaged", "case %d: the undamaged checkpoint did not continue as before: %s" % (case, v[1]), {"case": case})
            reads = max([x.get("reads", 0) for x in r.of("io")] + [1])
            r = w.run(cfg, d, "w", ranks, tpp, env=dict(e, RV_CKPT=str(st), RV_CKDIR=src, RV_FAULT="count"), label="counting")
            writes = max([x.get("writes", 0) for x in (r.of("io") if r else [])] + [1])
            jobs = []
            nt = 160 if THOROUGH else 15
            victim = rnd.randrange(n)
            b = data[victim]
            so = structure(b)
            marks = sorted(x for v in so.values() for x in v)
            cuts = [0, 1, 7, 8, len(b) - 1, len(b) - 8, len(b) - 9] + [rnd.randrange(len(b)) for q in range(nt // 2)]
            cuts += [min(len(b) - 1, max(0, rnd.choice(marks) + rnd.choice([-1, 0, 1, 4, 8, 16]))) for q in range(nt // 2)]
            for c in cuts:
                jobs.append(("truncated", "file of rank %d cut to %d of %d bytes" % (victim, c, len(b)), {victim: b[:c]}, [], ranks, tpp, {}))
            for q in range(nt):
                kd = rnd.choice([x for x in so if so[x]])
                p = rnd.choice(so[kd])
                x = bytearray(b)
                bit = rnd.randrange(40)
                x[p + bit // 8] ^= 1 << (bit % 8)
                if struct.unpack("<Q", x[p:p + 8])[0] in MAGIC:
                    continue
                jobs.append(("damaged-mark", "%s mark at byte %d of rank %d altered" % (kd, p, victim), {victim: bytes(x)}, [], ranks, tpp, {}))
            for q in range(nt // 2):
                p = rnd.choice(so["data"])
                sz, stv, ne, me, al = struct.unpack("<5Q", b[p + 8:p + 48])
                x = bytearray(b)
                how = rnd.randrange(6)
                if not sz or not stv:
                    continue
                if how == 0:
                    sz = stv + rnd.choice([1, 8, 2 ** 40])
                elif how == 1:
                    ne = me + rnd.choice([1, 8, 2 ** 40])
                elif how == 2:
                    ne, me = 2 ** 45, 2 ** 45
                elif how == 3:
                    sz, stv = 2 ** 48, 2 ** 48
                    ne = me = max(1, ne)
                elif how == 4:
                    if not ne or not sz:
                        continue
                    ne -= 1
                else:
                    if not sz or not ne:
                        continue
                    ne, me = ne + 1, max(me, ne + 1)
                x[p + 8:p + 48] = struct.pack("<5Q", sz, stv, ne, me, al)
                jobs.append(("damaged-header", "data header at byte %d of rank %d altered to %s" % (p, victim, (sz, stv, ne, me, al)), {victim: bytes(x)}, [], ranks, tpp, {}))
            for q in range(nt // 6):
                p = rnd.choice(so["pointer"])
                x = bytearray(b)
                x[p + 8:p + 16] = struct.pack("<Q", rnd.choice([0, 7777777, 2 ** 62]))
                jobs.append(("damaged-reference", "reference at byte %d of rank %d to an object that does not exist" % (p, victim), {victim: bytes(x)}, [], ranks, tpp, {}))
                p = rnd.choice(so["symbol"])
                x = bytearray(b)
                x[p + 24] = x[p + 24] ^ 0x15
                jobs.append(("damaged-symbol", "function name at byte %d of rank %d altered" % (p, victim), {victim: bytes(x)}, [], ranks, tpp, {}))
            jobs.append(("missing", "file of rank %d missing" % victim, {victim: None}, [], ranks, tpp, {}))
            jobs.append(("missing", "all files missing", {i: None for i in range(n)}, [], ranks, tpp, {}))
            jobs.append(("empty", "file of rank %d empty" % victim, {victim: b""}, [], ranks, tpp, {}))
            for rk in sorted(set([0, 2, 3, 4]) - {ranks}):
                jobs.append(("ranks", "restored on %d ranks" % max(1, rk), {}, [], rk, tpp, {}))
            for t in (1, tpp + 1, 8):
                jobs.append(("pipelines", "restored with %d pipelines instead of %d" % (t, tpp), {}, [], ranks, t, {}))
            if "omp" not in cfg:
                jobs.append(("pipelines", "restored with another number of serial pipelines", {}, ["--serial.n_pipeline", "3"], ranks, tpp, {}))
            if n > 1:
                jobs.append(("swapped", "files of two ranks exchanged", {0: data[1], 1: data[0]}, [], ranks, tpp, {}))
            for q in range(nt // 4):
                jobs.append(("short-read", "read %d of %d ended early" % (0, reads), {}, [], ranks, tpp, {"RV_FAULT": "read %d" % rnd.randint(1, reads)}))

            def restore_one(j):
                i, (kind, what, put, args, rk, t, env) = j
                sub = os.path.join(d, "j%d" % i)
                os.mkdir(sub)
                for q in range(n):
                    f = "%s/ck.%d.%d" % (sub, st, q)
                    if q in put:
                        if put[q] is not None:
                            open(f, "wb").write(put[q])
                    else:
                        os.symlink(files[q], f)
                r = w.run(cfg, d, "j%d" % i, rk, t, args=["--restore", "%s/ck.%d" % (sub, st)] + args, env=dict(e, **env), want_ok=False, label=what)
                bad_end(r, d, "j%d" % i, st, kind, "case %d %s ranks=%d tpp=%d: %s %s" % (case, cfg, ranks, tpp, what, env or ""), {"case": case, "cfg": cfg, "ranks": ranks, "tpp": tpp, "what": what, "env": env})
                shutil.rmtree(sub)
            wj = []
            for q in range(nt // 2):
                f = rnd.choice(["write", "write+"])
                wj.append(("refused-write", {"RV_FAULT": "%s %d" % (f, rnd.choice([1, writes, rnd.randint(1, writes), rnd.randint(1, writes)]))}))
            wj.append(("refused-close", {"RV_FAULT": "close"}))
            wj.append(("refused-open", {"RV_FAULT": "open"}))
            for q in range(nt // 4 if len(b) > 70000 else 0): # logs must still fit
                wj.append(("file-size-limit", {"RV_FAULT": "limit %d" % rnd.choice([len(b) - 1, len(b) - 4000, rnd.randrange(60000, len(b)), rnd.randrange(60000, len(b))])}))

            def write_one(j):
                i, (kind, env) = j
                sub = os.path.join(d, "w%d" % i)
                os.mkdir(sub)
                ex = dict(e, RV_CKPT=str(st), RV_CKDIR=sub, **env)
                if ranks:
                    ex["RV_FAULT_RANK"] = str(victim)
                r = w.run(cfg, d, "w%d" % i, ranks, tpp, env=ex, want_ok=False, label=kind)
                bad_end(r, d, "w%d" % i, st, kind, "case %d %s ranks=%d: checkpoint writing refused (%s, %d bytes, %d writes)" % (case, cfg, ranks, env, len(b), writes), {"case": case, "cfg": cfg, "ranks": ranks, "env": env})
                shutil.rmtree(sub)
            def long_one(j):
                """Names of any length: the file is written or read in full, or the failure is reported."""
                i, (total, rd) = j
                base, sfx = os.path.join(d, "l%d" % i), len("/ck.%d.%d" % (st, n - 1))
                sub = base
                while len(sub) < total - sfx:
                    left = total - sfx - len(sub)
                    if left == 1:
                        break
                    sub += "/" + "n" * min(200 if left - 201 != 1 else 190, left - 1)
                os.makedirs(sub)
                what = "case %d %s ranks=%d: checkpoint %s a name of %d characters" % (case, cfg, ranks, "restored from" if rd else "written to", len(sub) + sfx)
                rep = {"case": case, "cfg": cfg, "ranks": ranks, "what": what}
                if rd:
                    for q in range(n):
                        shutil.copy(files[q], sub)
                    r = w.run(cfg, d, "l%d" % i, ranks, tpp, args=["--restore", "%s/ck.%d" % (sub, st)], env=e, want_ok=False, label="long-name")
                else:
                    r = w.run(cfg, d, "l%d" % i, ranks, tpp, env=dict(e, RV_CKPT=str(st), RV_CKDIR=sub), want_ok=False, label="long-name")
                if r is not None and not r.timed_out and r.rc == 0:
                    ck.count(1, what)
                    kinds["long-name-used"] = kinds.get("long-name-used", 0) + 1
                    if rd:
                        v = diff({q: l for q, l in A.items() if q[1] > st}, digests(d, "l%d" % i))
                        if v:
                            ck.violation("long-name", "%s: the run did not continue as before: %s" % (what, v[1]), rep)
                    elif not all(os.path.exists("%s/ck.%d.%d" % (sub, st, q)) and os.path.getsize("%s/ck.%d.%d" % (sub, st, q)) == len(data[q]) for q in range(n)):
                        ck.violation("long-name", "%s: the run ended with status 0 but left no complete checkpoint there" % what, rep)
                else:
                    bad_end(r, d, "l%d" % i, st, "long-name", what, rep)
                shutil.rmtree(base)
            lj = [(t, q % 2) for q, t in enumerate([254, 255, 256, 257] + [rnd.randrange(240, 280) for q in range(nt // 8)] + [rnd.randrange(280, 380) for q in range(nt // 5)])]
            with ThreadPoolExecutor(16) as ex:
                list(ex.map(long_one, enumerate(lj)))
                list(ex.map(restore_one, enumerate(jobs)))
                list(ex.map(write_one, enumerate(wj)))
            ck.sample("case %d %s ranks=%d: %d damaged restores, %d refused writes; checkpoint of %d bytes, %d marks, %d writes, %d reads" % (case, cfg, ranks, len(jobs), len(wj), len(b), len(marks), writes, reads))
    for k in range(10 if THOROUGH else 3):
        one_world(k + S % 7)
    ck.extra["kinds"] = kinds
    return ck.finish()


main(run)
