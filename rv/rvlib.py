"""Shared machinery of the checks: builds /repo's current sources in the wanted
configurations, runs monitored workloads, collects what the monitors observed,
matches violations against the known-findings file and writes the evidence."""
import hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
BUILD = os.environ.get("RV_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("RV_JOBS", "8"))

OMPI_ENV = {
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_plm_rsh_agent": "/bin/true",
    "OMPI_MCA_mpi_warn_on_fork": "0",
    "OMP_WAIT_POLICY": "passive",
    "PMIX_MCA_gds": "hash",
    "OMPI_MCA_ess_singleton_isolated": "1",  # a lone process needs no daemon
}
# MPI itself failing to start, before any line of the code under test ran
NO_START = re.compile(r"ompi_rte_init failed|Unable to start a daemon|orte_init failed|ORTE was unable to|daemon failed to|PMIx server.*failed|mpirun was unable to (?:start|launch)|unable to create.*session dir|not enough slots", re.I)

MPI_CF = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include",
          "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
MPI_LF = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]

V_PORT = ["-DUSE_V4_PORTABLE", "-DUSE_V8_PORTABLE", "-DUSE_V16_PORTABLE"]
PTH = ["-DVPIC_USE_PTHREADS"]
# name -> (compiler, flags)
CONFIGS = {
    "ref":    ("g++", ["-O2"] + PTH),
    "v4sse":  ("g++", ["-O2", "-DUSE_V4_SSE", "-DVPIC_USE_LEGACY_SORT"] + PTH),
    "v4port": ("g++", ["-O2", "-DUSE_V4_PORTABLE"] + PTH),
    "v4avx":  ("g++", ["-O2", "-mavx", "-DUSE_V4_AVX"] + PTH),
    "v4avx2": ("g++", ["-O2", "-mavx2", "-mfma", "-DUSE_V4_AVX2"] + PTH),
    "v8avx":  ("g++", ["-O2", "-mavx", "-DUSE_V4_AVX", "-DUSE_V8_AVX"] + PTH),
    "v8avx2": ("g++", ["-O2", "-mavx2", "-mfma", "-DUSE_V4_AVX2", "-DUSE_V8_AVX2"] + PTH),
    "v8port": ("g++", ["-O2", "-DUSE_V4_PORTABLE", "-DUSE_V8_PORTABLE"] + PTH),
    "v8omp":  ("g++", ["-O2", "-fopenmp", "-DUSE_V4_PORTABLE", "-DUSE_V8_PORTABLE", "-DVPIC_USE_OPENMP"]),
    "omp":    ("g++", ["-O2", "-fopenmp", "-DVPIC_USE_OPENMP"]),
    "v16port": ("g++", ["-O2"] + V_PORT + PTH),
    "v16avx512": ("g++", ["-O2", "-mavx512f", "-mavx512dq", "-mavx2", "-mfma", "-DUSE_V4_AVX2", "-DUSE_V8_AVX2", "-DUSE_V16_AVX512"] + PTH),
    "legacy": ("g++", ["-O2", "-DVPIC_USE_LEGACY_SORT"] + PTH),
    "nosse":  ("g++", ["-O2", "-U__SSE2__"] + PTH), # the portable random number generator
    # sanitizers
    "asan":   ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + PTH),
    "asan4":  ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DUSE_V4_SSE", "-DVPIC_USE_LEGACY_SORT"] + PTH),
    "asan8":  ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-mavx2", "-mfma", "-DUSE_V4_AVX2", "-DUSE_V8_AVX2"] + PTH),
    "asan16": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + V_PORT + PTH),
    "tsan":   ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVPIC_RV_HOOKS"] + PTH),
    "tsan4":  ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVPIC_RV_HOOKS", "-DUSE_V4_SSE", "-DVPIC_USE_LEGACY_SORT"] + PTH),
    "tsan8":  ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVPIC_RV_HOOKS", "-mavx2", "-mfma", "-DUSE_V4_AVX2", "-DUSE_V8_AVX2"] + PTH),
}
COMMON = ["-std=gnu++11", "-w", "-fno-strict-aliasing", "-DOMPI_SKIP_MPICXX", "-DNDEBUG"]


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for l in f:
                if l.startswith("flags"):
                    return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


# Numbers of pipelines beyond the cores: strides and tables sized by them show
WIDE = [9, 12, 13, 15, 16, 17, 24, 33]


def wide(k):
    return WIDE[(SEED + k) % len(WIDE)]


def config_usable(cfg):
    fl = cpu_flags()
    need = {"v4avx": ["avx"], "v8avx": ["avx"], "v4avx2": ["avx2", "fma"], "v8avx2": ["avx2", "fma"],
            "asan8": ["avx2", "fma"], "tsan8": ["avx2", "fma"],
            "v16avx512": ["avx512f", "avx512dq"]}.get(cfg, [])
    return all(n in fl for n in need)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_src_cache = {}


def repo_sources():
    if "s" in _src_cache:
        return _src_cache["s"]
    srcs, hdr = [], hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            r = os.path.relpath(p, REPO)
            if f.endswith((".cc", ".c", ".cxx", ".cpp")):
                if "/test" in r or r.endswith("rng/test/rng.cc"):
                    continue
                if f.endswith(".cc"):
                    srcs.append(r)
                else:
                    hdr.update(r.encode()); hdr.update(open(p, "rb").read())
            else:
                hdr.update(r.encode()); hdr.update(open(p, "rb").read())
    for f in ("deck/wrapper.h",):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            hdr.update(open(p, "rb").read())
    _src_cache["s"] = (srcs, hdr.hexdigest())
    return _src_cache["s"]


def _compile(args):
    cmd, out = args
    if os.path.exists(out):
        return None
    tmp = out + ".%d.%d.tmp.o" % (os.getpid(), threading.get_ident())
    r = sh(cmd + ["-o", tmp])
    if r.returncode:
        return "compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:])
    os.replace(tmp, out)
    return None


def flags_for(cfg, extra=()):
    cc, fl = CONFIGS[cfg]
    return cc, COMMON + fl + list(extra) + ["-I" + REPO, "-I" + os.path.join(REPO, "src")] + MPI_CF


PCH = """#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <float.h>
#include <pthread.h>
#include <iostream>
#include <vector>
#include <string>
"""


def pch_flags(cfg, cc, fl, d):
    """Precompiles the system headers the sources use (parsing the vector
    intrinsics costs four times the rest of the build)."""
    if cc != "g++":
        return []
    h = os.path.join(d, "rvpch.h")
    g = h + ".gch"
    if not os.path.exists(g):
        vec = any(f.startswith("-mavx") or f == "-DUSE_V4_SSE" for f in fl)
        with open(h, "w") as f:
            f.write(("#include <immintrin.h>\n" if vec else "") + PCH)
        tmp = g + ".%d.tmp" % os.getpid()
        r = sh([cc] + fl + ["-x", "c++-header", h, "-o", tmp])
        if r.returncode:
            return []
        os.replace(tmp, g)
    return ["-include", h]


def build_libs(cfgs, extra=(), skip=None):
    """Builds the library of every named configuration (all objects of all
    configurations share one pool of compile jobs). Returns {cfg: path of lib}."""
    srcs, hh = repo_sources()
    if skip:
        srcs = [s for s in srcs if not re.search(skip, s)]
    jobs, libs, dirs = [], {}, {}
    for cfg in cfgs:
        cc, fl = flags_for(cfg, extra)
        tag = hashlib.sha256((cc + " ".join(fl) + hh).encode()).hexdigest()[:16]
        dirs[cfg] = os.path.join(BUILD, "obj", cfg + "-" + tag)
        os.makedirs(dirs[cfg], exist_ok=True)
    with ThreadPoolExecutor(JOBS) as ex:
        pch = dict(zip(cfgs, ex.map(lambda c: pch_flags(c, *flags_for(c, extra), dirs[c]), cfgs)))
    for cfg in cfgs:
        cc, fl = flags_for(cfg, extra)
        fl = fl + pch[cfg]
        d, objs = dirs[cfg], []
        for s in srcs:
            p = os.path.join(REPO, s)
            h = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
            o = os.path.join(d, s.replace("/", "__") + "-" + h + ".o")
            objs.append(o)
            # big vector kernels first
            jobs.append((os.path.getsize(p), ([cc] + fl + ["-c", p], o)))
        libs[cfg] = (d, objs)
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(_compile, [j[1] for j in jobs]):
            if e:
                raise BuildError(e)
    out = {}
    for cfg, (d, objs) in libs.items():
        key = hashlib.sha256("".join(objs).encode()).hexdigest()[:16]
        a = os.path.join(d, "libvpic-%s.a" % key)
        if not os.path.exists(a):
            tmp = a + ".%d.tmp.a" % os.getpid()
            r = sh(["ar", "rcs", tmp] + objs)
            if r.returncode:
                raise BuildError(r.stdout)
            os.replace(tmp, a)
        out[cfg] = a
    return out


def build_exe(cfg, lib, name, sources, extra=(), lextra=()):
    """Compiles sources of /verif (or /repo/deck) against a built library."""
    cc, fl = flags_for(cfg, list(extra) + ["-I" + os.path.join(VERIF, "harness")])
    if not lib: # headers only: no library whose name would follow their content
        h = hashlib.sha256(("|".join([cc] + fl + list(lextra)) + repo_sources()[1]).encode())
    else:
        h = hashlib.sha256(("|".join([cc] + fl + [lib] + list(lextra))).encode())
    for s in sources:
        h.update(open(s, "rb").read())
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith(".h"):
            h.update(open(os.path.join(hd, f), "rb").read())
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s-%s" % (name, cfg, h.hexdigest()[:16]))
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    fl = [f for f in fl if f != "-w"] + ["-w"]
    r = sh([cc] + fl + list(sources) + ([lib] if lib else []) + MPI_LF + ["-lpthread", "-ldl", "-rdynamic"] + list(lextra) + ["-o", tmp])
    if r.returncode:
        raise BuildError("link of %s (%s) failed\n%s" % (name, cfg, r.stdout[-4000:]))
    os.replace(tmp, exe)
    return exe


def build_many(specs):
    """specs: list of (cfg, lib, name, sources, extra, lextra) -> list of exes, in parallel"""
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda s: build_exe(*s), specs))


def build_deck(cfg, lib, deck, extra=(), lextra=()):
    return build_exe(cfg, lib, "deck_" + os.path.basename(deck).replace(".", "_"),
                     [os.path.join(REPO, "deck/main.cc"), os.path.join(REPO, "deck/wrapper.cc")],
                     extra=['-DINPUT_DECK=%s' % deck, "-DRV_DECK_HASH=%d" % int(hashlib.sha256(open(deck, "rb").read()).hexdigest()[:7], 16)] + list(extra), lextra=lextra)


class Run:
    """Result of one monitored execution."""
    def __init__(self, cmd, rc, out, err, timed_out, wall):
        self.cmd, self.rc, self.out, self.err = cmd, rc, out, err
        self.timed_out, self.wall = timed_out, wall
        self.events = []
        for l in out.splitlines():
            if l.startswith("@@ "):
                try:
                    self.events.append(json.loads(l[3:]))
                except ValueError:
                    self.events.append({"t": "garbled", "line": l[:200]})

    def of(self, t):
        return [e for e in self.events if e.get("t") == t]

    def tail(self, n=1200):
        return (self.out[-n:] + "\n--stderr--\n" + self.err[-n:])


def execute(cmd, ranks=0, env=None, timeout=300, cwd=None, stdin=None):
    """One execution; one that MPI itself could not start is started again."""
    for k in range(4):
        r = execute_once(cmd, ranks, env, timeout, cwd)
        if r.rc == 0 or r.timed_out or r.events or not NO_START.search(r.err + r.out):
            return r
        time.sleep(1 + 2 * k)
    return r


def execute_once(cmd, ranks=0, env=None, timeout=300, cwd=None):
    """ranks==0: run directly (singleton MPI); else under mpirun."""
    e = dict(os.environ)
    e.update(OMPI_ENV)
    e.setdefault("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=1")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1")
    if env:
        e.update({k: str(v) for k, v in env.items()})
    full = [str(x) for x in cmd]
    if ranks:
        full = ["mpirun", "--oversubscribe", "-n", str(ranks)] + full
    t0 = time.time()
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(full, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, cwd=cwd, env=e, start_new_session=True)
        to = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGTERM)
            except OSError:
                pass
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        fo.seek(0); fe.seek(0)
        out = fo.read().decode("utf-8", "replace")
        err = fe.read().decode("utf-8", "replace")
    return Run(full, p.returncode, out, err, to, time.time() - t0)


class Scratch:
    """A private scratch directory, removed on exit."""
    def __enter__(self):
        base = os.environ.get("RV_SCRATCH", tempfile.gettempdir())
        self.path = tempfile.mkdtemp(prefix="rv_", dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=(), keys=None):
        """keys: regular expression of the violation keys that speak about
        this property (a workload may watch several properties at once)."""
        self.pid, self.level, self.rule, self.keys = pid, level, rule, keys
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.viol = []
        self.extra = {}
        self.inconclusive = []
        self.hung = False

    def count(self, n=1, sig=None):
        self.evals += n
        if sig is not None:
            self.distinct.add(sig)

    def add(self, key, n):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, msg, replay=None):
        if self.keys and key not in ("hang", "abnormal-end") and not re.search(self.keys, key):
            self.add("reports_about_other_properties", 1)
            return
        self.viol.append({"key": key, "msg": msg, "replay": replay})

    def absorb(self, run, label, replay, need_done=True, fatal_key="abnormal-end"):
        """Takes over what the monitors of a harness run reported. A run that
        did not reach its end is a violation: the same workload completes on
        a correct tree, and hangs are only reported after a second attempt."""
        for e in run.events:
            t = e.get("t")
            if t == "viol":
                self.violation(e.get("key", "?"), "[%s] %s" % (label, e.get("msg", "")), dict(replay, case=e.get("case")))
            elif t == "stat":
                self.evals += int(e.get("evals", 0))
                self.ndistinct += int(e.get("distinct", 0))
                for k, v in e.items():
                    if k not in ("t", "evals", "distinct") and isinstance(v, (int, float)):
                        self.add(k, v)
            elif t == "sample":
                self.sample("%s: %s" % (label, e.get("s")))
        if run.timed_out:
            self.violation("hang", "[%s] no end within the watchdog (twice)\n%s" % (label, run.tail()), replay)
        elif run.rc != 0 or (need_done and not run.of("done")):
            if not run.of("viol") or run.rc != 0:
                self.violation(fatal_key, "[%s] ended with code %s\n%s" % (label, run.rc, run.tail()), replay)

    def run_harness(self, exe, args, ranks=0, env=None, timeout=300, label="", cwd=None):
        cmd = [exe] + [str(a) for a in args]
        r = execute(cmd, ranks, env, timeout, cwd)
        if r.timed_out:
            r = execute(cmd, ranks, env, timeout, cwd)
        self.absorb(r, label, {"cmd": r.cmd, "env": {k: str(v) for k, v in (env or {}).items()}})
        return r

    def matrix(self, name, src, plan, timeout=600 if THOROUGH else 90, par=4, libs=None, skip=None, defs=(), env=None, lextra=()):
        """plan: list of (cfg, args, ranks). Builds what is needed and runs
        every item, a few at a time."""
        plan = [p for p in plan if config_usable(p[0])]
        cfgs = sorted(set(p[0] for p in plan))
        t = time.time()
        srcs = [os.path.join(VERIF, "harness", s) for s in ([src] if isinstance(src, str) else src)]
        try: # sources a workload does not reach need not be built ...
            libs = {c: None for c in cfgs} if libs is False else libs or build_libs(cfgs, skip=skip)
            exes = dict(zip(cfgs, build_many([(c, libs[c], name, srcs, defs, lextra) for c in cfgs])))
        except BuildError: # ... unless they turn out to be needed
            if not skip:
                raise
            libs = build_libs(cfgs)
            exes = dict(zip(cfgs, build_many([(c, libs[c], name, srcs, defs, lextra) for c in cfgs])))
        self.extra["build_s"] = round(self.extra.get("build_s", 0) + time.time() - t, 1)
        self.extra["configurations"] = sorted(set(self.extra.get("configurations", []) + cfgs))

        def one(p):
            cfg, args, ranks = p[0], p[1], p[2]
            a = args.split() if isinstance(args, str) else [str(x) for x in args]
            cmd = [exes[cfg]] + a
            if self.hung: # one confirmed hang settles the verdict
                return p, a, None
            r = execute(cmd, ranks, env=env, timeout=timeout)
            if r.timed_out and not self.hung:
                r = execute(cmd, ranks, env=env, timeout=timeout)
                self.hung = self.hung or r.timed_out
            return p, a, r
        with ThreadPoolExecutor(par) as ex:
            for p, a, r in ex.map(one, plan):
                if r is None:
                    self.add("runs_skipped_after_a_hang", 1)
                    continue
                label = "%s ranks=%d %s" % (p[0], p[2], " ".join(a))
                self.absorb(r, label, {"cmd": r.cmd})
                self.add("runs", 1)
        return exes

    def finish(self):
        kf = load_findings()
        listed = [f for f in kf.get("findings", []) if f["property"] == self.pid]
        new, seen_known = [], {}
        for v in self.viol:
            hit = None
            for f in listed:
                if re.search(f["match"], v["key"] + " :: " + v["msg"], re.S):
                    hit = f
                    break
            if hit:
                seen_known.setdefault(hit["id"], (hit, 0))
                seen_known[hit["id"]] = (hit, seen_known[hit["id"]][1] + 1)
            else:
                new.append(v)
        for f in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        distinct = len(self.distinct) + self.ndistinct
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": dict({"evaluations": self.evals, "distinct_nontrivial": distinct, "rule": self.rule,
                                "samples": self.samples or ["none"]}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-seed%d.json" % (self.pid, SEED))
            with open(rp, "w") as f:
                json.dump(new[:40], f, indent=1)
            for v in new[:8]:
                print("  %s: %s" % (v["key"], v["msg"][:1500]))
            print("(%d violations; %d executions)" % (len(new), self.evals))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            return 1
        if self.inconclusive or self.evals == 0 or distinct == 0:
            print("INCONCLUSIVE property=%s: %s" % (self.pid, self.inconclusive or "nothing was observed"))
            return 3
        print("held property=%s: %d executions, %d distinct non-trivial, %.1f s %s" % (
            self.pid, self.evals, distinct, time.time() - self.t0,
            {k: v for k, v in self.extra.items() if isinstance(v, (int, float))}))
        return 0


def main(fn):
    try:
        rc = fn()
    except BuildError as e:
        print("BUILD ERROR\n%s" % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
