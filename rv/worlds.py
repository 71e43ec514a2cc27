"""Runs complete random simulations (decks/whole_run.cxx) and reads what they recorded."""
import glob, os
from rv.rvlib import *


class Worlds:
    def __init__(self, ck, cfgs, deck="whole_run.cxx", timeout=None, extra=(), lextra=()):
        self.ck = ck
        self.cfgs = [c for c in cfgs if config_usable(c)]
        self.timeout = timeout or (240 if THOROUGH else 60)
        t = time.time()
        libs = build_libs(sorted(set(self.cfgs)))
        self.deck = os.path.join(VERIF, "decks", deck)
        with ThreadPoolExecutor(JOBS) as ex:
            self.exe = dict(zip(sorted(libs), ex.map(lambda c: build_deck(c, libs[c], self.deck, extra, lextra), sorted(libs))))
        ck.extra["build_s"] = round(ck.extra.get("build_s", 0) + time.time() - t, 1)
        ck.extra["configurations"] = sorted(set(ck.extra.get("configurations", []) + self.cfgs))

    def run(self, cfg, d, tag, ranks=0, tpp=1, args=(), env=None, label="", want_ok=True, timeout=None):
        """One run; a second attempt after a time-out. Returns the Run, or None
        when it did not end normally (already reported, if want_ok)."""
        if self.ck.hung:
            self.ck.add("runs_skipped_after_a_hang", 1)
            return None
        cmd = [self.exe[cfg], "--tpp", str(tpp)] + [str(a) for a in args]
        e = dict({"RV_OUT": d}, **(env or {}))
        e["RV_TAG"] = tag
        for k in range(2):
            for f in glob.glob("%s/%s.*" % (d, tag)):
                os.unlink(f)
            r = execute(cmd, ranks, env=e, timeout=timeout or self.timeout, cwd=d)
            if not r.timed_out:
                break
        self.ck.add("runs", 1)
        what = "%s %s ranks=%d tpp=%s %s %s" % (label, cfg, ranks, tpp, " ".join(str(a) for a in args), {k: v for k, v in e.items() if k != "RV_OUT"})
        if r.timed_out:
            self.ck.hung = True
            if want_ok:
                self.ck.violation("hang", "[%s] no end within the watchdog (twice)\n%s" % (what, r.tail(600)), {"cmd": r.cmd, "env": e})
                return None
        elif r.rc and want_ok:
            self.ck.violation("abnormal-end", "[%s] ended with code %s\n%s" % (what, r.rc, r.tail(900)), {"cmd": r.cmd, "env": e})
            return None
        r.what, r.env = what, e
        return r


def digests(d, tag):
    """{(rank, step): line} of a run"""
    o = {}
    for f in sorted(glob.glob("%s/%s.*.dig" % (d, tag))):
        rk = int(f.split(".")[-2])
        for l in open(f):
            o[(rk, int(l.split()[0]))] = l.strip()
    return o


NAMES = {"F": "field array", "I": "interpolators", "U": "deck globals", "C": "configuration counters", "G": "grid or settings", "M": "species or material records", "T": "tallies", "E": "energies", "R": "random streams"}


def diff(A, B):
    """First difference of two digest sets as (what, message), or None"""
    for k in sorted(set(A) | set(B), key=lambda k: (k[1], k[0])):
        a, b = A.get(k), B.get(k)
        if a == b:
            continue
        if a is None or b is None:
            return "steps", "rank %d step %d was recorded by only one of the runs" % k
        sec, what = "", []
        x, y = a.split(), b.split()
        for p, q in zip(x, y):
            if p[:1].isalpha() and p[0].isupper() and not (len(p) == 16):
                sec = p
            if p != q:
                w = NAMES.get(sec, "species %s" % sec[1:] if sec[:1] == "S" else sec)
                if w not in what:
                    what.append(w)
        return "state", "rank %d step %d: %s differ\n  %s\n  %s" % (k[0], k[1], ", ".join(what) or "records", a[:400], b[:400])
    return None
