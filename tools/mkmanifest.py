#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("exploration", "online monitor: every field value after every field operation against a double-precision evaluation on the global mesh, random boxes, 1-8 ranks, 1-8 pipelines, 5 (11) vector builds"),
 "C02": ("exploration", "online monitor: reported residuals, rms and cleaning steps against an independent discrete divergence; long random operation histories"),
 "C03": ("exploration", "conservation monitor: charge change of every mesh node against the divergence of the deposited current after each step, random particle worlds on 1-8 ranks"),
 "C04": ("exploration", "online monitor: every particle and every accumulator entry against a double-precision push and streak walk, all vector builds"),
 "C05": ("exploration", "online monitor: interpolators, currents, charge, hydro moments and energies against double-precision sums over the particles"),
 "C06": ("exploration", "exactly-once monitor: particles carry unique ids, the union over ranks is matched one to one with the reference after each step"),
 "C07": ("exploration", "permutation and partition oracle over random particle lists, both sort implementations"),
 "C08": ("exploration", "exactly-once monitor on hooked work shares with injected delays, and bitwise/rounding comparison of recorded runs over pipeline counts"),
 "C09": ("exploration", "offline comparison of recorded global states of the same problem on different decompositions"),
 "C10": ("exploration", "offline bitwise comparison of recorded state digests of uninterrupted and checkpoint-restored runs"),
 "C11": ("fault_enumeration", "fault injection (truncation, bit damage, mismatch, failing writes) with an exit-status and output monitor"),
 "C12": ("exploration", "independent decoder of every dump compared with memory images recorded at dump time; bitwise comparison of runs with and without dumps"),
 "C13": ("exploration", "AddressSanitizer and UndefinedBehaviorSanitizer over all workloads of this framework, scalar and vector builds"),
 "C14": ("exploration", "ThreadSanitizer over all pipeline workloads, scalar and vector builds, with injected delays"),
 "C15": ("exploration", "conservation and locality monitors around each collision operator call, statistical monitors for the thermostats"),
 "C16": ("exploration", "stream comparison, interval and distribution monitors over many generators and lengths"),
 "C17": ("exploration", "event-accounting monitor: each arrival at a boundary model is matched to exactly one tally, re-emission or removal"),
 "C18": ("exploration", "conservation monitor around emitter calls: particle count, place, direction, share and total charge per face"),
 "C19": ("exploration", "message oracle: random traffic over all ports and collectives with random delays, every payload checked"),
 "C20": ("exploration", "structural monitor: neighbour tables of all ranks gathered and checked against the global geometry"),
 "C21": ("exploration", "online energy oracle on random states plus energy-log monitor and conservation monitor over long runs"),
 "C22": ("exploration", "lane-by-lane differential monitor of every vector-class operation on hostile and random operands"),
 "C23": ("exploration", "online monitor: every momentum against a double-precision half kick and its inverse"),
 "C24": ("exploration", "deck-level monitor: everything injected or set by region is matched against the global request"),
 "C27": ("exploration", "process monitor: every guarded request run in its own process with arguments on both sides of the limit, its end and diagnosis judged; definitions read back after all others"),
 "C26": ("exploration", "resource monitor: every allocation, release, open and close of the program recorded at the link, balances judged at each step, at exit and between thousands of worlds"),
 "C25": ("exploration", "trace monitor: recorded events of the run loop checked against the configured intervals"),
}
checks, na = [], []
for pid in sorted(T):
    f = "checks/%s.py" % pid.lower()
    lvl, note = T[pid]
    if os.path.exists(os.path.join(V, f)):
        checks.append({"property": pid, "quick_cmd": "python3 " + f, "thorough_cmd": "env VERIF_TIER=thorough python3 " + f,
                       "technique": "runtime monitoring: " + note, "level": lvl,
                       "level_note": "oracle over observed executions; nothing is claimed for inputs that were not run (coverage in the evidence file)"})
    else:
        na.append({"property": pid, "reason": "check under construction"})
def g(*a):
    return subprocess.run(["git", "-C", "/repo"] + list(a), capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in g("log", "--format=%H %s").splitlines() if " hook:" in l]
json.dump({"version": 1, "setup_cmd": "true",
           "hooks": {"guard": "VPIC_RV_HOOKS", "enable": "compile the library with -DVPIC_RV_HOOKS (the checks that need it do so themselves)", "source_commits": hooks},
           "checks": checks, "not_applicable": na,
           "notes": "every check builds /repo's current sources itself (several vector and sanitizer configurations) and needs no set-up; build output goes to /verif/build (ignored by git)"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "pending")
