import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.rvlib import *


def run():
    ck = Check("C19", keys=r".", rule="a case is a set of links between ports of ranks used for several rounds of messages, a set of neighbour exchanges on a decomposed grid, a round of collectives, or a turnstile; distinct ones differ in rank count, port and link count, topology, element count or turnstile width",
               assumptions=["MPI itself delivers messages over shared memory on one machine; network transports are out of reach"])
    lib = build_libs(["ref", "asan"])
    src = [os.path.join(VERIF, "harness/mp.cc")]
    exe, exea = build_many([("ref", lib["ref"], "mp", src, (), ()), ("asan", lib["asan"], "mp", src, (), ())])
    T = THOROUGH
    plan = []
    for k, r in enumerate((0, 2, 3, 4, 6, 8, 12) if not T else (0, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24)):
        for j in range(12 if T else 2 if r < 9 else 1):
            plan.append((exe, (60 if r < 9 else 20) * (4 if T else 1), r, SEED * 1000 + 16 * j + k))
    plan += [(exea, 200 if T else 25, r, SEED * 1000 + 500 + r) for r in (0, 2, 4)]

    def one(p):
        e, n, r, s = p
        with Scratch() as d:
            ck.run_harness(e, ["--mode", "mix", "--cases", n, "--seed", s, "--dir", d], r, timeout=600 if T else 200, label="ranks=%d seed=%d" % (r, s))

    def cont(k):
        with Scratch() as d:
            r = [2, 3, 4, 0][k % 4]
            for m in ("save", "resume"):
                ck.run_harness(exe, ["--mode", m, "--seed", SEED * 1000 + k, "--dir", d], r, timeout=60, label="%s ranks=%d seed=%d" % (m, r, SEED * 1000 + k))

    def huge(k):
        ck.run_harness(exe, ["--mode", "huge", "--seed", SEED * 1000 + k], 0, timeout=60, label="huge")

    def reject(k):
        for e, tag in ((exe, "ref"), (exea, "asan")):
            x = execute([e, "--mode", "reject", "--seed", str(k)], 0, {}, 60)
            ck.add("impossible_requests", 1)
            room = k >= 12 and any(e.get("t") == "had_room" for e in x.events)
            if (x.rc == 0 and not room) or x.timed_out or any(e.get("t") == "accepted" for e in x.events) or "AddressSanitizer" in x.err:
                ck.violation("accepted", "[%s] impossible request %d was not refused: %s" % (tag, k, x.tail(300)), {"k": k})
    with ThreadPoolExecutor(4) as ex:
        f = [ex.submit(one, p) for p in plan] + [ex.submit(cont, k) for k in range(20 if T else 4)] + [ex.submit(reject, k) for k in range(16)] + [ex.submit(huge, k) for k in range(2)]
        for x in f:
            x.result()
    return ck.finish()


main(run)
