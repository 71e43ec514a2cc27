"""Offline comparison of recorded global states (images written by
decks/whole_run.cxx) of the same problem run in different ways."""
import glob, os
import numpy as np

COMP = ["ex", "ey", "ez", "cbx", "cby", "cbz", "tcax", "tcay", "tcaz", "jfx", "jfy", "jfz", "rhob", "rhof"]
# owned extent of each component: number of nodes beyond n along x, y, z
EXT = [(0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)] + [(0, 1, 1), (1, 0, 1), (1, 1, 0)] * 2 + [(1, 1, 1)] * 2
GROUP = [range(0, 3), range(3, 6), range(6, 9), range(9, 12), range(12, 14)]


class State:
    pass


def load(d, tag):
    """{step: State}; State.f[c] global array, State.spread[c] largest disagreement of copies, State.p {species: particles sorted by id}"""
    out = {}
    for fn in sorted(glob.glob("%s/%s.*.img" % (d, tag))):
        b = np.fromfile(fn, dtype=np.uint8)
        o = 0
        while o < len(b):
            h = b[o:o + 64].view(np.int32); o += 64
            if h[0] != 0x52564931:
                raise ValueError("bad image " + fn)
            step, n, me, gp, nsp = int(h[1]), h[2:5].astype(int), h[5:8].astype(int), h[8:11].astype(int), int(h[11])
            m = (n[0] + 1) * (n[1] + 1) * (n[2] + 1) * 16
            v = b[o:o + 4 * m].view(np.float32).reshape(n[2] + 1, n[1] + 1, n[0] + 1, 16); o += 4 * m
            s = out.get(step)
            if s is None:
                s = out[step] = State()
                g = n * gp
                s.n = g
                s.lo = [np.full((g[2] + 1, g[1] + 1, g[0] + 1), np.inf, np.float64) for c in COMP]
                s.hi = [np.full((g[2] + 1, g[1] + 1, g[0] + 1), -np.inf, np.float64) for c in COMP]
                s.p = {}
                s.nan = []
            for c in range(len(COMP)):
                e = EXT[c]
                sl = tuple(slice(me[a] * n[a], me[a] * n[a] + n[a] + e[a]) for a in (2, 1, 0))
                w = v[:n[2] + e[2], :n[1] + e[1], :n[0] + e[0], c].astype(np.float64)
                if not np.all(np.isfinite(w)):
                    s.nan.append(COMP[c]); w = np.nan_to_num(w)
                s.lo[c][sl] = np.minimum(s.lo[c][sl], w)
                s.hi[c][sl] = np.maximum(s.hi[c][sl], w)
            for k in range(nsp):
                sid, np_ = [int(x) for x in b[o:o + 8].view(np.int32)]; o += 8
                q = b[o:o + 64 * np_].view(np.float64).reshape(np_, 8) if np_ else np.zeros((0, 8)); o += 64 * np_
                s.p.setdefault(sid, []).append(q)
    for s in out.values():
        s.f, s.spread = [], []
        for c in range(len(COMP)):
            have = s.hi[c] >= s.lo[c]
            s.lo[c][~have] = s.hi[c][~have] = 0
            s.f.append(0.5 * (s.lo[c] + s.hi[c]))
            s.spread.append(np.max(s.hi[c] - s.lo[c]))
        for k in s.p:
            q = np.concatenate(s.p[k])
            s.p[k] = q[np.argsort(q[:, 6], kind="stable")]
    return out


def compare(A, B, dt, tolf=2e-4, tolp=2e-4, per=(1, 1, 1)):
    """Yields nothing or one (key, message); returns also statistics.
    A and B are states of two runs; comparison stops at the first step where a
    rounding difference may legitimately have become a discrete one (a
    particle within rounding of a cell face or of an absorbing wall)."""
    st = {"steps": 0, "stopped_early": 0, "max_field_diff": 0.0, "max_particle_diff": 0.0, "nodes": 0, "particles": 0}
    if sorted(A) != sorted(B):
        return ("steps", "recorded steps differ: %s against %s" % (sorted(A), sorted(B))), st
    prev = None
    for t in sorted(A):
        a, b = A[t], B[t]
        near = 1e-4
        if prev and any(not np.isin(prev[0].p[k][:, 6], a.p[k][:, 6]).all() for k in prev[0].p if k in a.p):
            # absorbed on a grazing path: where exactly is sensitive to rounding
            tolf = max(tolf, 2e-2)
        if a.nan or b.nan:
            return ("nan", "step %d: non-finite field %s" % (t, a.nan + b.nan)), st
        # particles first: an ambiguous particle ends the comparison
        bad = None
        for k in sorted(set(a.p) | set(b.p)):
            p, q = a.p.get(k), b.p.get(k)
            if p is None or q is None:
                return ("species", "step %d: species %d missing" % (t, k)), st
            if len(p) != len(q) or not np.array_equal(p[:, 6], q[:, 6]):
                ia, ib = set(p[:, 6]), set(q[:, 6])
                if len(ia) == len(p) and len(ib) == len(q):
                    odd = ia ^ ib
                    src = np.concatenate([p, q] + ([prev[0].p[k], prev[1].p[k]] if prev else []))
                    amb = all(any(edge(src[j], a.n, 2e-2) for j in np.nonzero(src[:, 6] == w)[0]) for w in odd) and len(odd) <= 2
                    if amb:
                        st["stopped_early"] = 1
                        return None, st
                return ("particles", "step %d species %d: %d against %d particles; identities differ: %s" % (t, k, len(p), len(q), sorted(ia ^ ib)[:4])), st
            if not len(p):
                continue
            dx = np.abs(p[:, :3] - q[:, :3])
            g = a.n.astype(float)
            dx = np.minimum(dx, np.abs(g - dx)) # periodic wrap
            du = np.abs(p[:, 3:6] - q[:, 3:6])
            umax = max(1e-3, np.abs(p[:, 3:6]).max())
            e = np.maximum(dx.max(1), du.max(1) / umax)
            st["max_particle_diff"] = max(st["max_particle_diff"], float(np.max(e)))
            st["particles"] += len(p)
            w = np.nonzero(~(e <= tolp))[0]
            if len(w):
                j = w[0]
                # a particle within rounding of a cell face saw different cells
                hist = [p[j], q[j]] + [r.p[k][r.p[k][:, 6] == p[j, 6]][0] for r in (prev or ()) if (r.p[k][:, 6] == p[j, 6]).any()]
                if all(any(face(x, near * 10) for x in ([p[i], q[i]] + [r.p[k][r.p[k][:, 6] == p[i, 6]][0] for r in (prev or ()) if (r.p[k][:, 6] == p[i, 6]).any()])) for i in w) and len(w) <= 2:
                    st["stopped_early"] = 1
                    return None, st
                bad = ("particle-state", "step %d species %d: particle weight %.9g at %s u %s against %s u %s (%d differ)" % (t, k, p[j, 6], p[j, :3], p[j, 3:6], q[j, :3], q[j, 3:6], len(w)))
        if bad:
            return bad, st
        for g in GROUP:
            sc = max([np.abs(a.f[c]).max() for c in g] + [np.abs(b.f[c]).max() for c in g])
            ref = max(sc, 1e-3 * max(np.abs(a.f[c]).max() for c in range(6)), 1e-20)
            for c in g:
                d = np.abs(a.f[c] - b.f[c]).max()
                st["max_field_diff"] = max(st["max_field_diff"], float(d / ref))
                st["nodes"] += a.f[c].size
                if not d <= tolf * ref:
                    w = np.unravel_index(np.argmax(np.abs(a.f[c] - b.f[c])), a.f[c].shape)
                    return ("field", "step %d: %s at node (%d,%d,%d) is %.9g against %.9g (scale %.3g)" % (t, COMP[c], w[2] + 1, w[1] + 1, w[0] + 1, a.f[c][w], b.f[c][w], ref)), st
                for s in (a, b):
                    if not s.spread[c] <= tolf * ref:
                        return ("copies", "step %d: copies of %s on a shared surface differ by %.3g (scale %.3g)" % (t, COMP[c], s.spread[c], ref)), st
        st["steps"] += 1
        prev = (a, b)
    return None, st


def edge(x, n, near):
    return any(min(abs(x[a]), abs(x[a] - n[a])) < max(near, 0) or x[a] < 0 or x[a] > n[a] for a in range(3)) or face(x, 1e-3)


def face(x, near):
    return any(abs(x[a] - round(x[a])) < near for a in range(3))
