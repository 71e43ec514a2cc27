import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.worlds import *
import random, struct
import numpy as np

FNAMES = [("Electric Field", "VECTOR", 3, "FLOATING_POINT", 4), ("Electric Field Divergence Error", "SCALAR", 1, "FLOATING_POINT", 4), ("Magnetic Field", "VECTOR", 3, "FLOATING_POINT", 4), ("Magnetic Field Divergence Error", "SCALAR", 1, "FLOATING_POINT", 4),
          ("TCA Field", "VECTOR", 3, "FLOATING_POINT", 4), ("Bound Charge Density", "SCALAR", 1, "FLOATING_POINT", 4), ("Free Current Field", "VECTOR", 3, "FLOATING_POINT", 4), ("Charge Density", "SCALAR", 1, "FLOATING_POINT", 4),
          ("Edge Material", "VECTOR", 3, "INTEGER", 2), ("Node Material", "SCALAR", 1, "INTEGER", 2), ("Face Material", "VECTOR", 3, "INTEGER", 2), ("Cell Material", "SCALAR", 1, "INTEGER", 2)]
FIDX = [0, 3, 4, 7, 8, 11, 12, 15, 16, 19, 20, 23]
HNAMES = [("Current Density", "VECTOR", 3, "FLOATING_POINT", 4), ("Charge Density", "SCALAR", 1, "FLOATING_POINT", 4), ("Momentum Density", "VECTOR", 3, "FLOATING_POINT", 4), ("Kinetic Energy Density", "SCALAR", 1, "FLOATING_POINT", 4), ("Stress Tensor", "TENSOR", 6, "FLOATING_POINT", 4)]
HIDX = [0, 3, 4, 7, 8]


class Bad(Exception):
    pass


def need(c, key, msg):
    if not c:
        raise Bad(key, msg)


class Header:
    """The 103 byte version 0 header that the Matlab, IDL and Python readers shipped with the code expect"""
    def __init__(self, b):
        need(len(b) >= 103, "header", "file of %d bytes has no complete header" % len(b))
        o = struct.unpack_from("<5bHIfd", b, 0)
        need(o[:5] == (8, 2, 4, 4, 8) and o[5] == 0xcafe and o[6] == 0xdeadbeef and o[7] == 1 and o[8] == 1, "header", "compatibility block is %s" % (o,))
        self.version, self.type, self.step, *self.n = struct.unpack_from("<6i", b, 23)
        self.f = np.frombuffer(b, "<f4", 10, 47)  # dt dx dy dz x0 y0 z0 cvac eps0 damp
        self.rank, self.nproc, self.sp = struct.unpack_from("<3i", b, 87)
        self.qm, = struct.unpack_from("<f", b, 99)

    def against(self, g, typ, step, sp, qm, stride=(1, 1, 1)):
        f32 = np.float32
        need(self.version == 0 and self.type == typ, "header", "version %d type %d (expected 0 and %d)" % (self.version, self.type, typ))
        need(self.step == step, "header", "step %d, expected %d" % (self.step, step))
        need(list(self.n) == [g.n[a] // stride[a] for a in range(3)], "header", "cells %s, expected %s by stride %s" % (self.n, g.n, stride))
        want = [g.dt] + [f32(g.d[a] * f32(stride[a])) for a in range(3)] + list(g.x0) + [g.cvac, g.eps0, f32(0)]
        need(np.array_equal(self.f, np.array(want, f32)), "header", "dt dx dy dz x0 y0 z0 c eps0 are %s, expected %s" % (self.f, want))
        need((self.rank, self.nproc) == (g.rank, g.nproc), "header", "rank %d of %d" % (self.rank, self.nproc))
        need(self.sp == sp and (self.qm == qm or abs(self.qm - qm) <= 2e-7 * abs(qm)), "header", "species %d q/m %g, expected %d %g" % (self.sp, self.qm, sp, qm))


def array(b, o, ndim, key="layout"):
    need(len(b) >= o + 8 + 4 * ndim, key, "no array header")
    sz, nd = struct.unpack_from("<2i", b, o)
    need(nd == ndim, key, "array of %d dimensions, expected %d" % (nd, ndim))
    return sz, list(struct.unpack_from("<%di" % ndim, b, o + 8)), o + 8 + 4 * ndim


def whole(b, o, want_dims, want, key):
    """array of whole records"""
    sz, dims, o = array(b, o, len(want_dims))
    need(dims == list(want_dims), key, "array of %s, expected %s" % (dims, list(want_dims)))
    cnt = int(np.prod(want_dims))
    need(cnt == 0 or sz * cnt == len(want), key, "elements of %d bytes" % sz)
    need(len(b) - o == len(want), key, "%d bytes follow the array header, expected %d" % (len(b) - o, len(want)))
    if b[o:] != want:
        x, y = np.frombuffer(b[o:], np.uint8), np.frombuffer(want, np.uint8)
        k = int(np.flatnonzero(x != y)[0])
        raise Bad(key, "%d of %d bytes differ, first in element %d at byte %d" % (np.count_nonzero(x != y), len(x), k // max(sz, 1), k % max(sz, 1)))
    return cnt


def axis(n, s):
    """Acceptable sample positions along an axis: ghosts at both ends and every s-th cell, phase left open"""
    m = n // s
    return [[0] + [k * s + c for k in range(m)] + [n + 1] for c in range(1, s + 1)]


def pick(v, K, J, I):
    return v[np.ix_(K, J, I)]


def banded(b, g, st, mask, fmt, rec, hyd, esz):
    """(values checked) of a field_dump or hydro_dump"""
    n = g.n
    sz, dims, o = array(b, 103, 3)
    m = [n[a] // st[a] for a in range(3)]
    need(dims == [m[0] + 2, m[1] + 2, m[2] + 2], "banded-dims", "array of %s, expected %s (cells and two ghosts)" % (dims, [x + 2 for x in m]))
    need(sz == esz, "banded-elsize", "element size %d, expected %d" % (sz, esz))
    raw = np.frombuffer(rec, np.uint8).reshape(n[2] + 2, n[1] + 2, n[0] + 2, esz)
    cnt = (m[0] + 2) * (m[1] + 2) * (m[2] + 2)
    if fmt == "interleave":
        parts = [(slice(0, 56 if hyd else esz), esz, 0)]
        need(len(b) - o == cnt * esz, "banded-size", "%d bytes follow, expected %d" % (len(b) - o, cnt * esz))
        blocks = [np.frombuffer(b, np.uint8, cnt * esz, o).reshape(m[2] + 2, m[1] + 2, m[0] + 2, esz)[..., parts[0][0]]]
        wants = [raw[..., parts[0][0]]]
        names = ["all variables"]
    else:
        blocks, wants, names = [], [], []
        for v in range(14 if hyd else 24):
            if not mask >> v & 1:
                continue
            w, at = (4, 4 * v) if hyd or v < 16 else (2, 64 + 2 * (v - 16))
            need(len(b) - o >= cnt * w, "banded-size", "file ends in variable %d" % v)
            blocks.append(np.frombuffer(b, np.uint8, cnt * w, o).reshape(m[2] + 2, m[1] + 2, m[0] + 2, w))
            wants.append(raw[..., at:at + w])
            names.append("variable %d" % v)
            o += cnt * w
        need(o == len(b), "banded-size", "%d bytes beyond the selected variables" % (len(b) - o))
    if not blocks:
        return 0
    # one phase of the samples has to explain every block; axes are independent unless the data is constant along them
    cand = None
    for k, (x, y) in enumerate(zip(blocks, wants)):
        left = set()
        for ck_, K in enumerate(axis(n[2], st[2])):
            for cj, J in enumerate(axis(n[1], st[1])):
                for ci, I in enumerate(axis(n[0], st[0])):
                    if (cand is None or (ck_, cj, ci) in cand) and np.array_equal(x, pick(y, K, J, I)):
                        left.add((ck_, cj, ci))
        if not left:
            K, J, I = [axis(n[a], st[a])[(st[a] > 1) * (st[a] - 2)] for a in (2, 1, 0)]
            d = np.flatnonzero((x != pick(y, K, J, I)).any(axis=-1))
            raise Bad("banded-values", "%s: no sampling of every %s cells explains the values (%d of %d differ from the usual one, first at output position %s)" % (names[k], st, len(d), cnt, np.unravel_index(d[0], x.shape[:3])[::-1] if len(d) else None))
        cand = left
    return cnt * len(blocks)


class G:
    pass


def records(fn):
    b = open(fn, "rb").read()
    o = 0
    while o < len(b):
        e = b.index(b"\n", o)
        line, n = b[o:e].decode("latin1").rsplit("|", 1)
        o = e + 1
        yield line, b[o:o + int(n)]
        o += int(n)


def check_text(ck, kind, path, S, want_lines=None):
    t = open(path).read()
    if kind == "species":
        rows = [l for l in t.split("\n") if l]
        need(len(rows) == len(S.sp) and (not rows or t.endswith("\n")), "species-text", "%d lines for %d species: %r" % (len(rows), len(S.sp), t[:200]))
        for l, (sid, (q, m, name)) in zip(rows, S.sp):
            f = l.rsplit(" ", 3)
            need(len(f) == 4 and f[0] == name and int(f[1]) == sid and abs(float(f[2]) - q) <= 1e-6 * abs(q) and abs(float(f[3]) - m) <= 1e-6 * abs(m), "species-text", "line %r for species %d %s q=%g m=%g" % (l, sid, name, q, m))
        return len(rows) * 4
    rows = t.split("\n")
    need(len(rows) == 5 * len(S.mat) + 1 and rows[-1] == "", "materials-text", "%d lines for %d materials" % (len(rows) - 1, len(S.mat)))
    for k, (mid, v, name) in enumerate(S.mat):
        r = rows[5 * k:5 * k + 5]
        x = [float(z) for l in r[2:] for z in l.split()]
        need(r[0] == name and int(r[1]) == mid and len(x) == 9 and all(abs(p - q) <= 1e-6 * abs(q) for p, q in zip(x, v)), "materials-text", "%r for material %d %s %s" % (r, mid, name, v))
    return len(S.mat) * 11


def check_vpc(path, px, py, pz, masks, S, tag):
    kv, lines = {}, [l for l in open(path).read().split("\n") if l and not l.startswith("#")]
    i = 0

    def take(key):
        nonlocal i
        need(i < len(lines) and lines[i].startswith(key + " "), "vpc", "expected %s, found %r" % (key, lines[i] if i < len(lines) else None))
        i += 1
        return lines[i - 1][len(key) + 1:].split()
    g = S.g
    take("VPIC_HEADER_VERSION")
    need(take("DATA_HEADER_SIZE") == ["123"], "vpc", "data header size")
    for key, v in [("GRID_DELTA_T", [g.dt]), ("GRID_CVAC", [g.cvac]), ("GRID_EPS0", [g.eps0])] + [("GRID_EXTENTS_" + "XYZ"[a], [g.x0[a], g.x1[a]]) for a in range(3)] + [("GRID_DELTA_" + "XYZ"[a], [g.d[a]]) for a in range(3)]:
        w = take(key)
        need(len(w) == len(v) and all(abs(float(p) - q) <= 1e-6 + 1e-6 * abs(q) for p, q in zip(w, v)), "vpc", "%s is %s, expected %s" % (key, w, v))
    for a, q in zip("XYZ", (px, py, pz)):
        need(take("GRID_TOPOLOGY_" + a) == [str(q)], "vpc", "topology " + a)
    cnt = 12

    def varlist(key, mask, names, idx):
        nonlocal i, cnt
        sel = [names[k] for k in range(len(names)) if mask >> idx[k] & 1]
        need(take(key) == [str(len(sel))], "vpc", "%s: expected %d" % (key, len(sel)))
        for q in sel:
            want = '"%s" %s %d %s %d' % q
            need(i < len(lines) and lines[i] == want, "vpc", "variable line %r, expected %r" % (lines[i] if i < len(lines) else None, want))
            i += 1; cnt += 1
    need(take("FIELD_DATA_DIRECTORY") == [tag] and take("FIELD_DATA_BASE_FILENAME") == ["b0"], "vpc", "field file names")
    varlist("FIELD_DATA_VARIABLES", masks[0], FNAMES, FIDX)
    need(take("NUM_OUTPUT_SPECIES") == [str(len(masks) - 1)], "vpc", "number of species")
    for k, m in enumerate(masks[1:]):
        need(take("SPECIES_DATA_DIRECTORY") == [tag] and take("SPECIES_DATA_BASE_FILENAME") == ["b%d" % (k + 1)], "vpc", "species file names")
        varlist("HYDRO_DATA_VARIABLES", m, HNAMES, HIDX)
    need(i == len(lines), "vpc", "lines beyond the last species")
    return cnt


def check_rank(ck, d, tag, rank, label, rep, energies):
    S = None
    stats = ck.extra.setdefault("dumps_decoded", {})
    for line, blob in records("%s/%s.%d.dref" % (d, tag, rank)):
        w = line.split(" ")
        k = w[0]
        if k == "STEP":
            S = G(); S.step = int(w[1]); S.sp, S.mat, S.blob = [], [], {}
        elif k == "GRID":
            g = S.g = G(); g.n = [int(x) for x in w[1:4]]; f = [np.float32(x) for x in w[4:13]]
            g.dt, g.d, g.x0, g.cvac, g.eps0 = f[0], f[1:4], f[4:7], f[7], f[8]
            g.rank, g.nproc = int(w[13]), int(w[14]); g.nv = (g.n[0] + 2) * (g.n[1] + 2) * (g.n[2] + 2)
        elif k == "EXT":
            S.g.x1 = [np.float32(x) for x in w[1:4]]
        elif k == "SPECIES":
            S.sp.append((int(w[1]), (np.float32(w[2]), np.float32(w[3]), line.split(" ", 4)[4])))
        elif k == "MATERIAL":
            S.mat.append((int(w[1]), [float(x) for x in w[2:11]], line.split(" ", 11)[11]))
        elif k == "ENERGY":
            energies[S.step] = [float(x) for x in w[1:]]
        elif k == "CHANGED":
            ck.violation("dump-changes-state", "%s rank %d step %d: %s" % (label, rank, S.step, line[8:]), rep)
        elif k in ("FLIST", "HLIST"):
            names, idx = (FNAMES, FIDX) if k == "FLIST" else (HNAMES, HIDX)
            want = ", ".join(names[q][0] for q in range(len(names)) if int(w[1]) >> idx[q] & 1)
            if line.split(" ", 2)[2] != want:
                ck.violation("variable-list", "%s mask %s: %r, expected %r" % (label, w[1], line.split(" ", 2)[2], want), rep)
        elif k != "D":
            S.blob[line] = blob
        else:
            kind, path = w[1], w[2]
            if kind in ("energies", "species", "materials", "header") and rank:
                continue
            try:
                g = S.g
                sp = dict(S.sp)
                dims3 = [x + 2 for x in g.n]
                need(os.path.exists(path), kind + "-file", "no file %s" % os.path.basename(path))
                if kind == "energies":
                    continue
                cnt = 0
                b = open(path, "rb").read() if kind not in ("species", "materials", "header") else b""
                if kind in ("species", "materials"):
                    cnt = check_text(ck, kind, path, S)
                elif kind == "header":
                    cnt = check_vpc(path, int(w[3]), int(w[4]), int(w[5]), [int(x) for x in w[6:]], S, tag)
                elif kind == "grid":
                    Header(b).against(g, 0, S.step, -1, 0)
                    o = 103
                    for dm, want in (([3, 3, 3], S.blob["BC"]), ([g.nproc + 1], S.blob["RANGE"]), ([6] + dims3, S.blob["NEIGHBOR"])):
                        e = o + 8 + 4 * len(dm) + len(want)
                        need(len(b) >= e, "grid-size", "file too short")
                        cnt += whole(b[:e], o, dm, want, "grid-values")
                        o = e
                    need(o == len(b), "grid-size", "bytes beyond the neighbor table")
                elif kind == "fields":
                    Header(b).against(g, 1, S.step, -1, 0)
                    cnt = whole(b, 103, dims3, S.blob[w[3]], "fields-values")
                elif kind == "hydro":
                    sid = int(w[4])
                    rec = S.blob["HYDRO2" if w[3] == "HYDRO2" else "HYDRO %d" % sid]
                    Header(b).against(g, 2, S.step, sid, float(sp[sid][0]) / float(sp[sid][1]))
                    esz = len(rec) // g.nv
                    sz, dm, o = array(b, 103, 3)
                    need(sz == esz and dm == dims3 and len(b) - o == len(rec), "hydro-size", "array %s of %d byte elements in %d bytes" % (dm, sz, len(b)))
                    x = np.frombuffer(b, np.uint8, len(rec), o).reshape(-1, esz)[:, :56]
                    y = np.frombuffer(rec, np.uint8).reshape(-1, esz)[:, :56]
                    if not np.array_equal(x, y):
                        q = np.argwhere(x != y)[0]
                        raise Bad("hydro-values", "species %d: voxel %d variable %d: %g in the file, %g accumulated" % (sid, q[0], q[1] // 4, x[q[0]].view(np.float32)[q[1] // 4], y[q[0]].view(np.float32)[q[1] // 4]))
                    cnt = g.nv * 14
                elif kind == "particles":
                    sid = int(w[3])
                    rec = S.blob["PART %d" % sid]
                    Header(b).against(g, 3, S.step, sid, float(sp[sid][0]) / float(sp[sid][1]))
                    n = len(rec) // 32
                    sz, dm, o = array(b, 103, 1)
                    need(dm == [n] and sz == 32 and len(b) - o == len(rec), "particles-size", "%s particles of %d bytes in %d bytes, expected %d" % (dm, sz, len(b) - o, n))
                    x, y = np.frombuffer(b, np.uint32, 8 * n, o).reshape(n, 8), np.frombuffer(rec, np.uint32).reshape(n, 8)
                    keep = [0, 1, 2, 3, 7]
                    if not np.array_equal(x[:, keep], y[:, keep]):
                        raise Bad("particles-values", "species %d: position or weight of particle %d" % (sid, np.argwhere(x[:, keep] != y[:, keep])[0][0]))
                    u, v = x[:, 4:7].view(np.float32).astype(float), y[:, 4:7].view(np.float32).astype(float)
                    bad = np.abs(u - v) > 4e-6 * (np.abs(v) + np.max(np.abs(v), axis=1, keepdims=True)) if n else np.zeros(0)
                    if np.any(bad) or np.any(np.isnan(u) != np.isnan(v)):
                        q = np.argwhere(bad)[0] if np.any(bad) else [0]
                        raise Bad("particles-values", "species %d: momentum of particle %d of %d is %s, centred %s" % (sid, q[0], n, u[q[0]], v[q[0]]))
                    cnt = 8 * n
                elif kind == "banded":
                    fmt, step, st, mask = w[3], int(w[4]), [int(x) for x in w[5:8]], int(w[8])
                    sid, src = line.split(" ", 9)[9].split(",", 1)
                    sid = int(sid); hyd = sid >= 0
                    need(not hyd or sid in sp, "banded", "species")
                    Header(b).against(g, 2 if hyd else 1, step, sid, float(sp[sid][0]) / float(sp[sid][1]) if hyd else 0, st)
                    rec = S.blob[src]
                    cnt = banded(b, g, st, mask, fmt, rec, hyd, len(rec) // g.nv)
                    kind = "%s-%s%s" % ("hydro" if hyd else "field", fmt, "" if st == [1, 1, 1] else "-strided")
                    ck.count(0, "%s n=%s st=%s m=%x" % (kind, g.n, st, mask))
                stats[kind] = stats.get(kind, 0) + 1
                ck.add("values_compared", int(cnt))
                ck.count(1, "%s %s np%d" % (kind, g.n, g.nproc))
            except Bad as e:
                ck.violation("%s" % e.args[0], "%s rank %d step %d %s: %s" % (label, rank, S.step, " ".join(w[1:2] + w[3:]), e.args[1]), rep)
            except (struct.error, ValueError, UnicodeDecodeError, KeyError) as e:
                ck.violation(kind + "-undecodable", "%s rank %d step %d %s: %r" % (label, rank, S.step, line[:200], e), rep)
    return S


def check_energies(ck, d, tag, S, energies, label, rep):
    fn = "%s/%s_en" % (d, tag)
    try:
        rows = open(fn).read().split("\n")
        head = "%% step ex ey ez bx by bz%s" % "".join(' "%s"' % v[2] for _, v in S.sp)
        need(rows[0] == "% Layout" and rows[1] == head[0:] and rows[2].startswith("% timestep = "), "energies-text", "headings %r" % rows[:3])
        need(abs(float(rows[2].split("=")[1]) - float(S.g.dt)) <= 1e-6 * float(S.g.dt), "energies-text", "timestep %r" % rows[2])
        body = rows[3:]
        need(body and body[-1] == "" and len(body) - 1 == len(energies), "energies-text", "%d rows for %d dumps" % (len(body) - 1, len(energies)))
        for l, st in zip(body, sorted(energies)):
            f = l.split()
            need(int(f[0]) == st and len(f) == 1 + len(energies[st]), "energies-text", "row %r at step %d" % (l, st))
            for p, q in zip(f[1:], energies[st]):
                need(abs(float(p) - q) <= 1e-6 * abs(q) + 1e-300, "energies-values", "step %d: %s in the file, %.9g computed" % (st, p, q))
        ck.count(len(energies), "energies")
        ck.add("values_compared", sum(len(v) for v in energies.values()))
    except Bad as e:
        ck.violation(e.args[0], "%s: %s" % (label, e.args[1]), rep)
    except (ValueError, IndexError, OSError) as e:
        ck.violation("energies-undecodable", "%s: %r" % (label, e), rep)


def run():
    ck = Check("C12", rule="a case is one dump file decoded by an independent reader and compared value by value with what the writing rank held in memory; distinct ones differ in kind, grid shape, rank count, format, strides or variable mask",
               assumptions=["hydro moments and centred momenta are those of the public accumulate_hydro_p/synchronize_hydro_array and center_p (C02 and C06 decide them)",
                            "which cell of every stride is sampled is left open; ghosts, number and spacing are not"])
    cfgs = ["ref", "v4sse", "v8avx2"]
    if THOROUGH:
        cfgs += ["v16avx512", "v8omp", "v4port", "legacy"]
    w = Worlds(ck, cfgs)
    cfgs = w.cfgs
    n = 250 if THOROUGH else 36
    rnd = random.Random(SEED * 4099)
    plan = []
    for k in range(n):
        e = {"RV_CASE": SEED * 300000 + k, "RV_STEPS": rnd.choice([2, 3, 5]), "RV_TOPO": "auto"}
        ranks = [0, 2, 0, 3, 4, 0, 6, 0][(k + SEED) % 8]
        if k % 3 == 0 and not ranks:
            e["RV_GN"] = "%d,%d,%d" % tuple(rnd.choice([1, 2, 3, 4, 5, 6, 9, 10, 12]) for _ in range(3))
        if k % 9 == 4:  # more particles than a dump handles at once
            e.update(RV_NP=rnd.choice([32768, 32769, 40001, 70003]), RV_STEPS=1, RV_FEATURES="*CERYs")
        plan.append((k, e, cfgs[k % len(cfgs)], ranks, rnd.choice([1, 2, 3, 4])))

    def one(p):
        k, e, cfg, ranks, tpp = p
        with Scratch() as d:
            rep = {"env": e, "cfg": cfg, "ranks": ranks, "tpp": tpp}
            label = "case %s %s ranks=%d tpp=%d" % (e["RV_CASE"], cfg, ranks, tpp)
            if not w.run(cfg, d, "a", ranks, tpp, env=dict(e, RV_DUMP="c")):
                return
            if k % 2 == 0:
                if not w.run(cfg, d, "b", ranks, tpp, env=e):
                    return
                v = diff(digests(d, "b"), digests(d, "a"))
                ck.add("runs_compared_with_and_without_dumps", 1)
                if v:
                    ck.violation("dump-perturbs", "%s: a run that dumps evolves differently: %s" % (label, v[1]), rep)
            for r in range(max(ranks, 1)):
                en = {}
                S = check_rank(ck, d, "a", r, label, rep, en)
                if r == 0:
                    check_energies(ck, d, "a", S, en, label, rep)
            if k % 7 == 0:
                ck.sample("%s steps=%s" % (label, e["RV_STEPS"]))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, plan))
    return ck.finish()


if __name__ == "__main__":
    main(run)
