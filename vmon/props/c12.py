"""C12 splitting and merging lines conserves lines and data."""
import numpy as np
import pyvista as pv

from .. import gen, ref

QUICK, THOROUGH = 3000, 40000
REQUIRED = {
    "split", "split:count", "split:points", "split:cells", "split:pointdata", "split:celldata", "merge", "merge:count", "merge:segments", "merge:celldata",
    "merge:points", "merge:pointdata", "merge:keys", "ran:closed", "ran:polys", "ran:verts", "ran:strings", "ran:shared", "ran:aslines", "ran:aspoly", "ran:multi", "ran:long", "ran:revisits", "roundtrip",
}
RULE = (
    "Random line meshes (several polylines and segments, closed, crossing, sharing points, unused points, next to vertices and "
    "faces) with integer, float, vector and string data, split and merged either way; compared piece by piece. "
    "Non-trivial: distinct line mesh with at least one line."
)


def lines_mesh(rng, off, want):
    """-> PolyData, list of (ids, cell index)"""
    n = gen.count(rng, 4, 14, 600, 1500)
    long = rng.random() < 0.06
    if long:
        n = max(n, int(rng.integers(80, 200)))
    P = rng.uniform(-5, 5, (n, 3)) + off
    if rng.random() < 0.2:
        P = P.astype(np.float32)
    seqs = []
    for _ in range(gen.count(rng, 1, 5, 150)):
        m = int(rng.integers(2, min(n, 6) + 1))
        if long and rng.random() < 0.5:
            m = int(rng.integers(50, n + 1))
            want.add("ran:long")
        ids = rng.permutation(n)[:m].tolist()
        if m > 3 and rng.random() < 0.2:
            # passes through a point again
            i, j = sorted(int(x) for x in rng.choice(m, 2, replace=False))
            if j > i + 1:
                ids[j] = ids[i]
                want.add("ran:revisits")
        if m > 2 and rng.random() < 0.25:
            ids.append(ids[0])
            want.add("ran:closed")
        seqs.append([int(i) for i in ids])
    kw = {"lines": [x for s in seqs for x in (len(s), *s)]}
    nv = nf = 0
    if rng.random() < 0.25:
        nv = int(rng.integers(1, 3))
        kw["verts"] = [x for k in range(nv) for x in (1, int(rng.integers(n)))]
        want.add("ran:verts")
    if rng.random() < 0.25:
        nf = int(rng.integers(1, 3))
        kw["faces"] = [x for k in range(nf) for x in (3, *[int(i) for i in rng.permutation(n)[:3]])]
        want.add("ran:polys")
    m = pv.PolyData(P, **kw)
    if len(seqs) > 1:
        want.add("ran:multi")
    return m, seqs, nv


def put(rng, m, keys_c, keys_p, want):
    n, q = m.n_cells, m.n_points

    def mk(k, size):
        if k.startswith("i"):
            return rng.integers(-99, 99, size)
        if k.startswith("f"):
            return rng.normal(size=size)
        if k.startswith("v"):
            return rng.normal(size=(size, 3))
        if k.startswith("w"):
            return rng.normal(size=(size, 2))
        want.add("ran:strings")
        return np.array([f"s{int(x)}" * int(1 + x % 3) for x in rng.integers(0, 99, size)])

    for k in keys_c:
        m.cell_data[k] = mk(k, n)
    for k in keys_p:
        m.point_data[k] = mk(k, q)


def segs_of(m):
    out, L = [], np.asarray(m.lines).tolist()
    i = 0
    while i < len(L):
        out.append(L[i + 1 : i + 1 + L[i]])
        i += 1 + L[i]
    return out


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a == b).all()


def run_case(pvg, mon, rng, index, tier):
    want = set()
    off = gen.offsets(rng)
    k = 1 if rng.random() < 0.5 else int(rng.integers(2, 5))
    ms, info = [], []
    pool = [str(x) for x in rng.permutation(["i1", "f1", "v1", "s1", "w1"])]
    for j in range(k):
        m, seqs, nv = lines_mesh(rng, off, want)
        kc = [x for x in pool if rng.random() < (0.7 if k > 1 else 0.5)]
        kp = [x for x in pool if x[0] != "s" and rng.random() < 0.6]
        put(rng, m, kc, kp, want)
        if j and rng.random() < 0.6:  # share points with the first mesh
            a = info[0][1][0]
            m.points[seqs[0][0]] = ms[0].points[a[0]]
            if len(a) > 2 and rng.random() < 0.5:
                m.points[seqs[0][-1]] = ms[0].points[a[1]]
            want.add("ran:shared")
        ms.append(m)
        info.append((m, seqs, nv, kc, kp))
    aslines = gen.choice(rng, [None, True, False])
    kw = {} if aslines is None else {"as_lines": aslines}
    al = aslines is not False
    mon.scenario(k=k, aslines=aslines, pts=[ref.points_of(m)[:2] for m in ms], seqs=[i[1] for i in info], keys=[(i[3], i[4]) for i in info])
    pieces_all = []
    for m, seqs, nv, kc, kp in info:
        pieces = mon.call("split", pvg.split_lines, m, **kw)
        pieces_all.append(pieces)
        mon.check(len(pieces) == len(seqs), "split:count", lambda: f"{len(pieces)} pieces for {len(seqs)} lines")
        for i, (p, s) in enumerate(zip(pieces, seqs)):
            mon.check(eq(ref.points_of(p), ref.points_of(m)[s]), "split:points", lambda: f"piece {i} does not have the points of line {i}")
            exp = [[a, a + 1] for a in range(len(s) - 1)] if al else [list(range(len(s)))]
            mon.check(segs_of(p) == exp and p.n_cells == len(exp), "split:cells", lambda: f"piece {i}: cells {segs_of(p)}")
            mon.check(set(p.point_data.keys()) == set(kp) and all(eq(p.point_data[x], np.asarray(m.point_data[x])[s]) for x in kp), "split:pointdata", lambda: f"piece {i}: point data differ")
            ok = set(p.cell_data.keys()) == set(kc) and all(eq(p.cell_data[x], np.asarray([np.asarray(m.cell_data[x])[nv + i]] * len(exp))) for x in kc)
            mon.check(ok, "split:celldata", lambda: f"piece {i}: cell data {[(x, np.asarray(p.cell_data[x]).tolist()) for x in p.cell_data.keys()]}")
    merged = mon.call("merge", pvg.merge_lines, ms if rng.random() < 0.7 else tuple(ms), **kw)
    cc = set.intersection(*[set(i[3]) for i in info])
    cp = set.intersection(*[set(i[4]) for i in info])
    mon.check(set(merged.cell_data.keys()) == cc and set(merged.point_data.keys()) == cp, "merge:keys", lambda: f"data arrays {merged.cell_data.keys()} {merged.point_data.keys()} instead of {cc} {cp}")
    exp = []
    for m, seqs, nv, kc, kp in info:
        P = ref.points_of(m)
        for i, s in enumerate(seqs):
            for c in [s[a : a + 2] for a in range(len(s) - 1)] if al else [s]:
                exp.append((P[c], {x: np.asarray(m.cell_data[x])[nv + i] for x in cc}))
    got = segs_of(merged)
    mon.check(len(got) == len(exp) and merged.n_cells == len(exp), "merge:count", lambda: f"{len(got)} lines, {merged.n_cells} cells, expected {len(exp)}")
    Q = ref.points_of(merged)
    for i, (g, (p, d)) in enumerate(zip(got, exp)):
        mon.check(eq(Q[g], p), "merge:segments", lambda: f"line {i} has points {Q[g].tolist()} instead of {p.tolist()}")
        for x in cc:
            mon.check(eq(np.asarray(merged.cell_data[x])[i], d[x]), "merge:celldata", lambda: f"line {i}: {x} is {merged.cell_data[x][i]} instead of {d[x]}")
    distinct = {}
    for m, seqs, nv, kc, kp in info:
        P = ref.points_of(m)
        for s in seqs:
            for j in s:
                distinct.setdefault(tuple(P[j]), []).append((m, j))
    mon.check(len(Q) == len(distinct) and {tuple(q) for q in Q} == set(distinct), "merge:points", lambda: f"{len(Q)} points, expected {len(distinct)} distinct ones")
    for j, q in enumerate(Q):
        for x in cp:
            v = np.asarray(merged.point_data[x])[j]
            mon.check(any(eq(v, np.asarray(m.point_data[x])[i]) for m, i in distinct[tuple(q)]), "merge:pointdata", lambda: f"point {j}: {x} is {v}")
    # merging the pieces of a split gives the lines back
    back = mon.call("merge", pvg.merge_lines, pieces_all[0], as_lines=True)
    P = ref.points_of(ms[0])
    e0 = [P[s[a : a + 2]] for s in info[0][1] for a in range(len(s) - 1)]
    B = ref.points_of(back)
    g0 = segs_of(back)
    mon.check(len(g0) == len(e0) and all(eq(B[g], e) for g, e in zip(g0, e0)), "roundtrip", "splitting then merging changes the lines")
    want.add("ran:aslines" if al else "ran:aspoly")
    for w in want:
        mon.check(True, w)
