"""C18 fusing cells."""
import collections

import numpy as np
import pyvista as pv

from .. import gen, ref
from . import c17

T = pv.CellType
QUICK, THOROUGH = 6400, 40000
REQUIRED = {
    "fuse", "fuse:count", "fuse:polygon", "fuse:ring", "fuse:others", "fuse:celldata", "fuse:pointdata", "fuse:groups", "refuse:apart", "refuse:corner", "refuse:hole",
    "ran:several", "ran:mask", "ran:unsorted", "ran:single", "ran:all", "ran:duplicated", "ran:structured", "ran:image", "ran:touching-sets", "ran:curved", "ran:utm",
}
RULE = (
    "Random surfaces (triangles, quads, pixels, polygons; planar or curved; shared or duplicated points) and families of disjoint connected "
    "simply bounded cell sets given as indices in any order or masks; the fused ring is compared with the loop of edges used once. "
    "Disconnected, corner-connected and ring-shaped sets must be refused. Non-trivial: distinct mesh and family."
)


def edge_map(rings):
    em = collections.defaultdict(list)
    for i, r in enumerate(rings):
        for a, b in zip(r, r[1:] + r[:1]):
            em[frozenset((a, b))].append(i)
    return em


def loops_of(rings, sel):
    """Boundary loops of a set; None when a vertex is passed twice."""
    cnt = collections.Counter(frozenset(e) for i in sel for e in zip(rings[i], rings[i][1:] + rings[i][:1]))
    adj = collections.defaultdict(list)
    for e, k in cnt.items():
        if k == 1:
            a, b = tuple(e)
            adj[a].append(b)
            adj[b].append(a)
    if any(len(v) != 2 for v in adj.values()):
        return None
    seen, out = set(), []
    for s in adj:
        if s in seen:
            continue
        q, prev, cur = [], None, s
        while True:
            q.append(cur)
            seen.add(cur)
            nxt = [x for x in adj[cur] if x != prev][0]
            prev, cur = cur, nxt
            if cur == s:
                break
        out.append(q)
    return out


def connected(rings, sel):
    sel = set(sel)
    em = edge_map([rings[i] if i in sel else [] for i in range(len(rings))])
    nb = collections.defaultdict(set)
    for v in em.values():
        for a in v:
            for b in v:
                nb[a].add(b)
    st = [next(iter(sel))]
    seen = set(st)
    while st:
        for b in nb[st.pop()]:
            if b in sel and b not in seen:
                seen.add(b)
                st.append(b)
    return seen == sel


def grow(rng, rings, free):
    nb = collections.defaultdict(set)
    for v in edge_map(rings).values():
        if len(v) == 2:
            nb[v[0]].add(v[1])
            nb[v[1]].add(v[0])
    s = [int(rng.choice(sorted(free)))]
    for _ in range(int(rng.integers(0, 6))):
        c = sorted({b for a in s for b in nb[a] if b in free and b not in s})
        if not c:
            break
        s.append(int(rng.choice(c)))
    return s


def run_case(pvg, mon, rng, index, tier):
    notes = set()
    off = gen.offsets(rng)
    if ref.scale(off) > 1e4:
        notes.add("ran:utm")
    r = rng.random()
    axis = int(rng.integers(3))
    dup = False
    if r < 0.12:
        kind = gen.choice(rng, ["image", "rect"])
        m = gen.grid_surface(rng, kind, axis, np.zeros(3))
        notes.discard("ran:utm")
        notes.add("ran:image")
    elif r < 0.25:
        kind = "struct"
        m = gen.structured_surface(rng, axis, off=off)
        notes.add("ran:structured")
    elif r < 0.6:
        kind = "unstr"
        m = gen.unstructured_surface(rng, axis, off=off)
    else:
        kind = "grid"
        mask = np.ones((gen.count(rng, 3, 6), gen.count(rng, 3, 6)), dtype=bool)
        uv, cells, *_ = c17.build(rng, mask)
        P = gen.embed(uv, 0.0, axis)
        if rng.random() < 0.4:
            P[:, axis] = 0.3 * np.sin(uv[:, 0]) * np.cos(uv[:, 1])
            notes.add("ran:curved")
        P = P + off
        dup = bool(rng.random() < 0.3)
        m = c17.to_grid(rng, P, cells, gen.choice(rng, ["polydata", "unstr", "polygons"]), dup)
        if dup:
            notes.add("ran:duplicated")
    cells = ref.cells_of(m)
    n = len(cells)
    P = ref.points_of(m)
    img = isinstance(m, (pv.ImageData, pv.RectilinearGrid))
    # coincident points are one vertex
    first = {}
    vid = [first.setdefault(tuple(p), i) for i, p in enumerate(P)]
    rings = [[vid[int(x)] for x in c.ring()] for c in cells]
    nd = {}
    nd["s"] = rng.permutation(n) * 0.5
    if rng.random() < 0.5:
        nd["v"] = rng.normal(size=(n, 3))
    if rng.random() < 0.3:
        nd["t"] = np.array([f"c{k}" for k in rng.permutation(n)])
    for k, v in nd.items():
        m.cell_data[k] = v
    grp = rng.random() < 0.6
    if grp:
        m.cell_data["CellGroup"] = rng.integers(0, 3, n)
        m.user_dict["CellGroup"] = {"A": 0, "B": 1, "C": 2}
    zone = rng.random() < 0.4
    if zone:
        m.cell_data["zone"] = rng.integers(0, 2, n)
        m.user_dict["zone"] = {"in": 0, "out": 1}
    if rng.random() < 0.5 and not dup:
        m.point_data["p"] = np.arange(m.n_points) * 2.0
    fam, free = [], set(range(n))
    bad = None
    if rng.random() < 0.25:
        # a set that cannot be fused
        for _ in range(60):
            k = int(rng.integers(2, min(n, 9) + 1)) if n >= 2 else 0
            if k < 2:
                break
            if rng.random() < 0.5:
                s = [int(x) for x in rng.permutation(n)[:k]]
            else:
                # ring around a cell
                c = int(rng.integers(n))
                vs = set(rings[c])
                s = [i for i in range(n) if i != c and vs & set(rings[i])]
                if len(s) < 3:
                    continue
            lp = loops_of(rings, s)
            if not connected(rings, s):
                bad, why = s, ("refuse:corner" if lp is None else "refuse:apart")
                break
            if lp is not None and len(lp) > 1:
                bad, why = s, "refuse:hole"
                break
        if bad is not None:
            good = []
            if rng.random() < 0.3:
                fr = free - set(bad)
                if fr:
                    g = grow(rng, rings, fr)
                    lp = loops_of(rings, g)
                    if lp is not None and len(lp) == 1:
                        good = [g]
            arg = good + [bad] if rng.random() < 0.5 else [bad] + good
            if len(arg) == 1 and rng.random() < 0.5:
                arg = bad
            mon.scenario(kind=kind, n=n, bad=bad, why=why, dup=dup, p=P[:2])
            mon.refuses(why, pvg.fuse_cells, m, arg)
            return
    for _ in range(int(rng.integers(1, 4))):
        if not free:
            break
        s = grow(rng, rings, free) if rng.random() > 0.06 or fam else list(range(n))
        lp = loops_of(rings, s)
        while s and (lp is None or len(lp) != 1):
            s.pop()
            lp = loops_of(rings, s) if s else None
        if not s:
            continue
        if rng.random() < 0.5:
            s = [int(x) for x in rng.permutation(s)]
        fam.append((s, lp[0]))
        free -= set(s)
    if not fam:
        mon.trivial = True
        return
    as_mask = rng.random() < 0.3
    arg = []
    for j, (s, lp) in enumerate(fam):
        if as_mask:
            k = np.zeros(n, dtype=bool)
            k[s] = True
            arg.append(k if rng.random() < 0.5 or len(fam) > 1 else k.tolist())
            s = sorted(s)
            fam[j] = (s, lp)
        else:
            arg.append(np.array(s) if rng.random() < 0.5 else s)
    if len(arg) == 1 and rng.random() < 0.6:
        arg = arg[0]
    mon.scenario(kind=kind, n=n, fam=[s for s, _ in fam], mask=as_mask, dup=dup, p=P[:2], types=[c.type for c in cells])
    out = mon.call("fuse", pvg.fuse_cells, m, arg)
    oc = ref.cells_of(out)
    O = ref.points_of(out)
    heads = {s[0]: (s, lp) for s, lp in fam}
    gone = {i for s, _ in fam for i in s[1:]}
    keep = [i for i in range(n) if i not in gone]
    mon.check(len(oc) == len(keep), "fuse:count", lambda: f"{len(oc)} cells instead of {len(keep)}")
    tol = (4e-7 if img or m.points.dtype == np.float32 else 1e-11) * (1 + ref.scale(P))
    loc = c17.Loc(P, tol)
    for c, i in zip(oc, keep):
        q = [loc(O[x]) for x in c.ring()]
        mon.check(None not in q, "fuse:others", lambda: f"cell {i} has a point that is not in the mesh")
        q = [vid[x] for x in q]
        if i in heads:
            s, lp = heads[i]
            mon.check(c.type == int(T.POLYGON), "fuse:polygon", lambda: f"fused cell of type {c.type}")
            mon.check(len(q) == len(lp) and c17.ring_edges(q) == c17.ring_edges(lp), "fuse:ring", lambda: f"set {s} fused into {q} instead of {lp}")
        else:
            want = int(T.PIXEL) if img else cells[i].type
            w = rings[i]
            mon.check(c.type == want and len(q) == len(w), "fuse:others", lambda: f"cell {i} changed type {want} -> {c.type} or corners")
            mon.check(q == w, "fuse:others", lambda: f"cell {i}: {q} instead of {w}")
    for k in m.cell_data:
        u, w = np.asarray(out.cell_data[k]) if k in out.cell_data else None, np.asarray(m.cell_data[k])[keep]
        mon.check(u is not None and u.shape == w.shape and (u == w).all(), "fuse:celldata", lambda: f"cell data {k!r}: {None if u is None else u.tolist()} instead of {w.tolist()}"[:400])
    if "p" in m.point_data:
        u = np.asarray(out.point_data["p"])
        w = np.array([2.0 * loc(x) if loc(x) is not None else -1 for x in O])
        used = np.unique(np.concatenate([c.ids for c in oc]))
        mon.same(u[used], w[used], "fuse:pointdata", "point data")
    if grp:
        d = dict(out.user_dict["CellGroup"]) if "CellGroup" in out.user_dict else None
        mon.check(d == {"A": 0, "B": 1, "C": 2}, "fuse:groups", lambda: f"group names {d}")
    if zone:
        z = dict(out.user_dict["zone"]) if "zone" in out.user_dict else None
        mon.check(z == {"in": 0, "out": 1}, "fuse:groups", lambda: f"names of other categories {z}")
    if len(fam) > 1:
        notes.add("ran:several")
        em = edge_map(rings)
        which = {i: k for k, (s, _) in enumerate(fam) for i in s}
        if any(len({which.get(i, -1 - i) for i in v}) == 2 and all(i in which for i in v) for v in em.values()):
            notes.add("ran:touching-sets")
    if as_mask:
        notes.add("ran:mask")
    if any(s != sorted(s) for s, _ in fam):
        notes.add("ran:unsorted")
    if any(len(s) == 1 for s, _ in fam):
        notes.add("ran:single")
    if any(len(s) == n for s, _ in fam):
        notes.add("ran:all")
    for x in notes:
        mon.check(True, x)
