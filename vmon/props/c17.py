"""C17 boundary polygons."""
import collections

import numpy as np
import pyvista as pv

from .. import gen, ref

T = pv.CellType
QUICK, THOROUGH = 6400, 40000
REQUIRED = {
    "extract", "loops:closed", "loops:edges", "loops:count", "closed:none", "filled:face", "filled", "holes", "holes:groups", "holes:shell-first", "filled-holes", "filled-holes:area",
    "ran:hole", "ran:nested", "ran:components", "ran:tilted", "ran:curved", "ran:duplicated-points", "ran:polydata", "ran:structured", "ran:concave",
}
RULE = (
    "Surfaces made of random sets of grid cells (several components, holes, islands in holes) with triangles, quads and polygons, "
    "deformed, in axis-aligned or tilted planes or on curved surfaces, with shared or duplicated points; loops compared with the edges used once. "
    "Non-trivial: distinct surface."
)


def regions(mask):
    """4-connected components of a boolean image -> label image (0 = none)."""
    lab = np.zeros(mask.shape, dtype=int)
    k = 0
    for s in zip(*np.nonzero(mask)):
        if lab[s]:
            continue
        k += 1
        st = [s]
        lab[s] = k
        while st:
            i, j = st.pop()
            for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if 0 <= a < mask.shape[0] and 0 <= b < mask.shape[1] and mask[a, b] and not lab[a, b]:
                    lab[a, b] = k
                    st.append((a, b))
    return lab, k


def pinched(mask):
    p = np.pad(mask, 1)
    a, b, c, d = p[:-1, :-1], p[1:, :-1], p[:-1, 1:], p[1:, 1:]
    return bool(((a & d & ~b & ~c) | (b & c & ~a & ~d)).any())


def make_mask(rng):
    for _ in range(200):
        nu, nv = gen.count(rng, 2, 9), gen.count(rng, 2, 9)
        r = rng.random()
        if gen.BIG == "long":  # a boundary of more than 1000 edges
            m = np.ones((int(rng.integers(500, 700)), int(rng.integers(1, 4))), dtype=bool)
            if m.shape[1] == 3:
                m[int(rng.integers(1, len(m) - 1)), 1] = False
        elif r < 0.25:
            m = np.ones((nu, nv), dtype=bool)
            for _ in range(int(rng.integers(0, 5))):
                m[int(rng.integers(nu)), int(rng.integers(nv))] = False
        elif r < 0.5:
            # rings within rings
            n = int(rng.integers(5, 12))
            m = np.zeros((n, n), dtype=bool)
            k, v = 0, True
            while 2 * k < n:
                m[k : n - k, k : n - k] = v
                k += int(rng.integers(1, 3))
                v = not v
            if rng.random() < 0.4:
                m = np.concatenate((m, np.zeros((1, n), dtype=bool), np.ones((2, n), dtype=bool)))
        elif r < 0.65:
            # a block with an open ring around it, and possibly another one around both
            n = int(rng.integers(2, 7))
            m = np.ones((n, n), dtype=bool)
            for _ in range(int(rng.integers(1, 3))):
                m = np.pad(np.pad(m, 1), 1, constant_values=True)
                k = len(m)
                a, b = sorted(int(x) for x in rng.integers(0, k + 1, 2))
                m[0, a : max(b, a + 1)] = False
                if rng.random() < 0.3:
                    m[-1, :] = False
                m = np.rot90(m, int(rng.integers(4)))
        else:
            m = rng.random((nu, nv)) < rng.uniform(0.4, 0.9)
        if m.any() and not pinched(m):
            return m
    return np.ones((3, 3), dtype=bool)


def build(rng, mask):
    """-> 2D points, cells (rings of ids), region label of every cell"""
    nu, nv = mask.shape
    U, V = np.meshgrid(gen.ticks(rng, nu, 0.6, 1.4), gen.ticks(rng, nv, 0.6, 1.4), indexing="ij")
    if rng.random() < 0.7:
        U = U + rng.uniform(-0.15, 0.15, U.shape)
        V = V + rng.uniform(-0.15, 0.15, V.shape)
    pts = np.column_stack((U.ravel(), V.ravel()))
    lab, k = regions(mask)
    cells, own = [], []
    tri = rng.choice([0.0, 0.4, 1.0])
    mid = {}
    pts = [tuple(p) for p in pts]

    def pid(i, j):
        return i * (nv + 1) + j

    for i, j in zip(*np.nonzero(mask)):
        r = [pid(i, j), pid(i + 1, j), pid(i + 1, j + 1), pid(i, j + 1)]
        if rng.random() < tri:
            cells += [[r[0], r[1], r[2]], [r[0], r[2], r[3]]] if rng.random() < 0.5 else [[r[1], r[2], r[3]], [r[1], r[3], r[0]]]
            own += [lab[i, j]] * 2
        else:
            cells.append(r)
            own.append(lab[i, j])
    return np.array(pts), cells, own, lab, k


def to_grid(rng, P, cells, form, dup):
    if dup:
        Q, c2 = [], []
        for c in cells:
            c2.append(list(range(len(Q), len(Q) + len(c))))
            Q += [P[x] for x in c]
        P, cells = np.array(Q), c2
    if form == "polydata":
        return pv.PolyData(P, faces=[int(x) for c in cells for x in (len(c), *c)])
    ty = [int(T.POLYGON) if form == "polygons" or len(c) > 4 else int(T.TRIANGLE if len(c) == 3 else T.QUAD) for c in cells]
    return pv.UnstructuredGrid(np.array([int(x) for c in cells for x in (len(c), *c)]), np.array(ty, dtype=np.uint8), P)


class Loc:
    def __init__(self, P, tol):
        self.P, self.tol = P, tol

    def __call__(self, x):
        d = np.linalg.norm(self.P - x, axis=1)
        i = int(d.argmin())
        return i if d[i] <= self.tol else None


def loop_ids(mon, poly, loc):
    """Ids of a closed loop, from its line cells."""
    X = ref.points_of(poly)
    lines = [c for c in ref.cells_of(poly) if ref.DIM[c.type] == 1]
    mon.check(len(lines) == 1, "loops:closed", lambda: f"loop made of {len(lines)} polylines")
    ids = lines[0].ids
    q = [loc(X[i]) for i in ids]
    mon.check(None not in q, "loops:edges", lambda: f"loop point {X[ids[q.index(None)]]} is not a point of the mesh")
    mon.check(len(q) > 3 and q[0] == q[-1], "loops:closed", lambda: f"loop {q} is not closed")
    return q[:-1]


def canon(edges_iter):
    return frozenset(frozenset(e) for e in edges_iter)


def ring_edges(q):
    return canon(zip(q, q[1:] + q[:1]))


def concave(pvg, mon, rng):
    """Meshes of arbitrary polygons (neighbours may share points but no edge), any coordinates."""
    from . import c18

    axis = int(rng.integers(3))
    m = gen.unstructured_surface(rng, axis, off=gen.offsets(rng))
    cells = ref.cells_of(m)
    P = ref.points_of(m)
    first = {}
    vid = [first.setdefault(tuple(p), i) for i, p in enumerate(P)]
    rings = [[vid[int(x)] for x in c.ring()] for c in cells]
    for _ in range(20):
        sel = [i for i in range(len(cells)) if rng.random() < rng.choice([0.5, 1.0])]
        loops = c18.loops_of(rings, sel) if sel else None
        if loops:
            break
    else:
        mon.trivial = True
        return
    m = m.extract_cells(sel)
    mon.scenario(kind="polygons", axis=axis, rings=[rings[i] for i in sel], p=P[:2])
    res = mon.call("extract", pvg.extract_boundary_polygons, m)
    loc = Loc(P, 1e-11 * (1 + ref.scale(P)))
    got = collections.Counter(ring_edges([vid[x] for x in loop_ids(mon, p, loc)]) for p in res or ())
    want = collections.Counter(ring_edges(q) for q in loops)
    mon.check(got == want, "loops:edges", lambda: f"loops {[sorted(map(sorted, x)) for x in (got - want)]} instead of {[sorted(map(sorted, x)) for x in (want - got)]}"[:500])
    mon.check(True, "ran:concave")


def run_case(pvg, mon, rng, index, tier):
    notes = set()
    if rng.random() < 0.06:
        k = int(rng.integers(4))
        m = [pv.Sphere(theta_resolution=8, phi_resolution=6), pv.Cube(), pv.Icosahedron(), pv.Cube().cast_to_unstructured_grid()][k]
        m = m.scale(rng.uniform(0.5, 20, 3))
        mon.scenario(kind="closed", k=k, p=m.points[0])
        for kw in ({}, {"fill": True}, {"with_holes": True}):
            mon.check(mon.call("extract", pvg.extract_boundary_polygons, m, **kw) is None, "closed:none", "a closed surface has a boundary")
        return
    if rng.random() < 0.2:
        return concave(pvg, mon, rng)
    mask = make_mask(rng)
    uv, cells, own, lab, nreg = build(rng, mask)
    off = gen.offsets(rng)
    mode = gen.choice(rng, ["axis", "axis", "tilted", "curved"])
    sc = 10.0 ** rng.uniform(-1, 2)
    uv = uv * sc
    axis = int(rng.integers(3))
    if mode == "axis":
        P = gen.embed(uv, 0.0, axis) + off
    else:
        from scipy.spatial.transform import Rotation

        P = gen.embed(uv, 0.0, 2)
        if mode == "curved":
            L = np.ptp(uv, axis=0).max()
            P[:, 2] = 0.1 * L * np.sin(3 * P[:, 0] / L) * np.cos(2 * P[:, 1] / L)
            notes.add("ran:curved")
        else:
            notes.add("ran:tilted")
        P = Rotation.random(random_state=int(rng.integers(1 << 30))).apply(P) + off
    if rng.random() < 0.15:
        P = -P  # reversed orientation
    full = mask.all() and rng.random() < 0.5
    if full:
        nu, nv = mask.shape
        G = P.reshape(nu + 1, nv + 1, 3)
        m = pv.StructuredGrid(*[G[..., k][..., None] for k in range(3)])
        cells = [[i * (nv + 1) + j, (i + 1) * (nv + 1) + j, (i + 1) * (nv + 1) + j + 1, i * (nv + 1) + j + 1] for i in range(nu) for j in range(nv)]
        notes.add("ran:structured")
    else:
        if rng.random() < 0.3:
            cells = [list(np.roll(c[::-1] if rng.random() < 0.5 else c, int(rng.integers(4)))) for c in cells]
            # orientation may differ from cell to cell
        dup = bool(rng.random() < 0.2)
        form = gen.choice(rng, ["polydata", "unstr", "unstr", "polygons"])
        o = rng.permutation(len(cells))
        m = to_grid(rng, P, [cells[i] for i in o], form, dup)
        if dup:
            notes.add("ran:duplicated-points")
        if form == "polydata":
            notes.add("ran:polydata")
    if rng.random() < 0.3:
        m.cell_data["x"] = np.arange(m.n_cells)
        m.point_data["y"] = np.arange(m.n_points)
    cnt = collections.Counter(frozenset((int(a), int(b))) for c in cells for a, b in zip(c, list(c[1:]) + [c[0]]))
    bound = {e for e, k in cnt.items() if k == 1}
    # expected loops by walking (every boundary vertex has degree two)
    adj = collections.defaultdict(list)
    for e in bound:
        a, b = tuple(e)
        adj[a].append(b)
        adj[b].append(a)
    seen, loops = set(), []
    for s in adj:
        if s in seen:
            continue
        q, prev, cur = [], None, s
        while True:
            q.append(cur)
            seen.add(cur)
            nxt = [x for x in adj[cur] if x != prev]
            nxt = nxt[0]
            prev, cur = cur, nxt
            if cur == s:
                break
        loops.append(q)
    # which region each loop belongs to, and whether it is its outer loop
    lowner = {}
    c_own = own if not full else [1] * len(cells)
    for c, r in zip(cells, c_own):
        for a, b in zip(c, list(c[1:]) + [c[0]]):
            e = frozenset((int(a), int(b)))
            if e in bound:
                lowner[e] = r
    info = []
    for q in loops:
        r = lowner[frozenset((q[0], q[1]))]
        info.append((r, abs(ref.signed_area2(uv[q]))))
    group = collections.defaultdict(list)
    for k, (r, a) in enumerate(info):
        group[r].append((a, k))
    for r in group:
        group[r].sort(reverse=True)
    tol = 2e-6 * (1 + ref.scale(P)) if m.points.dtype == np.float32 else 1e-9 * (1 + ref.scale(P))
    loc = Loc(P, tol)
    mon.scenario(mask=mask.astype(int), mode=mode, axis=axis, cls=type(m).__name__, p=P[:2])
    res = mon.call("extract", pvg.extract_boundary_polygons, m)
    mon.check(res is not None and len(res) == len(loops), "loops:count", lambda: f"{0 if res is None else len(res)} loops instead of {len(loops)}")
    got = collections.Counter()
    for p in res:
        q = loop_ids(mon, p, loc)
        got[ring_edges(q)] += 1
        mon.check(len(set(q)) == len(q), "loops:closed", lambda: f"loop {q} visits a point twice")
    want = collections.Counter(ring_edges(q) for q in loops)
    mon.check(got == want, "loops:edges", lambda: f"loops {[sorted(map(sorted, x)) for x in (got - want)]} instead of {[sorted(map(sorted, x)) for x in (want - got)]}"[:500])
    # filled
    if rng.random() < 0.4:
        res = mon.call("filled", pvg.extract_boundary_polygons, m, fill=True)
        mon.check(res is not None and len(res) == len(loops), "filled:face", lambda: "number of polygons")
        got = collections.Counter()
        for p in res:
            X = ref.points_of(p)
            f = [c for c in ref.cells_of(p) if ref.DIM[c.type] == 2]
            mon.check(len(f) == 1, "filled:face", lambda: f"{len(f)} faces in a filled polygon")
            q = [loc(X[i]) for i in f[0].ring()]
            mon.check(None not in q, "filled:face", "polygon point is not a point of the mesh")
            got[ring_edges(q)] += 1
        mon.check(got == want, "filled:face", lambda: "filled polygons are not the boundary loops")
    # holes
    if mode != "curved":
        res = mon.call("holes", pvg.extract_boundary_polygons, m, with_holes=True)
        wg = collections.Counter((ring_edges(loops[g[0][1]]), frozenset(ring_edges(loops[k]) for _, k in g[1:])) for g in group.values())
        gg = collections.Counter()
        for g in res:
            e = [ring_edges(loop_ids(mon, p, loc)) for p in g]
            shells = [x for x, _ in wg]
            mon.check(e[0] in shells, "holes:shell-first", lambda: "first loop of a group is not an outer loop")
            gg[(e[0], frozenset(e[1:]))] += 1
            mon.check(len(set(e)) == len(e), "holes:groups", "loop listed twice in a group")
        mon.check(gg == wg, "holes:groups", lambda: f"{len(gg)} groups of sizes {sorted(len(x[1]) + 1 for x in gg)} instead of {sorted(len(x[1]) + 1 for x in wg)}")
        if rng.random() < 0.25:
            res = mon.call("filled-holes", pvg.extract_boundary_polygons, m, fill=True, with_holes=True)
            mon.check(len(res) == len(group), "filled-holes:area", lambda: f"{len(res)} filled regions instead of {len(group)}")
            wa = sorted(g[0][0] - sum(a for a, _ in g[1:]) for g in group.values())
            ga = sorted(sum(np.linalg.norm(ref.area_vec(ref.points_of(x)[c.ring()])) for c in ref.cells_of(x) if ref.DIM[c.type] == 2) for x in res)
            mon.close(ga, wa, "filled-holes:area", 1e-5 * sum(wa), "areas of filled regions")
            normal = ref.area_vec(P[loops[int(np.argmax([a for _, a in info]))]])
            normal = normal / np.linalg.norm(normal)
            for x in res:
                X = ref.points_of(x)
                mon.check(np.abs((X - P[0]) @ normal).max() <= 1e-5 * (1 + ref.scale(P)), "filled-holes:area", "filled region leaves the plane of the mesh")
    if any(len(g) > 1 for g in group.values()):
        notes.add("ran:hole")
    if len(group) > 1:
        notes.add("ran:components")
        if any(len(g) > 1 for g in group.values()) and mask[0, 0]:
            notes.add("ran:nested")
    for x in notes:
        mon.check(True, x)
