"""C21 polyline-mesh intersection."""
import collections

import numpy as np
import pyvista as pv

from .. import core, gen, meshes, ref
from . import c14, c20

T = pv.CellType
QUICK, THOROUGH = 3000, 40000
REQUIRED = {
    "cut", "cut:points", "cut:cells", "cut:segments", "cut:data", "cut:ends", "cut:length", "ran:2d", "ran:3d", "ran:polyhedron", "ran:through", "ran:startin", "ran:endin", "ran:inside", "ran:multi-in",
    "ran:multi-through", "ran:multi-out", "ran:outside", "ran:straight", "ran:before-dropped", "ran:after-dropped", "ran:utm", "ran:polyline", "ran:segments", "ran:min-length", "ran:long", "ran:just-past",
}
RULE = (
    "2-D meshes in any axis plane (structured, image, triangles, quads, polygons) and 3-D meshes (structured, image, tetrahedra, wedges, pyramids, polyhedra), "
    "near the origin and at large offsets; lines that pass through, start in, end in, stay in or miss the mesh, of 1 to 6 segments with vertices in and out. "
    "The pieces are computed by intersecting every edge/face independently. Non-trivial: distinct mesh and line."
)
ASSUMPTIONS = [
    "the line enters the mesh at most once and cells are convex",
    "in meshes with polyhedra the ends are outside of the mesh (VTK's own point-in-polyhedron test, used by the code, is unreliable)",
    "crossings are away from corners and edges, and from each other by 20 times min_length",
]


def kuhn(rng):
    """Conforming tetrahedra of a box grid."""
    n = np.array([gen.count(rng, 1, 4, 4) for _ in range(3)])
    X, Y, Z = np.meshgrid(*[gen.ticks(rng, int(k)) for k in n], indexing="ij")
    pts = np.column_stack([a.ravel(order="F") for a in (X, Y, Z)])
    cells = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
                    q = np.array([i, j, k])
                    t = [q.copy()]
                    for a in p:
                        q[a] += 1
                        t.append(q.copy())
                    ids = [int(x[0] + (n[0] + 1) * (x[1] + (n[1] + 1) * x[2])) for x in t]
                    a, b, c, d = pts[ids]
                    if np.cross(b - a, c - a) @ (d - a) < 0:
                        ids[1], ids[2] = ids[2], ids[1]
                    cells.append(ref.Cell(T.TETRA, ids))
    return meshes.from_cells(cells, pts)


def mesh2d(rng, axis):
    kind = gen.choice(rng, ["struct", "box", "tri", "quad", "poly", "mixed", "pixel", "image", "rect"])
    if kind == "struct":
        return kind, gen.structured_surface(rng, axis)
    if kind == "box":
        lo, hi = (0.3, 2.0) if rng.random() < 0.5 else (0.05, 5.0)
        U, V = np.meshgrid(gen.ticks(rng, gen.count(rng, 1, 6), lo, hi), gen.ticks(rng, gen.count(rng, 1, 6), lo, hi), indexing="ij")
        p = gen.embed(np.column_stack((U.ravel(order="F"), V.ravel(order="F"))), 0.0, axis)
        m = pv.StructuredGrid()
        m.dimensions = (*U.shape, 1)
        m.points = p
        return kind, m
    if kind in ("image", "rect"):
        return kind, gen.grid_surface(rng, kind, axis, np.zeros(3))
    return kind, gen.unstructured_surface(rng, axis, what=kind)


def mesh3d(rng):
    kind = gen.choice(rng, ["box", "box", "image", "rect", "tetra", "wedge", "pyramid", "blocks", "prisms", "prisms"])
    if kind == "box":
        lo, hi = (0.3, 2.0) if rng.random() < 0.5 else (0.05, 5.0)
        return kind, pv.StructuredGrid(*np.meshgrid(*[gen.ticks(rng, gen.count(rng, 1, 4, 6), lo, hi) for _ in range(3)], indexing="ij"))
    if kind == "image":
        return kind, pv.ImageData(dimensions=[gen.count(rng, 2, 5, 6) for _ in range(3)], spacing=rng.uniform(0.3, 2, 3))
    if kind == "rect":
        return kind, pv.RectilinearGrid(*[gen.ticks(rng, int(rng.integers(1, 4))) for _ in range(3)])
    if kind == "tetra":
        return kind, kuhn(rng)
    if kind in ("wedge", "pyramid"):
        return kind, gen.box_volume_cells(rng, (kind,))
    if kind == "blocks":
        return kind, gen.box_volume_cells(rng, ("hex", "voxel", "poly", "pyramid"))
    return kind, meshes.prisms(rng, int(rng.integers(3)))


def convex(P, c, dim, normal):
    if dim == 2:
        r = P[c.ring()]
        e = np.roll(r, -1, axis=0) - r
        s = np.cross(e, np.roll(e, -1, axis=0)) @ normal
        return (s > -1e-12).all() or (s < 1e-12).all()
    X = P[np.unique(c.ids)]
    cen = X.mean(axis=0)
    for f in c.face_list():
        q = P[list(f)]
        n = ref.area_vec(q)
        n = n / np.linalg.norm(n)
        if (cen - q[0]) @ n > 0:
            n = -n
        if ((X - q[0]) @ n).max() > 1e-9 * (1 + ref.scale(P)):
            return False
    return True


def locate(P, cells, dim, x, normal):
    """Cell containing x, -1 outside, None too close to call."""
    for i, c in enumerate(cells):
        if dim == 2:
            k = c20.inside(P[c.ring()], x, normal)
            if k == 0:
                return None
            if k > 0:
                return i
            continue
        cen = P[np.unique(c.ids)].mean(axis=0)
        d = np.inf
        for f in c.face_list():
            n = ref.area_vec(P[list(f)])
            n = n / np.linalg.norm(n)
            h = float((cen - P[f[0]]) @ n)
            d = min(d, float((x - P[f[0]]) @ n) * np.sign(h))
        size = np.linalg.norm(P[c.ids] - cen, axis=1).max()
        if abs(d) < 2e-4 * size:
            return None
        if d > 0:
            return i
    return -1


def near(P, cells, dim, x, normal, tol=1e-2):
    """A vertex so close to an edge/face that which cell has it is a matter of rounding."""
    for c in cells:
        if dim == 2:
            r = P[c.ring()]
            L = np.linalg.norm(r - r.mean(axis=0), axis=1).max()
            for a, b in zip(r, np.roll(r, -1, axis=0)):
                d = b - a
                t = np.clip(float((x - a) @ d) / float(d @ d), 0, 1)
                if np.linalg.norm(x - a - t * d) < tol * L:
                    return True
        else:
            X = P[c.ids]
            L = np.linalg.norm(X - X.mean(axis=0), axis=1).max()
            if np.linalg.norm(x - X.mean(axis=0)) > 3 * L:
                continue
            for f in c.face_list():
                n = ref.area_vec(P[list(f)])
                if abs(float((x - P[f[0]]) @ n)) / np.linalg.norm(n) < tol * L:
                    return True
    return False


def ends_clear(P, cells, L):
    """VTK cannot tell reliably whether a point is in a polyhedron."""
    lo, hi = P.min(axis=0), P.max(axis=0)
    m = 0.03 * np.linalg.norm(hi - lo)
    out = [(x < lo - m).any() or (x > hi + m).any() for x in L]
    return out[0] and out[-1] and all(o or locate(P, cells, 3, x, None) not in (None, -1) for o, x in zip(out, L))


def expect(P, cells, dim, line, normal, ml):
    """[(start, end, segment, cell)] or None when not in general position."""
    items = collections.OrderedDict()
    for c in cells:
        for f in c14.parts(c, dim):
            items.setdefault(frozenset(int(x) for x in f), f)
    out = []
    for lid, (a, b) in enumerate(zip(line[:-1], line[1:])):
        d = b - a
        L = np.linalg.norm(d)
        ts = []
        for f in items.values():
            if dim == 3:
                v, x, _ = c20.face_hit(P[list(f)], a, b, 90.0)
            else:
                v, x = c20.edge_hit(P[f[0]], P[f[1]], a, b, normal)
            if v == 0:
                return None
            if v == 1:
                ts.append(float((x - a) @ d / L**2))
        ts = [0.0] + sorted(ts) + [1.0]
        for t0, t1 in zip(ts[:-1], ts[1:]):
            if (t1 - t0) * L < 20 * ml:
                return None
            c = locate(P, cells, dim, a + (t0 + t1) / 2 * d, normal)
            if c is None:
                return None
            out.append((a + t0 * d, a + t1 * d, lid, c))
    return out


def line_points(rng, mode, inner, outer):
    if mode == "through":
        a, c = outer(), inner()
        return [a, c + (c - a) * rng.uniform(1.2, 2)]
    if mode == "startin":
        return [inner(), outer()]
    if mode == "endin":
        return [outer(), inner()]
    if mode == "inside":
        return [inner(), inner()]
    if mode == "multi-in":
        return [inner() for _ in range(int(rng.integers(3, 6)))]
    if mode == "multi-through":
        return [outer()] + [inner() for _ in range(int(rng.integers(1, 4)))] + [outer()]
    if mode == "multi-out":
        a, c = outer(), inner()
        d = c - a
        t = [0.0, *np.sort(rng.uniform(0.01, 0.3, int(rng.integers(1, 3)))), 1.0, *np.sort(rng.uniform(2.0, 3.0, int(rng.integers(1, 3))))]
        q = [a + x * d for x in t]
        w = np.linalg.norm(d) * 0.05
        return [q[0]] + [x + outer.off(w) for x in q[1:]]
    a = outer()
    return [a, a + outer.off(0.3 * np.linalg.norm(a - outer()))]


def run_case(pvg, mon, rng, index, tier):
    dim = 2 if gen.BIG == "long" or rng.random() < 0.5 else 3
    axis = int(rng.integers(3))
    kind, m = mesh2d(rng, axis) if dim == 2 else mesh3d(rng)
    while gen.BIG == "long" and m.n_cells > 12:
        kind, m = mesh2d(rng, axis)
    grid = isinstance(m, (pv.ImageData, pv.RectilinearGrid))
    off, sc = np.zeros(3), 1.0
    if not grid:
        off = gen.offsets(rng)
        if rng.random() < 0.3 and ref.scale(off) < 1e4:
            sc = 10.0 ** rng.uniform(-0.5, 2)
        m.points = np.array(m.points, dtype=float) * sc + off
    m.clear_data()
    P = ref.points_of(m)
    cells = ref.cells_of(m)
    normal = np.eye(3)[axis]
    if not all(convex(P, c, dim, normal) for c in cells):
        mon.trivial = True
        return
    lo, hi = P.min(axis=0), P.max(axis=0)
    D = hi - lo
    size = np.linalg.norm(D)

    def inner():
        return lo + rng.uniform(0.02, 0.98, 3) * D

    def vec():
        v = rng.normal(size=3)
        if dim == 2:
            v[axis] = 0.0
        return v / np.linalg.norm(v)

    def outer():
        return (lo + hi) / 2 + vec() * size * rng.uniform(0.6, 1.5)

    outer.off = lambda w: vec() * w * rng.uniform(0.2, 1)
    poly3 = any(c.type == int(T.POLYHEDRON) for c in cells)
    kw, ml = {}, 1e-4
    if gen.BIG == "long":
        ml = kw["min_length"] = 1e-5
    elif rng.random() < 0.3:
        ml = kw["min_length"] = float(10.0 ** rng.uniform(-6, -3))
    for _ in range(30):
        mode = gen.choice(rng, ["through", "startin", "endin", "inside", "multi-in", "multi-through", "multi-out", "outside"])
        L = np.array(line_points(rng, mode, inner, outer))
        past = False
        if not poly3 and rng.random() < 0.25:
            # the line stops soon after a crossing of its last segment
            e = expect(P, cells, dim, L, normal, ml)
            cut = [x[1] for x in (e or [])[:-1] if x[2] == len(L) - 2]
            if cut:
                d = L[-1] - L[-2]
                L[-1] = cut[int(rng.integers(len(cut)))] + d / np.linalg.norm(d) * ml * rng.uniform(25, 100)
                past = True
        if gen.BIG == "long":  # many vertices in the first piece
            e = expect(P, cells, dim, L, normal, ml)
            if e is None:
                continue
            a, b = e[0][0], (e[0][0] + e[0][1]) / 2
            k = int(rng.integers(1001, 1300))
            t = np.arange(k)[:, None] / k
            L = np.vstack((a + (b - a) * t, b[None], L[1:]))
        if any(near(P, cells, dim, x, normal, 3e-3 if past and k == len(L) - 1 else 1e-2) for k, x in enumerate(L) if len(L) < 1000 or k % 40 == 0 or k > len(L) - 10):
            continue
        if poly3 and not ends_clear(P, cells, L):
            continue
        e = expect(P, cells, dim, L, normal, ml)
        if e is None:
            continue
        lab = [x[3] for x in e]
        ent = sum(1 for x, y in zip(lab[:-1], lab[1:]) if x == -1 and y != -1) + (lab[0] != -1)
        if ent <= 1:
            break
    else:
        mon.trivial = True
        return
    # vertices within a cell are not kept
    pts, lab, seg = [e[0][0]], [], []
    for k, (a, b, lid, c) in enumerate(e):
        last = k == len(e) - 1
        if not last and e[k + 1][2] != lid and c != -1:
            continue
        pts.append(b)
        lab.append(c)
        seg.append(lid)
    pts = np.array(pts)
    if (np.linalg.norm(np.diff(pts, axis=0), axis=1) < 20 * ml).any():
        mon.trivial = True
        return
    before = after = False
    if ent and rng.random() < 0.3:
        before = True
        kw["ignore_points_before_entry"] = True
        k = next(i for i, c in enumerate(lab) if c != -1)
        if k:
            mon.check(True, "ran:before-dropped")
        pts, lab, seg = pts[k:], lab[k:], seg[k:]
    if ent and rng.random() < 0.3:
        after = True
        kw["ignore_points_after_exit"] = True
        k = len(lab) - next(i for i, c in enumerate(lab[::-1]) if c != -1)
        if k < len(lab):
            mon.check(True, "ran:after-dropped")
        pts, lab, seg = pts[: k + 1], lab[:k], seg[:k]
    poly = rng.random() < 0.5
    line = gen.line_mesh(rng, L, poly)
    line.cell_data["v"] = rng.normal(size=line.n_cells)
    if rng.random() < 0.5:
        line.cell_data["w"] = rng.normal(size=(line.n_cells, 3))
    if rng.random() < 0.2:
        kw["pass_cell_data"] = bool(rng.random() < 0.5)
    mon.scenario(kind=kind, cls=type(m).__name__, n=len(cells), axis=axis, mode=mode, line=L, poly=int(poly), off=off, sc=sc, **kw)
    res = mon.call("cut", pvg.intersect_polyline, m, line, **kw)
    R = ref.points_of(res)
    rc = ref.cells_of(res)
    eps = (1e-5 if grid else 2e-6) * size + 1e-9 * ref.scale(P)
    S = size + np.linalg.norm(np.diff(L, axis=0), axis=1).sum()
    eps += 4e-6 * S
    mon.check(all(len(c.ids) == 2 for c in rc), "cut:points", "a piece is not a line segment")
    path = R[[int(rc[0].ids[0])] + [int(c.ids[1]) for c in rc]]
    mon.check(all(rc[i].ids[1] == rc[i + 1].ids[0] for i in range(len(rc) - 1)), "cut:points", "pieces are not joined")
    mon.check(len(path) == len(pts), "cut:points", lambda: f"{len(path)} points instead of {len(pts)}: {path.tolist()} instead of {pts.tolist()}"[:700])
    # grazing faces amplify rounding
    mon.close(path, pts, "cut:points", eps * 25, "points of the cut line")
    if not before:
        mon.close(path[0], L[0], "cut:ends", 1e-9 * (1 + ref.scale(P, L)), "first point")
    if not after:
        mon.close(path[-1], L[-1], "cut:ends", 1e-9 * (1 + ref.scale(P, L)), "last point")
    mon.same(np.asarray(res.cell_data["IntersectedCellIds"]), lab, "cut:cells", "cell containing each piece")
    mon.same(np.asarray(res.cell_data["vtkOriginalCellIds"]), seg, "cut:segments", "original segment of each piece")
    if not before and not after and len(L) == 2:
        mon.close(np.linalg.norm(np.diff(path, axis=0), axis=1).sum(), np.linalg.norm(L[1] - L[0]), "cut:length", 1e-6 * S, "length")
        mon.check(True, "ran:straight")
    if kw.get("pass_cell_data", True):
        for k in line.cell_data.keys():
            v = np.asarray(line.cell_data[k])
            mon.check(k in res.cell_data, "cut:data", lambda: f"{k} is lost")
            mon.same(np.asarray(res.cell_data[k]), v[np.zeros(len(seg), dtype=int) if poly else seg], "cut:data", k)
    else:
        mon.check("v" not in res.cell_data, "cut:data", "cell data passed although not asked")
    for c, on in (
        (f"ran:{dim}d", 1), ("ran:" + mode, 1), ("ran:utm", ref.scale(P) > 1e4), ("ran:polyhedron", poly3),
        ("ran:polyline", poly and len(L) > 2), ("ran:segments", not poly and len(L) > 2), ("ran:min-length", "min_length" in kw), ("ran:long", len(lab) > 8), ("ran:just-past", past),
    ):
        if on:
            mon.check(True, c)
