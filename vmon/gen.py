"""Random inputs: lines, surfaces of every supported kind, volumes, data, groups."""
from __future__ import annotations

import numpy as np
import pyvista as pv

T = pv.CellType


# Now and then (see run.py) a case is large: "mesh" for hundreds of cells, "res" for many subdivisions
BIG = None


def regime(i):
    """Few cases are large: long lines, many cells or many subdivisions."""
    return "long" if i % 601 == 300 else {50: "mesh", 100: "res"}.get(i % 151)


def count(rng, lo, hi, extra=18, long=0):
    n = int(rng.integers(lo, hi))
    if long and BIG == "long":  # VTK strips lines into pieces of 1000 segments by default
        return n + int(rng.integers(1000, 1000 + long))
    return n + int(rng.integers(extra // 2, extra)) if BIG == "mesh" else n


def choice(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def offsets(rng):
    """Coordinate regimes: unit, shifted, negative, projected (UTM-like) coordinates."""
    k = int(rng.integers(5))
    if k <= 1:
        return np.zeros(3)
    if k == 2:
        return rng.uniform(-5, 5, 3)
    if k == 3:
        return np.array([-37.0, 12.5, -4.0])
    return np.array([431250.0, 4582000.0, 1250.0])


def ticks(rng, n, lo=0.3, hi=2.0):
    return np.concatenate(([0.0], np.cumsum(rng.uniform(lo, hi, n))))


def resolution(rng, allow_array=True):
    """-> (resolution, method)"""
    k = int(rng.integers(7))
    if BIG == "res" and k < 6:
        return int(rng.integers(20, 150)), choice(rng, [None, "constant", "log", "log_r"])
    if k == 0:
        return None, None
    if k == 1:
        return 1, choice(rng, [None, "constant", "log", "log_r"])
    if k <= 3:
        return int(rng.integers(2, 5)), choice(rng, [None, "constant"])
    if k == 4:
        return int(rng.integers(2, 5)), "log"
    if k == 5 or not allow_array:
        return int(rng.integers(2, 5)), "log_r"
    m = int(rng.integers(0, 4))
    r = np.concatenate(([0.0], np.sort(rng.uniform(0.05, 0.95, m)), [1.0]))
    # keep distinct
    r = np.unique(np.round(r, 3))
    if rng.random() < 0.3:
        r = rng.permutation(r)
    return (r.tolist() if rng.random() < 0.5 else r), choice(rng, [None, "log", "log_r"])


# -- surfaces -----------------------------------------------------------------

IJK = {2: (0, 1, 2), 1: (0, 2, 1), 0: (1, 2, 0)}  # (u, v, w) -> axes


def embed(uv, w, axis):
    uv = np.asarray(uv, dtype=float)
    p = np.zeros((len(uv), 3))
    a, b, c = IJK[axis]
    p[:, a], p[:, b] = uv[:, 0], uv[:, 1]
    p[:, c] = w
    return p


def structured_surface(rng, axis=2, nu=None, nv=None, jitter=True, off=None, w=0.0):
    nu = nu or count(rng, 1, 5)
    nv = nv or count(rng, 1, 5)
    off = np.zeros(3) if off is None else off
    U, V = np.meshgrid(ticks(rng, nu), ticks(rng, nv), indexing="ij")
    if jitter:
        U = U + rng.uniform(-0.12, 0.12, U.shape)
        V = V + rng.uniform(-0.12, 0.12, V.shape)
    a, b, c = IJK[axis]
    XYZ = [None] * 3
    shape = [nu + 1, nv + 1]
    shape.insert({2: 2, 1: 1, 0: 0}[axis], 1)
    XYZ[a], XYZ[b], XYZ[c] = U, V, np.full(U.shape, w)
    return pv.StructuredGrid(*[x.reshape(shape) + off[k] for k, x in enumerate(XYZ)])


def grid_surface(rng, kind, axis=2, off=None):
    """ImageData / RectilinearGrid with a unit dimension along axis."""
    off = np.zeros(3) if off is None else off
    nu, nv = count(rng, 1, 5), count(rng, 1, 5)
    a, b, c = IJK[axis]
    if kind == "image":
        dims = [1, 1, 1]
        dims[a], dims[b] = nu + 1, nv + 1
        sp = rng.uniform(0.3, 2.0, 3)
        return pv.ImageData(dimensions=dims, spacing=sp, origin=off)
    co = [None] * 3
    co[a], co[b], co[c] = ticks(rng, nu) + off[a], ticks(rng, nv) + off[b], np.array([off[c]])
    return pv.RectilinearGrid(*co)


def unstructured_surface(rng, axis=2, off=None, w=0.0, what=None, nu=None, nv=None, conform=True):
    """Grid whose blocks are quads, pixels, triangles, polygons, concave polygons
    (L and staircase shapes, collinear vertices), any starting vertex and orientation."""
    off = np.zeros(3) if off is None else off
    what = what or choice(rng, ["tri", "quad", "poly", "mixed", "mixed", "concave", "pixel"])
    nu = nu or count(rng, 1, 5)
    nv = nv or count(rng, 1, 5)
    U, V = np.meshgrid(ticks(rng, nu), ticks(rng, nv), indexing="ij")
    if what != "pixel":
        U = U + rng.uniform(-0.12, 0.12, U.shape)
        V = V + rng.uniform(-0.12, 0.12, V.shape)
    uv = np.column_stack((U.ravel(order="F"), V.ravel(order="F")))
    pts = embed(uv, w, axis) + off

    def pid(i, j):
        return i + j * (nu + 1)

    def quad(i, j):
        return [pid(i, j), pid(i + 1, j), pid(i + 1, j + 1), pid(i, j + 1)]

    used = np.zeros((nu, nv), dtype=bool)
    cells, types = [], []

    def put(t, ids):
        ids = list(ids)
        if t != T.PIXEL:
            if rng.random() < 0.5:
                ids = ids[::-1]
            r = int(rng.integers(len(ids)))
            ids = ids[r:] + ids[:r]
        cells.append(ids)
        types.append(int(t))

    order = [(i, j) for j in range(nv) for i in range(nu)]
    for i, j in order:
        if used[i, j]:
            continue
        q = quad(i, j)
        kind = what
        if what == "mixed":
            kind = choice(rng, ["tri", "quad", "poly", "concave", "pent"])
        if kind in ("concave",) and i + 1 < nu and j + 1 < nv and not used[i : i + 2, j : j + 2].any():
            # L shape: three of the four blocks
            c = {(0, 0): pid(i, j), (1, 0): pid(i + 1, j), (2, 0): pid(i + 2, j),
                 (0, 1): pid(i, j + 1), (1, 1): pid(i + 1, j + 1), (2, 1): pid(i + 2, j + 1),
                 (0, 2): pid(i, j + 2), (1, 2): pid(i + 1, j + 2), (2, 2): pid(i + 2, j + 2)}
            k = int(rng.integers(4))
            if k == 0:  # missing upper right
                ring = [(0, 0), (1, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2), (0, 1)]
                miss = (i + 1, j + 1)
            elif k == 1:  # missing upper left
                ring = [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (1, 1), (0, 1)]
                miss = (i, j + 1)
            elif k == 2:  # missing lower left
                ring = [(1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (0, 1), (1, 1)]
                miss = (i, j)
            else:  # missing lower right
                ring = [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
                miss = (i + 1, j)
            put(T.POLYGON, [c[r] for r in ring])
            used[i : i + 2, j : j + 2] = True
            m = quad(*miss)
            if rng.random() < 0.5:
                put(T.QUAD, m)
            else:
                put(T.TRIANGLE, [m[0], m[1], m[2]])
                put(T.TRIANGLE, [m[0], m[2], m[3]])
            continue
        if kind == "pent" and i + 1 < nu and not used[i : i + 2, j].any():
            # two blocks -> hexagon with two near-collinear vertices
            put(T.POLYGON, [pid(i, j), pid(i + 1, j), pid(i + 2, j), pid(i + 2, j + 1), pid(i + 1, j + 1), pid(i, j + 1)])
            used[i : i + 2, j] = True
            continue
        used[i, j] = True
        if kind == "pixel":
            put(T.PIXEL, [q[0], q[1], q[3], q[2]])
        elif kind == "tri":
            if rng.random() < 0.5:
                put(T.TRIANGLE, [q[0], q[1], q[2]])
                put(T.TRIANGLE, [q[0], q[2], q[3]])
            else:
                put(T.TRIANGLE, [q[0], q[1], q[3]])
                put(T.TRIANGLE, [q[1], q[2], q[3]])
        elif kind == "quad":
            put(T.QUAD, q)
        else:
            put(T.POLYGON, q)
    if rng.random() < 0.5 and len(cells) > 1:
        perm = rng.permutation(len(cells))
        cells = [cells[k] for k in perm]
        types = [types[k] for k in perm]
    flat = [x for c in cells for x in (len(c), *c)]
    return pv.UnstructuredGrid(np.array(flat), np.array(types, dtype=np.uint8), pts)


def surface(rng, axis=2, off=None, kinds=None):
    kind = choice(rng, kinds or ["image", "rect", "struct", "struct", "unstr", "unstr", "unstr"])
    if kind in ("image", "rect"):
        return kind, grid_surface(rng, kind, axis, off)
    if kind == "struct":
        return kind, structured_surface(rng, axis, off=off)
    return kind, unstructured_surface(rng, axis, off=off)


NAMES = ["sand", "clay", "A", "B", "rock", "zone-1", "default", "sandy", "Sand", "A ", "AB", "zone-10", "zone", "1"]


def put_groups(rng, mesh, names=None, gaps=True):
    """Assign CellGroup + user_dict with arbitrary (non contiguous) numbering."""
    pool = choice(rng, [NAMES[:6], NAMES[:6], NAMES, ["A", "A ", "AB", "a"], ["sand", "Sand", "sandy", " sand"], ["zone", "zone-1", "zone-10", "1", "default"]])
    many = 0 if names or rng.random() < 0.92 else int(rng.integers(8, 31))
    if many:
        pool = [f"g{i}" for i in range(40)]
    names = list(names or rng.permutation(pool)[: many or int(rng.integers(1, 5))])
    names = [str(n) for n in names]
    nums = np.arange(len(names))
    if gaps and rng.random() < 0.5:
        nums = rng.permutation(np.arange(60 if many else 12))[: len(names)]
    d = {n: int(v) for n, v in zip(names, nums)}
    pick = rng.integers(0, len(names), mesh.n_cells)
    if many:
        pick = rng.permutation(mesh.n_cells) % len(names)
    mesh.cell_data["CellGroup"] = np.array([d[names[k]] for k in pick], dtype=int)
    mesh.user_dict["CellGroup"] = d
    return [names[k] for k in pick]


def put_data(rng, mesh, vectors=True, points=True):
    n = mesh.n_cells
    mesh.cell_data["cid"] = np.arange(n) * 3 + 1
    mesh.cell_data["por"] = rng.uniform(0, 1, n)
    if vectors:
        mesh.cell_data["vec"] = rng.normal(size=(n, 3))
    if points:
        mesh.point_data["pid"] = np.arange(mesh.n_points) * 2 + 5
        mesh.point_data["head"] = rng.uniform(0, 1, mesh.n_points)
        if vectors:
            mesh.point_data["pvec"] = rng.normal(size=(mesh.n_points, 3))
    return mesh


# -- lines ----------------------------------------------------------------------


def polyline_points(rng, n=None, dim3=True, off=None):
    n = n or count(rng, 2, 9, 400)
    p = np.cumsum(rng.normal(size=(n, 3)), axis=0)
    if not dim3:
        p[:, 2] = 0.0
    return p + (0.0 if off is None else off)


def line_mesh(rng, pts, as_poly=None):
    n = len(pts)
    if as_poly is None:
        as_poly = rng.random() < 0.5
    if as_poly:
        lines = [n, *range(n)]
    else:
        lines = [x for k in range(n - 1) for x in (2, k, k + 1)]
    return pv.PolyData(np.asarray(pts, dtype=float), lines=lines)


# -- volumes ----------------------------------------------------------------------


def structured_volume(rng, off=None):
    n = np.array([count(rng, 1, 4, 6) for _ in range(3)])
    G = np.meshgrid(*[ticks(rng, int(k)) for k in n], indexing="ij")
    G = [g + rng.uniform(-0.08, 0.08, g.shape) for g in G]
    off = np.zeros(3) if off is None else off
    return pv.StructuredGrid(*[g + o for g, o in zip(G, off)])


def box_volume_cells(rng, kinds=("hex", "wedge", "tetra", "pyramid", "voxel", "poly")):
    """Unstructured conforming block mesh: hexahedral blocks, each split on its own
    (the outer faces of split blocks may differ from the neighbour's quads)."""
    n = np.array([count(rng, 1, 4, 6) for _ in range(3)])
    xs = [ticks(rng, int(k)) for k in n]
    X, Y, Z = np.meshgrid(*xs, indexing="ij")
    pts = np.column_stack([a.ravel(order="F") for a in (X, Y, Z)])
    ext = list(pts)

    def pid(i, j, k):
        return i + (n[0] + 1) * (j + (n[1] + 1) * k)

    cells, types = [], []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                h = [pid(i, j, k), pid(i + 1, j, k), pid(i + 1, j + 1, k), pid(i, j + 1, k)]
                h += [pid(i, j, k + 1), pid(i + 1, j, k + 1), pid(i + 1, j + 1, k + 1), pid(i, j + 1, k + 1)]
                h = [int(x) for x in h]
                c = choice(rng, list(kinds))
                if c == "hex":
                    cells.append([8, *h]); types.append(T.HEXAHEDRON)
                elif c == "voxel":
                    cells.append([8, h[0], h[1], h[3], h[2], h[4], h[5], h[7], h[6]]); types.append(T.VOXEL)
                elif c == "wedge":
                    cells.append([6, h[0], h[1], h[2], h[4], h[5], h[6]]); types.append(T.WEDGE)
                    cells.append([6, h[0], h[2], h[3], h[4], h[6], h[7]]); types.append(T.WEDGE)
                elif c == "pyramid":
                    ext.append(np.mean([pts[x] for x in h], axis=0))
                    a = len(ext) - 1
                    for f in ([0, 1, 2, 3], [4, 7, 6, 5], [0, 4, 5, 1], [1, 5, 6, 2], [2, 6, 7, 3], [3, 7, 4, 0]):
                        cells.append([5, *[h[x] for x in f], a]); types.append(T.PYRAMID)
                elif c == "tetra":
                    for t in ([0, 1, 3, 4], [1, 2, 3, 6], [1, 3, 4, 6], [1, 4, 5, 6], [3, 4, 6, 7]):
                        cells.append([4, *[h[x] for x in t]]); types.append(T.TETRA)
                else:
                    fs = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
                    s = [6]
                    for f in fs:
                        s += [4, *[h[x] for x in f]]
                    cells.append([len(s), *s]); types.append(T.POLYHEDRON)
    flat = [x for c in cells for x in c]
    return pv.UnstructuredGrid(np.array(flat), np.array([int(t) for t in types], dtype=np.uint8), np.array(ext))
