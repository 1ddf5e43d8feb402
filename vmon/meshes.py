"""Random meshes of any dimension and type, with hidden, empty and collapsed cells."""
from __future__ import annotations

import numpy as np
import pyvista as pv

from . import gen, ref

T = pv.CellType
HIDDEN = 32


def from_cells(cells, points):
    """cells: list of ref.Cell."""
    flat, types = [], []
    for c in cells:
        if c.type == int(T.POLYHEDRON):
            s = [len(c.faces)]
            for f in c.faces:
                s += [len(f), *[int(x) for x in f]]
            flat += [len(s), *s]
        else:
            flat += [len(c.ids), *[int(x) for x in c.ids]]
        types.append(c.type)
    return pv.UnstructuredGrid(np.array(flat, dtype=np.int64), np.array(types, dtype=np.uint8), np.asarray(points))


def hide(rng, mesh, p=0.3, keep=1):
    """Flag random cells hidden; at least `keep` stay visible."""
    n = mesh.n_cells
    h = rng.random(n) < p
    if h.sum() > n - keep:
        h[:] = False
        h[: max(0, n - keep)] = rng.random(max(0, n - keep)) < 0.5
    mesh.cell_data["vtkGhostType"] = np.where(h, HIDDEN, 0).astype(np.uint8)
    return h


def with_empty(rng, mesh, k=None):
    """Insert empty cells into an unstructured grid."""
    cells = ref.cells_of(mesh)
    for _ in range(k or int(rng.integers(1, 3))):
        cells.insert(int(rng.integers(len(cells) + 1)), ref.Cell(0, []))
    return from_cells(cells, mesh.points)


def prisms(rng, axis=2):
    """Polyhedral prisms over a polygonal surface, two layers at most."""
    s = gen.unstructured_surface(rng, axis, what=gen.choice(rng, ["poly", "mixed", "concave"]))
    P = ref.points_of(s)
    n = len(P)
    nl = int(rng.integers(1, 3))
    pts = [P.copy() for _ in range(nl + 1)]
    for k in range(nl + 1):
        pts[k][:, axis] += k * 1.3
    cells = []
    for k in range(nl):
        for c in ref.cells_of(s):
            a, b = c.ids + k * n, c.ids + (k + 1) * n
            if c.type == int(T.POLYGON):
                f = [a[::-1].tolist(), b.tolist()] + [[a[i], a[(i + 1) % len(a)], b[(i + 1) % len(a)], b[i]] for i in range(len(a))]
                cells.append(ref.Cell(T.POLYHEDRON, np.unique(np.concatenate((a, b))), f))
            else:
                t = {int(T.TRIANGLE): T.WEDGE, int(T.QUAD): T.HEXAHEDRON}[c.type]
                cells.append(ref.Cell(t, np.concatenate((a, b))))
    return from_cells(cells, np.concatenate(pts))


def volume(rng, off=None):
    kind = gen.choice(rng, ["struct", "struct", "collapsed", "image", "rect", "box", "box", "poly", "hex", "tetra"])
    off = np.zeros(3) if off is None else off
    if kind == "struct":
        m = gen.structured_volume(rng, off)
    elif kind == "collapsed":
        n = np.array([gen.count(rng, 1, 4, 6) for _ in range(3)])
        X, Y, Z = np.meshgrid(*[gen.ticks(rng, int(k)) for k in n], indexing="ij")
        k = int(rng.integers(1, Z.shape[2]))
        m_ = rng.random(Z.shape[:2]) < 0.6
        d = np.where(m_, Z[..., k] - Z[..., k - 1], 0.0)
        Z = Z.copy()
        Z[..., k:] -= d[..., None]
        Z[..., k] = np.where(m_, Z[..., k - 1], Z[..., k])
        m = pv.StructuredGrid(X + off[0], Y + off[1], Z + off[2])
    elif kind == "image":
        m = pv.ImageData(dimensions=[gen.count(rng, 2, 5, 6) for _ in range(3)], spacing=rng.uniform(0.3, 2, 3), origin=off)
    elif kind == "rect":
        m = pv.RectilinearGrid(*[gen.ticks(rng, gen.count(rng, 1, 4, 6)) + o for o in off])
    elif kind == "poly":
        m = prisms(rng, int(rng.integers(3)))
        m.points = m.points + off
    else:
        kinds = ("hex", "wedge", "tetra", "pyramid", "voxel", "poly") if kind == "box" else (kind,)
        m = gen.box_volume_cells(rng, kinds)
        m.points = m.points + off
    return kind, m


def surface(rng, off=None):
    kind = gen.choice(rng, ["struct", "image", "rect", "unstr", "unstr", "unstr", "poly", "lines+", "curved"])
    off = np.zeros(3) if off is None else off
    axis = int(rng.integers(3))
    if kind == "struct":
        return kind, gen.structured_surface(rng, axis, off=off)
    if kind in ("image", "rect"):
        return kind, gen.grid_surface(rng, kind, axis, off)
    m = gen.unstructured_surface(rng, axis, off=off)
    if kind == "curved":
        m.points[:, axis] += np.sin(m.points).sum(axis=1)
    if kind == "poly":
        cells = [c.ring() for c in ref.cells_of(m)]
        return kind, pv.PolyData(np.array(m.points), faces=[int(x) for c in cells for x in (len(c), *c)])
    if kind == "lines+":
        cells = ref.cells_of(m)
        for _ in range(int(rng.integers(1, 4))):
            n = int(rng.integers(2, 4))
            ids = rng.permutation(m.n_points)[: min(n, m.n_points)]
            cells.insert(int(rng.integers(len(cells) + 1)), ref.Cell(T.LINE if len(ids) == 2 else T.POLY_LINE, ids))
        return kind, from_cells(cells, m.points)
    return kind, m


def lines(rng, off=None):
    n = gen.count(rng, 3, 9, 600)
    P = rng.uniform(-3, 3, (n, 3)) + (0.0 if off is None else off)
    cells = []
    for _ in range(gen.count(rng, 1, 5, 400)):
        ids = rng.permutation(n)[: int(rng.integers(2, 4))]
        cells.append(ref.Cell(T.LINE if len(ids) == 2 else T.POLY_LINE, ids))
    if rng.random() < 0.5:
        return "lines", pv.PolyData(P, lines=[int(x) for c in cells for x in (len(c.ids), *c.ids)])
    return "lines", from_cells(cells, P)


def anymesh(rng, off=None, dims=(1, 2, 2, 3, 3)):
    """-> kind, dim, mesh"""
    d = int(gen.choice(rng, list(dims)))
    k, m = {1: lines, 2: surface, 3: volume}[d](rng, off)
    return k, d, m
