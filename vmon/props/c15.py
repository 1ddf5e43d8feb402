"""C15 cell connectivity, dimension and centres."""
import numpy as np
import pyvista as pv
import vtk

from .. import gen, meshes, ref

T = pv.CellType
QUICK, THOROUGH = 12000, 80000
REQUIRED = {
    "connectivity", "connectivity:ids", "connectivity:faces", "flat", "flat:rebuild", "dimension", "dimension:value", "dimension:type", "centers", "centers:value", "centers:empty",
    "centers:box", "centers:geometric", "centers:tetra", "ran:1d", "ran:2d", "ran:3d", "ran:hidden", "ran:empty", "ran:polyhedron", "ran:mixed-poly", "ran:lowerdim", "ran:degenerate-dims",
}
RULE = (
    "Random meshes of every kind (0D to 3D, structured with any degenerate axes, mixed, polyhedral, explicit structured) with "
    "empty and hidden cells, and single cells of every VTK type; connectivity compared with the raw VTK cells, centres with per-cell "
    "parametric centres and independent centroid formulas. Non-trivial: distinct mesh."
)
VOX = [0, 1, 3, 2, 4, 5, 7, 6]
_types = None


def vtk_types():
    global _types
    if _types is None:
        _types = []
        for t in T:
            if int(t) == 0:
                continue
            c = vtk.vtkGenericCell.InstantiateCell(int(t))
            if c is None:
                continue
            _types.append((int(t), int(c.GetCellDimension()), max(1, int(c.GetNumberOfPoints()))))
    return _types


def expected_cells(m):
    cells = ref.cells_of(m)
    if isinstance(m, (pv.ImageData, pv.RectilinearGrid)):
        out = []
        for c in cells:
            if c.type == int(T.HEXAHEDRON):
                out.append(ref.Cell(T.VOXEL, c.ids[VOX]))
            elif c.type == int(T.QUAD):
                out.append(ref.Cell(T.PIXEL, c.ids[[0, 1, 3, 2]]))
            else:
                out.append(c)
        return out
    return cells


def vtk_center(m, c, P):
    """Parametric centre of one cell, computed on a stand-alone copy of that cell."""
    cell = vtk.vtkGenericCell.InstantiateCell(c.type)
    ids = c.ids
    cell.GetPointIds().SetNumberOfIds(len(ids))
    cell.GetPoints().SetDataTypeToDouble()
    cell.GetPoints().SetNumberOfPoints(len(ids))
    for k, i in enumerate(ids):
        cell.GetPointIds().SetId(k, k)
        cell.GetPoints().SetPoint(k, P[i])
    pc, x, w = [0.0] * 3, [0.0] * 3, [0.0] * max(8, len(ids))
    sub = cell.GetParametricCenter(pc)
    s = vtk.mutable(sub)
    cell.EvaluateLocation(s, pc, x, w)
    return np.array(x)


def oriented(faces):
    """+1/-1 not needed: every edge must be run once in each direction."""
    seen = set()
    for f in faces:
        for a, b in zip(f, list(f[1:]) + [f[0]]):
            if (a, b) in seen:
                return False
            seen.add((a, b))
    return all((b, a) in seen for a, b in seen)


def planar(P, faces):
    for f in faces:
        n = ref.area_vec(P[f])
        n = n / (np.linalg.norm(n) or 1.0)
        if np.abs((P[f] - P[f[0]]) @ n).max() > 1e-9 * (1 + ref.scale(P)):
            return False
    return True


def centroid(P, faces):
    """Volume centroid by signed tetrahedra from an arbitrary apex."""
    o = P[np.unique(np.concatenate(faces))].mean(axis=0)
    V, C = 0.0, np.zeros(3)
    for f in faces:
        q = P[f] - o
        for i in range(1, len(f) - 1):
            v = float(np.dot(q[0], np.cross(q[i], q[i + 1]))) / 6.0
            V += v
            C += v * (q[0] + q[i] + q[i + 1]) / 4.0
    return (o + C / V if V else None), V


def typed_mesh(rng):
    """Mesh of a few arbitrary VTK cell types, empty cells last -> mesh, types, their dimensions."""
    ts = vtk_types()
    pick = [ts[int(i)] for i in rng.integers(len(ts), size=int(rng.integers(1, 5)))]
    pts, cells, types, dims = [], [], [], []
    for t, d, n in pick:
        if t == int(T.POLYHEDRON):
            f = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
            s = [4]
            for x in f:
                s += [3, *[len(pts) + y for y in x]]
            n = 4
            cells += [len(s), *s]
        else:
            if t in (int(T.POLY_LINE), int(T.POLYGON), int(T.CONVEX_POINT_SET), int(T.POLY_VERTEX), int(T.TRIANGLE_STRIP), int(T.QUADRATIC_POLYGON)):
                n = {int(T.QUADRATIC_POLYGON): 6}.get(t, 5)
            cells += [n, *range(len(pts), len(pts) + n)]
        types.append(t)
        dims.append(d)
        pts += rng.uniform(-1, 1, (n, 3)).tolist()
    for _ in range(int(rng.integers(2))):
        cells += [0]
        types.append(0)
    m = pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), np.array(pts))
    return m, types, dims


def by_type(pvg, mon, rng):
    """Dimension of meshes made of arbitrary VTK cell types."""
    m, types, dims = typed_mesh(rng)
    mon.scenario(kind="types", types=types)
    d = mon.call("dimension", pvg.get_dimension, m)
    mon.check(int(d) == max(dims), "dimension:type", lambda: f"dimension {d} for cell types {[T(t).name for t in types]}, expected {max(dims)}")
    con = mon.call("connectivity", pvg.get_cell_connectivity, m)
    for i, c in enumerate(ref.cells_of(m)):
        if c.faces is None:
            mon.same(np.asarray(con[i]), c.ids, "connectivity:ids", f"cell {i}")
        else:
            got = [[int(x) for x in f] for f in con[i]]
            mon.check(got == [[int(x) for x in f] for f in c.faces], "connectivity:faces", lambda: f"cell {i}: faces {got} instead of {c.faces}")


def run_case(pvg, mon, rng, index, tier):
    if rng.random() < 0.15:
        return by_type(pvg, mon, rng)
    off = gen.offsets(rng)
    notes = set()
    r = rng.random()
    if r < 0.12:
        # any degenerate axes
        dims = [int(x) for x in np.where(rng.random(3) < 0.5, 1, rng.integers(2, 5, 3))]
        k = int(rng.integers(3))
        if k == 0:
            m = pv.ImageData(dimensions=dims, spacing=rng.uniform(0.2, 2, 3), origin=off)
        else:
            t = [gen.ticks(rng, d - 1) + o for d, o in zip(dims, off)]
            m = pv.RectilinearGrid(*t) if k == 1 else pv.StructuredGrid(*np.meshgrid(*t, indexing="ij"))
        kind, dim = f"dims{dims}", sum(d > 1 for d in dims)
        notes.add("ran:degenerate-dims")
    elif r < 0.17:
        t = [gen.ticks(rng, int(rng.integers(1, 4))) for _ in range(3)]
        m = pv.StructuredGrid(*np.meshgrid(*t, indexing="ij")).cast_to_explicit_structured_grid()
        kind, dim = "explicit", 3
    else:
        kind, dim, m = meshes.anymesh(rng, off)
    if isinstance(m, pv.UnstructuredGrid) and rng.random() < 0.35:
        m = meshes.with_empty(rng, m)
    if isinstance(m, pv.UnstructuredGrid) and rng.random() < 0.3:
        # cells of lower dimension among the others
        cells = ref.cells_of(m)
        for _ in range(int(rng.integers(1, 3))):
            k = int(rng.integers(1, 5))
            ids = rng.permutation(m.n_points)[: min(k, m.n_points)]
            t = {1: T.VERTEX, 2: T.LINE, 3: T.TRIANGLE, 4: T.POLY_LINE}[len(ids)]
            dim = max(dim, ref.DIM[int(t)])
            cells.insert(int(rng.integers(len(cells) + 1)), ref.Cell(t, ids))
        m = meshes.from_cells(cells, m.points)
        notes.add("ran:lowerdim")
    n = m.n_cells
    explicit = isinstance(m, pv.ExplicitStructuredGrid)
    cells = expected_cells(m)
    types = np.array([c.type for c in cells])
    hidden = np.zeros(n, dtype=bool)
    if rng.random() < 0.4 and not explicit:
        hidden = (rng.random(n) < 0.4) & (types != 0)
        m.cell_data["vtkGhostType"] = np.where(hidden, 32, 0).astype(np.uint8)
    P = ref.points_of(m)
    mon.scenario(kind=kind, dim=dim, cls=type(m).__name__, types=types, hidden=np.flatnonzero(hidden), p=P[:3])
    d = mon.call("dimension", pvg.get_dimension, m)
    mon.check(int(d) == dim, "dimension:value", lambda: f"dimension {d} instead of {dim}")
    con = mon.call("connectivity", pvg.get_cell_connectivity, m)
    mon.check(len(con) == n, "connectivity:ids", lambda: f"{len(con)} entries for {n} cells")
    for i, c in enumerate(cells):
        if c.faces is not None:
            got = [[int(x) for x in f] for f in con[i]]
            mon.check(got == [[int(x) for x in f] for f in c.faces], "connectivity:faces", lambda: f"cell {i}: faces {got} instead of {c.faces}")
        else:
            mon.same(np.asarray(con[i], dtype=int), c.ids, "connectivity:ids", f"cell {i} of type {c.type}")
    flat = mon.call("flat", pvg.get_cell_connectivity, m, flatten=True)
    back = mon.call("flat:rebuild", pv.UnstructuredGrid, np.asarray(flat), types.astype(np.uint8), P)
    bc = ref.cells_of(back)
    mon.check(len(bc) == n, "flat:rebuild", lambda: f"{len(bc)} cells rebuilt out of {n}")
    for i, (a, b) in enumerate(zip(bc, cells)):
        ok = a.type == b.type and a.ids.tolist() == b.ids.tolist() if b.faces is None else a.faces == [[int(x) for x in f] for f in b.faces]
        mon.check(ok, "flat:rebuild", lambda: f"cell {i} rebuilt as {a.ids.tolist()} ({a.type}) instead of {b.ids.tolist()} ({b.type})")
    # centres
    method = gen.choice(rng, [None, None, "box", "geometric", "tetra"])
    kw = {} if method is None else {"polyhedron_method": method}
    C = np.asarray(mon.call("centers", pvg.get_cell_centers, m, **kw))
    mon.check(C.shape == (n, 3), "centers:value", lambda: f"centres of shape {C.shape} for {n} cells")
    tol = 1e-9 + 4e-7 * ref.scale(P) if (m.points.dtype == np.float32 or isinstance(m, (pv.ImageData, pv.RectilinearGrid))) else 1e-9 + 1e-11 * ref.scale(P)
    for i, c in enumerate(cells):
        if c.type == 0:
            mon.check(np.isnan(C[i]).all(), "centers:empty", lambda: f"empty cell {i} has centre {C[i]}")
        elif c.faces is None:
            mon.close(C[i], vtk_center(m, c, P), "centers:value", tol, f"centre of cell {i} ({T(c.type).name}){' hidden' if hidden[i] else ''}")
        else:
            q = P[c.ids]
            notes.add("ran:polyhedron")
            if method == "geometric":
                mon.close(C[i], q.mean(axis=0), "centers:geometric", tol, f"geometric centre of polyhedron {i}")
            elif method == "tetra":
                if oriented(c.faces) and planar(P, c.faces):
                    g, V = centroid(P, c.faces)
                    if abs(V) > 1e-3 * np.prod(np.ptp(q, axis=0)):
                        mon.close(C[i], g, "centers:tetra", max(tol, 1e-8 * ref.scale(P)), f"volume centroid of polyhedron {i}")
            elif method == "box":
                mon.close(C[i], 0.5 * (q.min(axis=0) + q.max(axis=0)), "centers:box", tol, f"box centre of polyhedron {i}")
            else:
                mon.check(np.isfinite(C[i]).all() and (C[i] >= q.min(axis=0) - tol).all() and (C[i] <= q.max(axis=0) + tol).all(), "centers:value", lambda: f"centre {C[i]} of polyhedron {i} outside of its box")
    notes.add(f"ran:{dim}d")
    if hidden.any():
        notes.add("ran:hidden")
    if (types == 0).any():
        notes.add("ran:empty")
    if (types == int(T.POLYHEDRON)).any() and len(set(types) - {0}) > 1:
        notes.add("ran:mixed-poly")
    for x in notes:
        mon.check(True, x)
