"""C16 extraction of cells."""
import numpy as np
import pyvista as pv

from .. import gen, meshes, ref
from . import c15

T = pv.CellType
QUICK, THOROUGH = 12000, 80000
REQUIRED = {
    "extract", "extract:ids", "extract:cells", "extract:celldata", "extract:pointdata", "extract:hidden", "dimension", "dimension:cells", "dimension:data",
    "ran:mask", "ran:indices", "ran:invert", "ran:invert-nothing", "ran:hidden-selected", "ran:hidden-not-selected", "ran:empty", "ran:polyhedron", "ran:upper", "ran:lower", "ran:own-dimension", "ran:keep-empty", "ran:drop-empty",
    "ran:nothing-hidden-but-flag", "ran:structured", "ran:all", "ran:any-type",
}
RULE = (
    "Random meshes of every kind with scalar, vector and string cell and point data, hidden and empty cells; selections as masks, "
    "unsorted or repeated indices, scalars, inverted or not; dimension extraction with every limit and method. Non-trivial: distinct mesh and selection."
)
VOX = [0, 1, 3, 2, 4, 5, 7, 6]


def add_data(rng, m):
    for d, n in ((m.cell_data, m.n_cells), (m.point_data, m.n_points)):
        d["s"] = rng.permutation(n) * 1.5
        if rng.random() < 0.6:
            d["v"] = rng.normal(size=(n, int(rng.integers(2, 4))))
        if rng.random() < 0.4:
            d["i"] = rng.integers(-9, 9, n)
        if rng.random() < 0.3:
            d["t"] = np.array([f"n{k}" for k in rng.integers(0, 9, n)])
        if rng.random() < 0.2:
            d["b"] = rng.random(n) < 0.5


def corners(c, P, flip):
    """Comparable geometry of a cell: type and corner coordinates (per face for polyhedra)."""
    if c.faces is not None:
        return [[tuple(P[x]) for x in f] for f in c.faces]
    ids = c.ids
    if flip and c.type == int(T.HEXAHEDRON):
        ids = ids[VOX]
    if flip and c.type == int(T.QUAD):
        ids = ids[[0, 1, 3, 2]]
    return [tuple(P[x]) for x in ids]


FLIP = {int(T.HEXAHEDRON): int(T.VOXEL), int(T.QUAD): int(T.PIXEL)}


def compare(mon, m, cells, sel, out, tags, data_tag, P, hidden=None):
    oc = ref.cells_of(out)
    mon.check(len(oc) == len(sel), tags, lambda: f"{len(oc)} cells extracted, {len(sel)} selected")
    O = ref.points_of(out)
    img = isinstance(m, (pv.ImageData, pv.RectilinearGrid))
    # VTK casts implicit points through single precision at times
    tol = 4e-7 * ref.scale(P) if img else 0.0
    for a, i in zip(oc, sel):
        b = cells[i]
        flip = img
        want = FLIP.get(b.type, b.type) if img else b.type
        if hidden is not None and hidden[i] and a.type == 0 and not isinstance(m, pv.UnstructuredGrid):
            want = 0
        mon.check(a.type == want, tags, lambda: f"cell {i}: type {a.type} instead of {want}")
        x, y = corners(a, O, False), corners(b, P, flip)
        if want == 0 and b.type != 0:
            continue
        if tol:
            ok = len(x) == len(y) and (len(x) == 0 or np.abs(np.array(x) - np.array(y)).max() <= tol)
        else:
            ok = x == y
        mon.check(ok, tags, lambda: f"cell {i}: corners {str(x)[:200]} instead of {str(y)[:200]}")
        for k in m.point_data:
            if k not in out.point_data:
                raise_missing(mon, data_tag, "point", k)
            u = np.asarray(out.point_data[k])[a.ids]
            w = np.asarray(m.point_data[k])[b.ids if not flip else (b.ids[VOX] if b.type == int(T.HEXAHEDRON) else b.ids[[0, 1, 3, 2]] if b.type == int(T.QUAD) else b.ids)]
            mon.check(u.shape == w.shape and (u == w).all(), data_tag[1], lambda: f"point data {k!r} of cell {i}: {u.tolist()} instead of {w.tolist()}")
    for k in m.cell_data:
        if k == "vtkGhostType":
            continue
        if k not in out.cell_data:
            raise_missing(mon, data_tag, "cell", k)
        u, w = np.asarray(out.cell_data[k]), np.asarray(m.cell_data[k])[sel]
        mon.check(u.shape == w.shape and (u == w).all(), data_tag[0], lambda: f"cell data {k!r}: {u.tolist()} instead of {w.tolist()}"[:400])


def raise_missing(mon, data_tag, what, k):
    mon.check(False, data_tag[0 if what == "cell" else 1], f"{what} data {k!r} is missing")


def run_case(pvg, mon, rng, index, tier):
    if rng.random() < 0.1:
        m, types, dims = c15.typed_mesh(rng)
        add_data(rng, m)
        D = np.array(dims + [-1] * (len(types) - len(dims)))
        mon.check(True, "ran:any-type")
        return by_dimension(pvg, mon, rng, m, ref.cells_of(m), np.array(types), ref.points_of(m), None, "types", D)
    off = gen.offsets(rng)
    kind, dim, m = meshes.anymesh(rng, off)
    notes = set()
    if isinstance(m, pv.UnstructuredGrid) and rng.random() < 0.35:
        m = meshes.with_empty(rng, m)
        notes.add("ran:empty")
    if isinstance(m, pv.UnstructuredGrid) and rng.random() < 0.4:
        cells = ref.cells_of(m)
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(1, 5))
            ids = rng.permutation(m.n_points)[: min(k, m.n_points)]
            t = {1: T.VERTEX, 2: T.LINE, 3: T.TRIANGLE, 4: T.POLY_LINE}[len(ids)]
            cells.insert(int(rng.integers(len(cells) + 1)), ref.Cell(t, ids))
        m = meshes.from_cells(cells, m.points)
    n = m.n_cells
    add_data(rng, m)
    cells = ref.cells_of(m)
    types = np.array([c.type for c in cells])
    P = ref.points_of(m)
    hidden = None
    if rng.random() < 0.5:
        hidden = (rng.random(n) < (0.0 if rng.random() < 0.15 else 0.4)) & (types != 0)
        m.cell_data["vtkGhostType"] = np.where(hidden, 32, 0).astype(np.uint8)
        if not hidden.any():
            notes.add("ran:nothing-hidden-but-flag")
    if rng.random() < 0.35:
        return by_dimension(pvg, mon, rng, m, cells, types, P, hidden, kind)
    mask = rng.random(n) < rng.uniform(0.1, 0.9)
    if rng.random() < 0.1:
        mask[:] = True
    if not mask.any():
        mask[int(rng.integers(n))] = True
    inv = bool(rng.random() < 0.4)
    if inv and mask.all():
        mask[int(rng.integers(n))] = False
        if not mask.any():
            inv, mask[:] = False, True
    k = int(rng.integers(5))
    if inv and rng.random() < 0.15:  # everything but nothing
        mask[:] = False
        k = k % 3
        notes.add("ran:invert-nothing")
    ids = np.flatnonzero(mask)
    if k == 0:
        arg = mask
    elif k == 1:
        arg = mask.tolist()
    elif k == 2:
        arg = rng.permutation(ids)
    elif k == 3:
        arg = rng.permutation(np.concatenate((ids, ids[rng.integers(len(ids), size=2)]))).tolist()
    else:
        ids = ids[:1]
        mask = np.zeros(n, dtype=bool)
        mask[ids] = True
        if inv and n == 1:
            inv = False
        arg = int(ids[0]) if rng.random() < 0.5 else ids.astype(np.int32)
    sel = np.flatnonzero(~mask if inv else mask)
    mon.scenario(kind=kind, cls=type(m).__name__, types=types, hidden=None if hidden is None else np.flatnonzero(hidden), sel=sel, form=k, inv=inv, p=P[:2])
    out = mon.call("extract", pvg.extract_cells, m, arg, **({"invert": inv} if inv or rng.random() < 0.5 else {}))
    mon.check("vtkOriginalCellIds" in out.cell_data, "extract:ids", "original cell ids are not recorded")
    mon.same(np.asarray(out.cell_data["vtkOriginalCellIds"]), sel, "extract:ids", "original cell ids")
    g = np.asarray(out.cell_data["vtkGhostType"]) if "vtkGhostType" in out.cell_data else np.zeros(out.n_cells, dtype=int)
    hs = np.zeros(n, dtype=bool) if hidden is None else hidden
    mon.same((g & 32) != 0, hs[sel], "extract:hidden", "hidden flags")
    compare(mon, m, cells, sel, out, "extract:cells", ("extract:celldata", "extract:pointdata"), P, None)
    notes.add("ran:mask" if k < 2 else "ran:indices")
    if inv:
        notes.add("ran:invert")
    if hs[sel].any():
        notes.add("ran:hidden-selected")
    if hs.any() and not hs[sel].any():
        notes.add("ran:hidden-not-selected")
    if (types == int(T.POLYHEDRON)).any():
        notes.add("ran:polyhedron")
    if not isinstance(m, (pv.UnstructuredGrid, pv.PolyData)):
        notes.add("ran:structured")
    if len(sel) == n:
        notes.add("ran:all")
    for x in notes:
        mon.check(True, x)


def by_dimension(pvg, mon, rng, m, cells, types, P, hidden, kind, D=None):
    if hidden is not None and hidden.any() and not isinstance(m, pv.UnstructuredGrid):
        m.cell_data.pop("vtkGhostType")  # hidden cells of other meshes count as empty in VTK
        hidden = None
    if D is None:
        D = np.array([ref.DIM[t] if t else -1 for t in types])
    own = int(D.max())
    nd = None if rng.random() < 0.35 else int(rng.integers(0, 4))
    lim = own if nd is None else nd
    meth = gen.choice(rng, [None, "upper", "lower"])
    keep = gen.choice(rng, [None, True, False])
    want = (D <= lim) if meth == "lower" else (D >= lim)
    want &= types != 0
    if keep:
        want |= types == 0
    sel = np.flatnonzero(want)
    if len(sel) == 0:
        mon.trivial = True
        return
    kw = {}
    if nd is not None:
        kw["ndim"] = nd
    if meth:
        kw["method"] = meth
    if keep is not None:
        kw["keep_empty_cells"] = keep
    mon.scenario(kind=kind, cls=type(m).__name__, types=types, hidden=None if hidden is None else np.flatnonzero(hidden), **kw)
    out = mon.call("dimension", pvg.extract_cells_by_dimension, m, **kw)
    compare(mon, m, cells, sel, out, "dimension:cells", ("dimension:data", "dimension:data"), P, hidden)
    g = np.asarray(out.cell_data["vtkGhostType"]) if "vtkGhostType" in out.cell_data else np.zeros(out.n_cells, dtype=int)
    hs = np.zeros(len(types), dtype=bool) if hidden is None else hidden
    mon.same((g & 32) != 0, hs[sel], "dimension:data", "hidden flags")
    if "vtkOriginalCellIds" in out.cell_data:
        mon.same(np.asarray(out.cell_data["vtkOriginalCellIds"]), sel, "dimension:data", "original cell ids")
    mon.check(True, "ran:lower" if meth == "lower" else "ran:upper")
    if nd is None:
        mon.check(True, "ran:own-dimension")
    if (types == 0).any():
        mon.check(True, "ran:keep-empty" if keep else "ran:drop-empty")
