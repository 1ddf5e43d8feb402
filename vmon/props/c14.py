"""C14 cell geometry, neighbours and connectivity."""
import collections
import itertools

import numpy as np
import pyvista as pv

from .. import gen, meshes, ref

T = pv.CellType
QUICK, THOROUGH = 10000, 60000
REQUIRED = {
    "geometry", "geometry:faces", "geometry:owners", "geometry:points", "neighborhood", "neighborhood:sets", "connectivity", "connectivity:lines", "connectivity:centers",
    "ran:1d", "ran:2d", "ran:3d", "ran:hidden", "ran:empty", "ran:collapsed", "ran:collapsed-1d", "ran:collapsed-2d", "ran:merged", "ran:keepghost", "ran:polyhedron", "ran:mixed", "ran:single", "ran:scaled", "ran:utm", "ran:voxel", "ran:pixel",
    "ran:hidden-structured", "ran:hidden-unstructured", "connectivity:given",
}
RULE = (
    "Random 1D, 2D and 3D meshes of every supported kind (image, rectilinear, structured, polydata, mixed unstructured, polyhedral), "
    "with hidden, empty and collapsed cells; edges/faces, owners, neighbours and connectivity lines are recomputed from raw VTK cells. "
    "Non-trivial: distinct mesh."
)


def parts(cell, dim):
    """Edges or faces of a cell as id rings."""
    if cell.type == 0:
        return []
    if dim <= 2:
        if ref.DIM[cell.type] == 1:
            i = cell.ids
            return [(int(a), int(b)) for a, b in zip(i[:-1], i[1:])]
        r = cell.ring()
        return [(int(a), int(b)) for a, b in zip(r, np.roll(r, -1))]
    return [tuple(int(x) for x in f) for f in cell.face_list()]


def run_case(pvg, mon, rng, index, tier):
    off = gen.offsets(rng)
    kind, dim, m = meshes.anymesh(rng, off)
    if ref.scale(off) > 1e4 and (m.points.dtype != np.float64 or isinstance(m, (pv.ImageData, pv.RectilinearGrid))):
        off = np.zeros(3)  # single precision is too coarse there
        kind, dim, m = meshes.anymesh(rng, off)
    notes = {f"ran:{dim}d"}
    if ref.scale(off) > 1e4:
        notes.add("ran:utm")
    if rng.random() < 0.3 and not off.any() and not isinstance(m, (pv.ImageData, pv.RectilinearGrid)):
        m.points = np.array(m.points, dtype=float) * 10.0 ** rng.uniform(-6, 5)
        notes.add("ran:scaled")
    if isinstance(m, pv.UnstructuredGrid) and rng.random() < 0.3:
        m = meshes.with_empty(rng, m)
        notes.add("ran:empty")
    if isinstance(m, pv.UnstructuredGrid) and rng.random() < 0.1:
        cs = ref.cells_of(m)
        m = meshes.from_cells([c for c in cs if c.type][:1], m.points)
        dim = ref.DIM[[c for c in cs if c.type][0].type]
        if dim == 1 and kind == "lines+":
            kind = "lines"
    if dim < 3 and not isinstance(m, (pv.ImageData, pv.RectilinearGrid)) and rng.random() < 0.25:
        # two points of a cell coincide
        c = ref.cells_of(m)[int(rng.integers(m.n_cells))]
        if len(c.ids) > 1:
            r = c.ring() if ref.DIM[c.type] == 2 else c.ids
            k = int(rng.integers(len(r) - 1))
            q = np.array(m.points)
            q[r[k]] = q[r[k + 1]]
            m.points = q
    if isinstance(m, pv.UnstructuredGrid) and dim > 1 and rng.random() < 0.2:
        # merged points: collapsed cells use a point, an edge or a face twice
        cs = ref.cells_of(m)
        c = cs[int(rng.integers(len(cs)))]
        flat = {int(T.QUAD): [(3, 0), (2, 1)], int(T.HEXAHEDRON): [(4, 0), (5, 1), (6, 2), (7, 3)], int(T.WEDGE): [(3, 0), (4, 1), (5, 2)], int(T.VOXEL): [(4, 0), (5, 1), (6, 2), (7, 3)], int(T.PIXEL): [(2, 0), (3, 1)]}.get(c.type)
        if flat:
            pairs = [(int(c.ids[a]), int(c.ids[b])) for a, b in (flat if rng.random() < 0.6 else flat[:1])]
            if len({x for p in pairs for x in p}) == 2 * len(pairs):
                to = np.arange(m.n_points)
                for a, b in pairs:
                    to[a] = b
                m = meshes.from_cells([ref.Cell(x.type, to[x.ids], None if x.faces is None else [to[np.asarray(f)] for f in x.faces]) for x in cs], m.points)
                notes.add("ran:merged")
    n = m.n_cells
    cells = ref.cells_of(m)
    hidden = np.zeros(n, dtype=bool)
    if rng.random() < 0.45:
        real = np.array([c.type != 0 for c in cells])
        hidden = (rng.random(n) < 0.3) & real
        vis = [ref.DIM[c.type] for c, h in zip(cells, hidden) if not h and c.type]
        if not vis or max(vis) != dim:
            hidden[:] = False
        m.cell_data["vtkGhostType"] = np.where(hidden, 32, 0).astype(np.uint8)
    keep = gen.choice(rng, [None, True, False])
    rm = keep is not False
    kw = {} if keep is None else {"remove_ghost_cells": keep}
    P = ref.points_of(m)
    exp = collections.OrderedDict()
    for i, c in enumerate(cells):
        if rm and hidden[i]:
            continue
        for f in parts(c, dim):
            if rm and len({tuple(P[x]) for x in f}) < (2 if dim <= 2 else 3):
                notes.add("ran:collapsed" if dim == 3 else f"ran:collapsed-{dim}d")
                continue
            exp.setdefault(frozenset(f), ([], f))
            if i not in exp[frozenset(f)][0]:
                exp[frozenset(f)][0].append(i)
    if not exp:
        mon.trivial = True
        return
    mon.scenario(kind=kind, dim=dim, cls=type(m).__name__, n=n, types=[c.type for c in cells], hidden=np.flatnonzero(hidden), keep=keep, p=P[:4])
    g = mon.call("geometry", pvg.extract_cell_geometry, m, **kw)
    G = ref.points_of(g)
    ident = G.shape == P.shape and bool((np.abs(G - P) <= 2e-7 * ref.scale(P)).all())
    mon.check(ident or len(G) <= len(P), "geometry:points", lambda: "points of the geometry are not those of the mesh")
    if not ident:
        index_of = {tuple(p): i for i, p in enumerate(P)}
        mon.check(len(index_of) == len(P) and all(tuple(p) in index_of for p in G), "geometry:points", lambda: "points of the geometry are not those of the mesh")
        gl = np.array([index_of[tuple(p)] for p in G])
    else:
        gl = np.arange(len(P))
    own = np.asarray(g.cell_data["vtkOriginalCellIds"])
    gc = ref.cells_of(g)
    mon.check(own.ndim == 2 and own.shape[1] >= 2 and len(own) == len(gc), "geometry:owners", lambda: f"owner array of shape {own.shape} for {len(gc)} faces")
    seen = set()
    for c, o in zip(gc, own):
        ids = gl[c.ids]
        key = frozenset(int(x) for x in ids)
        mon.check(key in exp and key not in seen, "geometry:faces", lambda: f"{'edge' if dim < 3 else 'face'} {sorted(key)} {'listed twice' if key in seen else 'does not exist'}")
        seen.add(key)
        if dim == 3:
            mon.check(ref.edges_of_ring(ids) == ref.edges_of_ring(exp[key][1]), "geometry:faces", lambda: f"face {ids.tolist()} is not the ring {exp[key][1]}")
        oo = [int(x) for x in o if x != -1]
        mon.check(len(oo) == len(set(oo)) and set(oo) == set(exp[key][0]), "geometry:owners", lambda: f"owners {oo} instead of {exp[key][0]}")
    mon.check(len(seen) == len(exp), "geometry:faces", lambda: f"{len(seen)} listed, {len(exp)} exist")
    # neighbours
    nb = mon.call("neighborhood", pvg.get_neighborhood, m, **kw)
    en = [set() for _ in range(n)]
    el = collections.Counter()
    for o, _ in exp.values():
        for a, b in itertools.combinations(o, 2):
            en[a].add(b)
            en[b].add(a)
            el[frozenset((a, b))] += 1
    mon.check(len(nb) == n, "neighborhood:sets", lambda: f"{len(nb)} lists for {n} cells")
    for i in range(n):
        s = {int(x) for x in np.asarray(nb[i]).ravel()}
        mon.check(s == en[i], "neighborhood:sets", lambda: f"cell {i}: neighbours {sorted(s)} instead of {sorted(en[i])}")
    # connectivity
    given = rng.uniform(-5, 5, (n, 3)) if rng.random() < 0.5 else None
    kw2 = dict(kw)
    if given is not None:
        kw2["cell_centers"] = given if rng.random() < 0.5 else given.tolist()
    cn = mon.call("connectivity", pvg.get_connectivity, m, **kw2)
    lc = ref.cells_of(cn)
    got = collections.Counter()
    C = ref.points_of(cn)
    for c in lc:
        if ref.DIM[c.type] == 1:
            got[frozenset(int(x) for x in c.ids)] += 1
    mon.check(got == el, "connectivity:lines", lambda: f"lines {sorted(map(sorted, (got - el)))} extra, {sorted(map(sorted, (el - got)))} missing")
    if given is not None:
        mon.close(C, given, "connectivity:given", 0.0, "given centres")
    else:
        cc = []
        mm = m.copy()
        mm.clear_data()
        V = np.asarray(mm.cell_centers().points, dtype=float)
        ok = np.array([c.type not in (0, int(T.POLYHEDRON)) for c in cells])
        if ok.all():
            mon.close(C, V, "connectivity:centers", 1e-6 * (1 + ref.scale(V)), "cell centres")
        else:
            j = np.flatnonzero(ok)
            mon.check(len(C) == n, "connectivity:centers", lambda: f"{len(C)} points for {n} cells")
            if (np.array([c.type for c in cells]) != 0).all():
                mon.close(C[j], V[j], "connectivity:centers", 1e-6 * (1 + ref.scale(V)), "cell centres")
    if hidden.any():
        notes.add("ran:hidden")
        notes.add("ran:hidden-" + ("unstructured" if isinstance(m, pv.UnstructuredGrid) else "structured"))
        if not rm:
            notes.add("ran:keepghost")
    ty = {c.type for c in cells}
    if int(T.POLYHEDRON) in ty:
        notes.add("ran:polyhedron")
    if len(ty - {0}) > 1:
        notes.add("ran:mixed")
    if n == 1:
        notes.add("ran:single")
    if int(T.VOXEL) in ty or kind in ("image", "rect") and dim == 3:
        notes.add("ran:voxel")
    if int(T.PIXEL) in ty:
        notes.add("ran:pixel")
    for x in notes:
        mon.check(True, x)
