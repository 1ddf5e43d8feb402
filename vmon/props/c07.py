"""C07 merging loses, duplicates or distorts no cell."""
import collections

import numpy as np
import pyvista as pv

from .. import gen, ref, stackmodel as sm

T = pv.CellType
QUICK, THOROUGH = 6400, 40000
REQUIRED = {
    "merge", "cells:count", "cells:union", "data:common", "data:value", "points:distinct", "struct:shape", "struct:cells", "struct:data",
    "refuse:no-axis", "refuse:mismatch", "refuse:one-coordinate", "ran:mergepoints", "ran:merger", "ran:function", "ran:3d", "ran:1d", "ran:types",
}
RULE = (
    "Random lists of meshes (1D, 2D, 3D, all dataset classes, overlapping data arrays, shared interfaces) merged by the "
    "function and the merger, and structured grids cut along an axis and merged back; cells compared as multisets of "
    "located corner rings/faces with their data. Non-trivial: distinct scenario."
)


def some_mesh(rng, k, block):
    """Mesh in block k of a unit-ish lattice so that different meshes share interfaces but do not overlap."""
    kind = gen.choice(rng, ["surface", "surface", "volume", "line", "poly"])
    off = np.array([3.0 * block[0], 3.0 * block[1], 3.0 * block[2]])
    n = int(rng.integers(1, 4))
    t = np.linspace(0, 3, n + 1)
    if kind == "surface":
        c = gen.choice(rng, ["image", "rect", "struct", "unstr"])
        if c == "image":
            m = pv.ImageData(dimensions=(n + 1, n + 1, 1), spacing=(3 / n, 3 / n, 1), origin=off)
        elif c == "rect":
            m = pv.RectilinearGrid(t + off[0], t + off[1], [off[2]])
        else:
            m = pv.StructuredGrid(*np.meshgrid(t + off[0], t + off[1], [off[2]], indexing="ij"))
            if c == "unstr":
                m = m.cast_to_unstructured_grid()
                if rng.random() < 0.5:
                    m = m.triangulate()
    elif kind == "volume":
        c = gen.choice(rng, ["image", "struct", "cells"])
        if c == "image":
            m = pv.ImageData(dimensions=(n + 1, 2, n + 1), spacing=(3 / n, 3, 3 / n), origin=off)
        elif c == "struct":
            m = pv.StructuredGrid(*np.meshgrid(t + off[0], t + off[1], t + off[2], indexing="ij"))
        else:
            m = gen.box_volume_cells(rng)
            b = m.bounds
            m.points = (np.array(m.points) - [b[0], b[2], b[4]]) / [b[1] - b[0], b[3] - b[2], b[5] - b[4]] * 3.0 + off
    elif kind == "line":
        p = np.column_stack((t, t * 0, t * 0)) + off
        m = gen.line_mesh(rng, p)
        c = "line"
    else:
        p = np.array([[0, 0, 0], [3, 0, 0], [3, 3, 0], [1, 1, 0], [0, 3, 0]], dtype=float) + off
        m = pv.PolyData(p, faces=[5, 0, 1, 2, 3, 4])
        c = "polydata"
    return f"{kind}-{c}", m


def corner_key(c, lab):
    d = ref.DIM[c.type]
    if d == 1:
        q = [int(x) for x in lab[c.ids]]
        return (c.type, min(tuple(q), tuple(q[::-1])))
    return (c.type, sm.cell_key(c, lab))


def norm_type(m):
    """Types after conversion to an unstructured grid."""
    return m.cast_to_unstructured_grid() if not isinstance(m, pv.UnstructuredGrid) else m


def free_case(pvg, mon, rng):
    n = int(rng.integers(2, 6))
    merger = rng.random() < 0.5
    blocks = set()
    while len(blocks) < n:
        blocks.add(tuple(int(x) for x in rng.integers(0, 3, 3)))
    blocks = [list(b) for b in sorted(blocks)]
    rng.shuffle(blocks)
    parts = []
    names = ["a", "b", "v"]
    for k in range(n):
        kind, m = some_mesh(rng, k, blocks[k])
        for nm in names:
            if nm == "a" or rng.random() < 0.7:
                m.cell_data[nm] = rng.normal(size=(m.n_cells, 3)) if nm == "v" else rng.integers(0, 1000, m.n_cells) if nm == "a" else rng.uniform(0, 1, m.n_cells)
        parts.append((kind, m))
    structured_all = all(isinstance(m, pv.StructuredGrid) for _, m in parts)
    if structured_all and not merger:
        parts[0] = (parts[0][0], parts[0][1].cast_to_unstructured_grid())
    mp = gen.choice(rng, [None, True, False])
    main_has = gen.choice(rng, ["list", "tuple"])
    mon.scenario(merger=merger, parts=[(k, m.n_cells, b) for (k, m), b in zip(parts, blocks)], merge_points=mp, a=parts[0][1].cell_data["a"])
    ms = [m.copy() for _, m in parts]
    if merger:
        def go():
            b = pvg.MeshMerge()
            for m in ms:
                b.add(m)
            return b.generate_mesh()
        mon.check(True, "ran:merger")
        distinct = True
    else:
        kw = {} if mp is None else {"merge_points": mp}
        def go():
            return pvg.merge(tuple(ms) if main_has == "tuple" else ms, **kw)
        mon.check(True, "ran:function")
        import inspect

        default = inspect.signature(pvg.merge).parameters["merge_points"].default
        distinct = mp if mp is not None else bool(default)
    mesh = mon.call("merge", go)
    got = ref.cells_of(mesh)
    P = ref.points_of(mesh)
    exp = collections.defaultdict(list)
    us = [norm_type(m) for _, m in parts]
    lb = sm.Labeler(np.vstack([ref.points_of(u) for u in us]), 2e-5)
    for k, u in enumerate(us):
        PP, _ = lb.label(ref.points_of(u))
        for i, c in enumerate(ref.cells_of(u)):
            exp[corner_key(c, PP)].append((k, i))
    L, bad = lb.label(P)
    mon.check(L is not None, "cells:points", lambda: f"point {bad[0]} of the result is {bad[1]:g} away from every input point")
    ntot = sum(map(len, exp.values()))
    mon.check(len(got) == ntot, "cells:count", lambda: f"{len(got)} cells, inputs have {ntot}")
    g = collections.Counter(corner_key(c, L) for c in got)
    e = collections.Counter({k: len(v) for k, v in exp.items()})
    mon.check(g == e, "cells:union", lambda: f"{sum((e - g).values())} input cells missing, {sum((g - e).values())} new cells")
    common = set(names)
    for _, m in parts:
        common &= set(m.cell_data.keys())
    for nm in common:
        mon.check(nm in mesh.cell_data, "data:common", f"common array '{nm}' lost")
        arr = np.asarray(mesh.cell_data[nm])
        left = {k: list(v) for k, v in exp.items()}
        for i, c in enumerate(got):
            key = corner_key(c, L)
            hit = [x for x in left[key] if (np.asarray(parts[x[0]][1].cell_data[nm])[x[1]] == arr[i]).all()]
            mon.check(hit, "data:value", lambda: f"'{nm}' of cell {i} is {arr[i]}")
            left[key].remove(hit[0])
    if distinct:
        from scipy.spatial import KDTree

        mon.check(not KDTree(P).query_pairs(1e-9), "points:distinct", "coincident points left")
        if not merger:
            mon.check(True, "ran:mergepoints")
    dims = {ref.DIM[c.type] for c in got}
    for d in dims:
        mon.check(True, f"ran:{d}d")


def struct_case(pvg, mon, rng):
    two = rng.random() < 0.5
    if two:
        flat = int(rng.integers(3))
        full = gen.structured_surface(rng, flat, int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    else:
        full = gen.structured_volume(rng)
    full.points = np.array(full.points, dtype=float) + gen.offsets(rng)
    dims = full.dimensions
    axes = [k for k in range(3) if dims[k] > 2]
    if not axes:
        from ..core import Skip

        raise Skip("nothing to cut")
    axis = int(gen.choice(rng, axes))
    cuts = sorted(set(int(x) for x in rng.integers(1, dims[axis] - 1, int(rng.integers(1, 3)))))
    bounds = [0, *cuts, dims[axis] - 1]
    full.cell_data["a"] = np.arange(full.n_cells)
    full.cell_data["b"] = rng.uniform(0, 1, full.n_cells)
    full.cell_data["v"] = rng.normal(size=(full.n_cells, 3))
    pts = np.asarray(full.points).reshape((*dims, 3), order="F")
    cd = [max(1, d - 1) for d in dims]
    parts = []
    for a, b in zip(bounds[:-1], bounds[1:]):
        sl = [slice(None)] * 3
        sl[axis] = slice(a, b + 1)
        p = pts[tuple(sl)]
        m = pv.StructuredGrid(p[..., 0].copy(), p[..., 1].copy(), p[..., 2].copy())
        sl[axis] = slice(a, b)
        ids = np.arange(full.n_cells).reshape(cd, order="F")[tuple(sl)].ravel(order="F")
        for k in ("a", "b", "v"):
            m.cell_data[k] = np.asarray(full.cell_data[k])[ids]
        parts.append(m)
    if rng.random() < 0.3:
        # the same quantity stored as another type of number
        x = parts[int(rng.integers(len(parts)))]
        x.cell_data["a"] = np.asarray(x.cell_data["a"]).astype(gen.choice(rng, ["int32", "float64", "int16"]))
        mon.check(True, "ran:types")
    drop = rng.random() < 0.2
    if drop:
        parts[-1].cell_data.pop("b")
    mon.scenario(dims=dims, axis=axis, cuts=cuts, drop=drop, p=np.asarray(full.points)[:3])
    mesh = mon.call("merge", pvg.merge, [m.copy() for m in parts], axis=axis)
    mon.check(isinstance(mesh, pv.StructuredGrid) and tuple(mesh.dimensions) == tuple(dims), "struct:shape", lambda: f"{type(mesh).__name__} {getattr(mesh, 'dimensions', None)}, expected {dims}")
    mon.close(np.asarray(mesh.points), np.asarray(full.points), "struct:cells", ref.tol_for(full), "points")
    for k in ("a", "b", "v"):
        if k == "b" and drop:
            mon.check("b" not in mesh.cell_data or len(mesh.cell_data["b"]) == mesh.n_cells, "struct:drop")
            continue
        mon.check(k in mesh.cell_data, "struct:kept", f"cell data {k} lost")
        mon.same(np.asarray(mesh.cell_data[k]), np.asarray(full.cell_data[k]), "struct:data", f"cell data {k}")
    mon.refuses("refuse:no-axis", pvg.merge, [m.copy() for m in parts])
    bad = [m.copy() for m in parts]
    k = int(rng.integers(1, len(bad)))
    bad[k].points = np.array(bad[k].points) + rng.uniform(0.2, 1, 3)
    mon.refuses("refuse:mismatch", pvg.merge, bad, axis=axis)
    # one coordinate of one interface point off by a fraction of a cell, which is much less than the distance to the origin
    bad = [m.copy() for m in parts]
    k = int(rng.integers(1, len(bad)))
    q = np.array(bad[k].points).reshape((*bad[k].dimensions, 3), order="F")
    ix = [int(rng.integers(d)) for d in bad[k].dimensions]
    ix[axis] = 0
    co = int(rng.integers(3))
    span = max(1e-3, np.ptp(np.asarray(full.points), axis=0).max())
    q[tuple(ix) + (co,)] += gen.choice(rng, [-1, 1]) * rng.uniform(0.05, 0.3) * span
    bad[k].points = q.reshape((-1, 3), order="F")
    mon.refuses("refuse:one-coordinate", pvg.merge, bad, axis=axis)
    other = [x for x in range(3) if x != axis and dims[x] > 1]
    if other and len(set(np.diff(bounds))) >= 1:
        # interfaces along another axis do not match either
        mon.refuses("refuse:mismatch", pvg.merge, [m.copy() for m in parts], axis=int(gen.choice(rng, other)))


def run_case(pvg, mon, rng, index, tier):
    if rng.random() < 0.4:
        struct_case(pvg, mon, rng)
    else:
        free_case(pvg, mon, rng)
