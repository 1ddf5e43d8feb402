"""C02 exactly the collapsed cells are hidden."""
import numpy as np
import pyvista as pv

from .. import gen, ref, stackmodel as sm

QUICK, THOROUGH = 7200, 40000
REQUIRED = {"generate", "ghost:collapsed", "ghost:visible", "ghost:none", "direct:collapsed", "direct:visible", "wide:flag"}
RULE = (
    "Stack histories whose items are pinched out on part of the columns (gap exactly zero) or thinned to 1e-3, and "
    "direct sweeps between two lines or surfaces with random coincident points, at unit and projected coordinates; the "
    "hidden flag of every cell is compared with the model. Non-trivial: distinct scenario."
)


def direct(pvg, mon, rng):
    """StructuredSurface / Volume with some coincident end points."""
    off = gen.offsets(rng)
    res, meth = gen.resolution(rng)
    perc = ref.percent(res, meth)
    # model units from millimetres to hundreds of kilometres
    sc = 10.0 ** rng.uniform(-3, 0) if rng.random() < 0.5 else 1.0
    off = off if sc == 1.0 else np.zeros(3)
    lo = max(1e-3, 1e-5 / sc) * sc
    if rng.random() < 0.35:
        n = int(rng.integers(2, 7))
        plane = gen.choice(rng, ["xy", "yx", "xz", "zx", "yz", "zy"])
        a = np.zeros((n, 3)) + off
        u, v = "xyz".index(plane[0]), "xyz".index(plane[1])
        if plane in ("yx", "zx", "zy"):
            u, v = v, u
        a[:, u] += gen.ticks(rng, n - 1) * sc
        gap = np.where(rng.random(n) < 0.5, 0.0, rng.uniform(lo, sc, n))
        b = a.copy()
        b[:, v] += gap
        gap = np.abs(b[:, v] - a[:, v])
        la, lb = (gen.line_mesh(rng, a, True), gen.line_mesh(rng, b, True)) if rng.random() < 0.5 else (a, b)
        mon.scenario(kind="surface", plane=plane, n=n, gap=gap, res=res, meth=meth, off=off, sc=sc)
        mesh = mon.call("generate", pvg.StructuredSurface, la, lb, plane=plane, resolution=res, method=meth)
        cells = [ref.Cell(3, [k, k + 1]) for k in range(n - 1)]
    else:
        axis = int(rng.integers(3))
        kind, s = gen.surface(rng, axis, off, ["struct", "unstr", "unstr", "image"])
        if s.points.dtype == np.float32 and ref.scale(off) > 1e4:
            kind, s = gen.surface(rng, axis, np.zeros(3), ["struct", "unstr"])
        if kind == "image":
            s = s.cast_to_structured_grid()
        s = s.copy()
        s.points = np.array(s.points, dtype=float) * sc
        if rng.random() < 0.5:
            s.points[:, axis] += 0.3 * sc * np.sin(np.arange(s.n_points) * 1.7)
        t = s.copy()
        gap = np.where(rng.random(s.n_points) < 0.6, 0.0, rng.uniform(lo, sc, s.n_points))
        if rng.random() < 0.3:
            gap[rng.random(s.n_points) < 0.3] *= -1.0
        d = np.zeros(3)
        d[axis] = 1.0
        if rng.random() < 0.3:
            d += rng.uniform(-0.3, 0.3, 3)
        t.points = s.points + gap[:, None] * d
        gap = np.linalg.norm(t.points - s.points, axis=1)
        mon.scenario(kind="volume", base=kind, axis=axis, gap=gap, res=res, meth=meth, off=off, sc=sc, n=s.n_cells)
        mesh = mon.call("generate", pvg.Volume, s, t, resolution=res, method=meth)
        cells = ref.cells_of(s)
        a, b = ref.points_of(s), ref.points_of(t)
    sw = sm.Sweep(cells, [(a, b)], [perc], None, {}, {})
    sw.prepare(ref.tol_for(a))
    # cells are identified by their geometry; ambiguous keys (shared by several cells) need only agree as a multiset
    lab, bad = sw.lab.label(ref.points_of(mesh))
    mon.check(lab is not None, "direct:points", lambda: f"unexpected point {bad}")
    g = np.asarray(mesh.cell_data["vtkGhostType"]) if "vtkGhostType" in mesh.cell_data else np.zeros(mesh.n_cells)
    import collections

    want = collections.defaultdict(collections.Counter)
    for k, key in sw.keys.items():
        want[key]["?" if sw.ambiguous[k] else sw.collapsed[k]] += 1
    got = collections.defaultdict(collections.Counter)
    for i, c in enumerate(ref.cells_of(mesh)):
        mon.check(g[i] in (0, 32), "direct:flag", lambda: f"flag {g[i]}")
        got[sm.cell_key(c, lab)][bool(g[i] == 32)] += 1
    for key, w in want.items():
        if w["?"]:
            continue
        tag = "direct:collapsed" if w[True] else "direct:visible"
        mon.check(
            got[key][True] == w[True] and got[key][False] == w[False],
            tag,
            lambda: f"cell with key {key} hidden {dict(got[key])}, expected collapsed {dict(w)}",
        )


def wide(pvg, mon, rng):
    """A few collapsed cells among hundreds."""
    gap = {}
    layers = int(rng.integers(1, 4))
    if rng.random() < 0.5:
        n = int(rng.integers(110, 320))
        t = gen.ticks(rng, n - 1)
        z = np.ones(n)
        for _ in range(int(rng.integers(1, 3))):
            k = int(rng.integers(n - 1))
            z[k : k + int(rng.integers(2, 4))] = 0.0
        base = gen.line_mesh(rng, np.column_stack((t, 0 * t, 0 * t)), True)
        top = gen.line_mesh(rng, np.column_stack((t, 0 * t, z)), True)
        cls, shape = pvg.MeshStack2D, (n,)
        flat = (z[:-1] == 0) & (z[1:] == 0)
        cen = 0.5 * (t[:-1] + t[1:])
        where = lambda c: int(np.abs(cen - c[0]).argmin())
    else:
        nx, ny = int(rng.integers(12, 20)), int(rng.integers(12, 20))
        x, y = gen.ticks(rng, nx - 1), gen.ticks(rng, ny - 1)
        X, Y = np.meshgrid(x, y, indexing="ij")
        z = np.ones((nx, ny))
        for _ in range(int(rng.integers(1, 3))):
            i, j = int(rng.integers(nx - 1)), int(rng.integers(ny - 1))
            z[i : i + 2, j : j + 2] = 0.0
        base = pv.StructuredGrid(X[..., None], Y[..., None], 0 * X[..., None])
        top = pv.StructuredGrid(X[..., None], Y[..., None], z[..., None])
        if rng.random() < 0.5:
            base, top = base.cast_to_unstructured_grid(), top.cast_to_unstructured_grid()
        cls, shape = pvg.MeshStack3D, (nx, ny)
        flat = ((z[:-1, :-1] == 0) & (z[1:, :-1] == 0) & (z[:-1, 1:] == 0) & (z[1:, 1:] == 0)).ravel()
        cx, cy = 0.5 * (x[:-1] + x[1:]), 0.5 * (y[:-1] + y[1:])
        where = lambda c: int(np.abs(cx - c[0]).argmin()) * (ny - 1) + int(np.abs(cy - c[1]).argmin())
    mon.scenario(kind="wide", shape=shape, flat=np.flatnonzero(flat), layers=layers)

    def go():
        b = cls(base)
        b.add(base.copy())
        b.add(top, layers)
        return b.generate_mesh()

    mesh = mon.call("generate", go)
    mon.check(mesh.n_cells == layers * flat.size, "wide:count", lambda: f"{mesh.n_cells} cells instead of {layers * flat.size}")
    g = np.asarray(mesh.cell_data["vtkGhostType"]) if "vtkGhostType" in mesh.cell_data else np.zeros(mesh.n_cells, dtype=int)
    P = ref.points_of(mesh)
    for i, c in enumerate(ref.cells_of(mesh)):
        want = flat[where(P[c.ids].mean(axis=0))]
        mon.check((g[i] == 32) == want and g[i] in (0, 32), "wide:flag", lambda: f"cell {i} of {mesh.n_cells} flagged {g[i]}, collapsed: {bool(want)}")


def run_case(pvg, mon, rng, index, tier):
    if rng.random() < 0.02:
        return wide(pvg, mon, rng)
    if rng.random() < 0.4:
        direct(pvg, mon, rng)
        return
    cs = sm.make_stack(rng, pvg, groups=False, data=False, thin=rng.random() < 0.6)
    mon.scenario(**cs.desc())
    mesh = mon.call("generate", lambda: cs.build().generate_mesh())
    sm.finish(cs, mesh)
    cs.sweep.o_ghost(mon, mesh, "StackItem")
