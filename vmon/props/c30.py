"""C30 example meshes: geometry, groups and layers follow their recipes, on every call."""
import collections

import numpy as np
import pyvista as pv

from .. import gen, ref

BIG = False
QUICK, THOROUGH = 480, 4800
REQUIRED = {
    "load", "stadium:volume", "stadium:closed", "concave:volume", "anticline:points", "anticline:hidden", "anticline:groups", "anticline:layers",
    "well:area", "well:groups", "well:edges", "well:volume", "well:top", "well:voronoi", "terrain:points", "terrain:hidden", "fresh",
}
RULE = (
    "Every loader of the example meshes, in random order and repeatedly, earlier results overwritten in between; half stadiums of any resolution; the terrain "
    "download is replaced by random height maps (flat, zero and rough zones). Points, volumes, areas per group, hidden cells and layer numbers are computed "
    "from the recipes' formulas. Non-trivial: distinct (loader, parameters, order)."
)


def closed_volume(mesh, mon, tag):
    P = ref.points_of(mesh)
    vols = []
    for c in ref.cells_of(mesh):
        e = collections.Counter()
        fl = [[int(x) for x in f] for f in c.face_list()]
        for f in fl:
            for a, b in zip(f, f[1:] + f[:1]):
                e[(a, b)] += 1
        mon.check(all(k == 1 and e.get((b, a)) == 1 for (a, b), k in e.items()), tag, "faces do not form a closed, consistently oriented surface")
        vols.append(ref.polyhedron_volume(P, fl))
    return np.array(vols)


def ngon(r, n=32):
    return 0.5 * n * r * r * np.sin(2 * np.pi / n)


def stadium(pvg, mon, rng):
    r = int(rng.integers(1, 40)) if rng.random() < 0.9 else int(rng.integers(40, 400))
    m = mon.call("load", pvg.examples.load_half_stadium, r) if r != 16 or rng.random() < 0.5 else mon.call("load", pvg.examples.load_half_stadium)
    v = closed_volume(m, mon, "stadium:closed")
    mon.check(len(v) == 1 and ref.cells_of(m)[0].type == pv.CellType.POLYHEDRON, "stadium:volume", "one polyhedron expected")
    nf = len(ref.cells_of(m)[0].face_list())
    mon.check(nf == r + 5, "stadium:volume", lambda: f"{nf} faces for resolution {r}")
    mon.close(v[0], 2.0 + 0.5 * r * np.sin(np.pi / r), "stadium:volume", 1e-6, f"volume for resolution {r}")
    return m, r


def concave(pvg, mon, rng):
    m = mon.call("load", pvg.examples.load_concave_polyhedron)
    v = closed_volume(m, mon, "stadium:closed")
    mon.check(len(v) == 1 and abs(v[0] - 11.0) < 1e-6, "concave:volume", lambda: f"volumes {v.tolist()} instead of 11")
    return m, 0


def anticline(pvg, mon, rng):
    three = bool(rng.random() < 0.4)
    m = mon.call("load", pvg.examples.load_anticline_3d if three else pvg.examples.load_anticline_2d)
    x = np.linspace(-3.14, 3.14, 42)
    z = [np.zeros(42)]
    lay = [np.cos(x) + 1.0] + [np.cos(x) + 1.0 + 0.5 * k for k in (1, 2, 3)] + [np.full(42, 3.4)]
    lay[3] = np.minimum(lay[3], 3.4)  # cut by the top
    item = []
    for k, (n, top) in enumerate(zip([4, 2, 2, 2, 4], lay)):
        b = z[-1]
        z += [b + (top - b) * i / n for i in range(1, n + 1)]
        item += [k] * n
    z = np.array(z)  # 15 x 42
    P = ref.points_of(m)
    ny = 11 if three else 1
    mon.check(isinstance(m, pv.StructuredGrid) and tuple(m.dimensions) == (42, ny, 15), "anticline:points", lambda: f"dimensions {tuple(m.dimensions)}")
    P = P.reshape((42, ny, 15, 3), order="F")
    E = np.empty((42, ny, 15, 3))
    E[..., 0] = x[:, None, None]
    E[..., 1] = np.linspace(0, 6.28, 11)[None, :, None] if three else 0.0
    E[..., 2] = z.T[:, None, :]
    d = np.abs(P - E).max()
    mon.check(d < 2e-6, "anticline:points", lambda: f"points differ by {d:g} from the layers' formulas")
    nc = (41, max(ny - 1, 1), 14)
    g = np.asarray(pvg.get_cell_group(m)).reshape(nc, order="F")
    s = np.asarray(m.cell_data["StackItem"]).reshape(nc, order="F")
    want = np.array([f"Layer {k + 1}" for k in item])
    mon.check((g == want[None, None, :]).all(), "anticline:groups", "groups of the layers")
    mon.check((s == np.array(item)[None, None, :]).all(), "anticline:layers", "item numbers of the layers")
    L = np.asarray(m.cell_data["LayerId"]).reshape(nc, order="F")
    c = np.asarray(m.cell_data["ColumnId"]).reshape(nc, order="F")
    if three:
        mon.check((L == np.arange(10)[None, :, None]).all() and (np.asarray(m.cell_data["ExtrudeItem"]) == 0).all(), "anticline:layers", "numbers of the extruded slices")
        mon.check(all(len(set(c[i, :, k])) == 1 for i in range(41) for k in range(14)), "anticline:layers", "columns run along the extrusion")
    else:
        mon.check((L == np.arange(14)[None, None, :]).all() and (c == np.arange(41)[:, None, None]).all(), "anticline:layers", "layer or column numbers")
    h = np.asarray(m.cell_data["vtkGhostType"]).reshape(nc, order="F") if "vtkGhostType" in m.cell_data else np.zeros(nc)
    flat = (np.abs(np.diff(z, axis=0)) < 1e-9).T  # 42 x 14
    flat = flat[:-1] & flat[1:]
    mon.check(((h & 32 != 0) == flat[:, None, :]).all(), "anticline:hidden", lambda: f"{int((h != 0).sum())} hidden cells, {int(flat.sum() * nc[1])} expected")
    return m, three


WELL = collections.Counter({"Core": 64, "Casing": 32, "Cement": 128, "Matrix": 480})


def well(pvg, mon, rng):
    vor, three = bool(rng.random() < 0.4), bool(rng.random() < 0.4)
    m = mon.call("load", pvg.examples.load_well_3d if three else pvg.examples.load_well_2d, *([True] if vor else []))
    P = ref.points_of(m)
    g = np.asarray(pvg.get_cell_group(m))
    cells = ref.cells_of(m)
    if three:
        z = np.array([P[c.ids][:, 2].mean() for c in cells])
        a = np.array([abs(ref.polyhedron_volume(P, [[int(x) for x in f] for f in c.face_list()])) for c in cells])
        up = z > 0
        mon.check((~up).sum() == 7040 and up.sum() == 288 and set(g[up]) == {"Core", "Casing"}, "well:top", lambda: f"{int(up.sum())} cells above ground in {sorted(set(g[up]))}")
        zs = np.unique(np.round(P[:, 2], 5))
        mon.check(len(zs) == 14 and np.abs(zs - np.append(np.linspace(-30, 0, 11), [1, 2, 3])).max() < 1e-4, "well:top", lambda: f"levels {zs.tolist()}")
        lay = np.asarray(m.cell_data["LayerId"])
        lev = np.append(np.linspace(-28.5, -1.5, 10), [0.5, 1.5, 2.5])
        mon.check(np.abs(z - lev[lay]).max() < 1e-4, "well:top", "layer numbers")
        n = collections.Counter(g[~up])
        mon.check(n == collections.Counter({k: 10 * v for k, v in WELL.items()}), "well:groups", lambda: f"cells per group below ground {dict(n)}")
        mon.close(a[~up].sum(), 12000.0, "well:volume", 1.0, "volume below ground")
        area = {k: a[~up & (g == k)].sum() / 30.0 for k in WELL}
        top = {k: a[up & (g == k)].sum() / 3.0 for k in ("Core", "Casing")}
        mon.check(all(abs(top[k] - area[k]) < 1e-4 for k in top), "well:volume", lambda: f"sections {top} above ground, {area} below")
    else:
        a = np.array([abs(ref.signed_area2(P[c.ring()][:, :2])) for c in cells])
        n = collections.Counter(g)
        mon.check(n == WELL, "well:groups", lambda: f"cells per group {dict(n)}")
        mon.close(a.sum(), 400.0, "well:area", 0.05, "area")
        area = {k: a[g == k].sum() for k in WELL}
        if not vor:
            e = collections.Counter(frozenset(x) for c in cells for r in [[int(i) for i in c.ring()]] for x in zip(r, r[1:] + r[:1]))
            L = sum(np.linalg.norm(np.subtract(*P[list(x)])) for x, k in e.items() if k == 1)
            mon.check(max(e.values()) == 2 and abs(L - 80) < 1e-3, "well:edges", lambda: f"edges of one cell sum to {L:g} instead of 80")
    if not vor:
        want = {"Core": ngon(0.34), "Casing": ngon(0.445) - ngon(0.34), "Cement": ngon(1.0) - ngon(0.445), "Matrix": 400 - ngon(1.0)}
        d = {k: abs(area[k] - want[k]) for k in want}
        mon.check(max(d.values()) < 1e-3, "well:area", lambda: f"sections {area}, expected {want}")
    else:
        # core boundary lies half way between the centres on both sides of 0.34
        r = np.hypot(m.cell_data["X"], m.cell_data["Y"])
        k = g == "Core"
        mon.check(r[k].max() < 0.34 and r[g == "Casing"].min() > 0.33 and r[g == "Casing"].max() < 0.445 and r[g == "Matrix"].min() > 0.98, "well:voronoi", "groups of the Voronoi points")
    return m, (vor, three)


def terrain(pvg, mon, rng):
    kind = gen.choice(rng, ["rough", "zero", "flat"])
    nx, ny = int(rng.integers(901, 960)), int(rng.integers(801, 860))
    im = pv.ImageData(dimensions=(nx, ny, 1), spacing=(*(rng.integers(2, 160, 2) / 4.0), 1.0), origin=(*rng.integers(-1000, 1000, 2), 0.0))  # exact in single precision
    X, Y = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    H = 500 + 300 * np.sin(X / rng.uniform(30, 90)) * np.cos(Y / rng.uniform(30, 90))
    if kind == "rough":
        H = H + rng.uniform(0, 100, H.shape)
    elif kind == "zero":
        H = np.where((X - 700) ** 2 + (Y - 600) ** 2 < rng.uniform(20, 150) ** 2, 0.0, H)
    else:
        H = np.full(H.shape, float(rng.uniform(1, 1e3)))
    H = H.astype(gen.choice(rng, [np.float32, np.float64, np.int16]))
    im.point_data["scalar1of1"] = H.ravel(order="F")
    keep = im.copy()
    old = pv.examples.download_crater_topo
    pv.examples.download_crater_topo = lambda *a, **k: im
    try:
        m = mon.call("load", pvg.examples.load_topographic_terrain)
    finally:
        pv.examples.download_crater_topo = old
    mon.check(np.array_equal(im.point_data["scalar1of1"], keep.point_data["scalar1of1"]) and im.dimensions == keep.dimensions, "fresh", "the downloaded data is modified")
    h = H[500:901:10, 400:801:10].astype(float)
    t = np.log10(np.linspace(1, 10, 11))
    mon.check(isinstance(m, pv.StructuredGrid) and tuple(m.dimensions) == (41, 41, 11), "terrain:points", lambda: f"dimensions {tuple(m.dimensions)}")
    P = ref.points_of(m).reshape((41, 41, 11, 3), order="F")
    x = im.origin[0] + im.spacing[0] * np.arange(500, 901, 10)
    y = im.origin[1] + im.spacing[1] * np.arange(400, 801, 10)
    d = max(np.abs(P[..., 0] - x[:, None, None]).max(), np.abs(P[..., 1] - y[None, :, None]).max())
    mon.check(d < 1e-6 * (abs(x).max() + abs(y).max()), "terrain:points", lambda: f"horizontal coordinates differ by {d:g}")
    dz = np.abs(P[..., 2] - h[:, :, None] * t).max()
    mon.check(dz < 1e-3, "terrain:points", lambda: f"heights differ by {dz:g} from the terrain")
    z = h == 0
    z = z[:-1, :-1] & z[1:, :-1] & z[:-1, 1:] & z[1:, 1:]
    g = np.asarray(m.cell_data["vtkGhostType"]).reshape((40, 40, 10), order="F") if "vtkGhostType" in m.cell_data else np.zeros((40, 40, 10), int)
    mon.check(((g & 32 != 0) == z[:, :, None]).all(), "terrain:hidden", lambda: f"{int((g != 0).sum())} hidden cells, {int(z.sum()) * 10} expected")
    return m, (kind, nx, ny)


def run_case(pvg, mon, rng, index, tier):
    order = []
    first = {}
    for k in range(int(rng.integers(2, 5))):
        f = [stadium, concave, anticline, well, terrain][int(rng.choice(5, p=[0.3, 0.1, 0.25, 0.25, 0.1]))]
        mon.scenario(loader=f.__name__, order=[str(o) for o in order])
        m, arg = f(pvg, mon, rng)
        order.append((f.__name__, arg))
        key = (f.__name__, str(arg))
        if f is not terrain:
            now = (np.array(m.points), {k: np.array(v) for k, v in m.cell_data.items()}, [c.ids.tolist() for c in ref.cells_of(m)])
            if key in first:
                a = first[key]
                mon.check(np.array_equal(a[0], now[0]) and set(a[1]) == set(now[1]) and all(np.array_equal(a[1][k], now[1][k]) for k in a[1]) and a[2] == now[2], "fresh", lambda: f"{key} differs from the first one loaded")
            first[key] = now
        # the caller owns the result
        m.points[:] = rng.normal(size=m.points.shape)
        for k in list(m.cell_data):
            m.cell_data[k][:] = 0
        m.user_dict["CellGroup"] = {"x": 0}
    mon.scenario(order=[str(o) for o in order])
