"""C27 refusals: impossible requests made at random points of valid histories."""
import numpy as np
import pyvista as pv

from .. import core, gen, meshes, replay

QUICK, THOROUGH = 9600, 60000
BUILD = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c28"]
RULE = (
    "Each case makes one impossible request, drawn from a catalogue of families, with random otherwise valid arguments: it must raise. Builder histories of C01-C09 are also repeated "
    "with refused requests (bad arrays, vectors, radii, non-covering datasets, failing callables, malformed lines) inserted before and after every addition: the meshes generated must be "
    "identical, bit for bit, to those of the undisturbed history. Non-trivial: distinct scenario."
)


class H:
    mode = "off"
    depth = 0
    rng = None
    log = None
    bad = None
    count = 0


def inner(fn, a, k):
    H.depth += 1
    try:
        return fn(*a, **k)
    finally:
        H.depth -= 1


class Boom(Exception):
    pass


def boom(*a):
    raise Boom("user function fails")


def bad_points(rng):
    return gen.choice(rng, [np.zeros((3, 4)), np.zeros((4, 1)), np.zeros((2, 2, 3)), np.zeros(4), np.zeros(1), np.float64(3.0), [[0.0, 1.0, 2.0, 3.0]]])


def stack_refusals(rng, b):
    """(what, call) the stack must refuse."""
    P = np.asarray(b.mesh.points, dtype=float)
    ax = b.axis
    n = len(P)
    out = [
        ("callable", lambda: b.add(boom)),
        ("callable-size", lambda: b.add(lambda x, y, z: np.zeros(n + 1 if n > 0 else 2))),
        ("1d-array", lambda: b.add(np.arange(4.0))),
        ("2d-array", lambda: b.add(rng.uniform(0, 1, (5, int(gen.choice(rng, [1, 2, 4])))))),
        ("3d-array", lambda: b.add(rng.uniform(0, 1, (2, 2, 3)))),
    ]
    # points covering only a part of the base
    other = [i for i in range(3) if i != ax and np.ptp(P[:, i]) > 1e-6]
    if other:
        lo, hi = P.min(axis=0), P.max(axis=0)
        k = gen.choice(rng, other)
        m = 8
        Q = rng.uniform(0, 1, (m, 3))
        if len(other) == 2:
            Q[:4, other] = [[0, 0], [0, 1], [1, 0], [1, 1]]
        else:
            Q[:, [i for i in range(3) if i not in (ax, other[0])]] = 0
            Q[:2, other[0]] = [0, 1]
        d = hi - lo
        Q = lo - 0.5 * d + Q * (2 * d)
        f = rng.uniform(0.3, 0.8) if rng.random() < 0.5 else 0.99
        e = lo[k] + f * d[k]
        if rng.random() < 0.5:
            Q[:, k] = lo[k] - d[k] + (Q[:, k] - (lo[k] - 0.5 * d[k])) * (e - lo[k] + d[k]) / (2 * d[k])
            covered = (P[:, k] <= Q[:, k].max()).all()
        else:
            Q[:, k] = e + (Q[:, k] - (lo[k] - 0.5 * d[k])) * 0.5
            covered = (P[:, k] >= Q[:, k].min()).all()
        Q[:, ax] = rng.uniform(0, 1, m)
        if not covered:
            out.append(("not-covering-array", lambda: b.add(Q)))
            out.append(("not-covering-dataset", lambda: b.add(pv.PolyData(Q))))
            if rng.random() < 0.5 and len(other) == 2:
                # every side of the base is within the bounds of the points, corners are not within their hull
                c, h = 0.5 * (lo + hi), 0.75 * d
                u, v = other
                if (np.abs((P[:, u] - c[u]) / h[u]) + np.abs((P[:, v] - c[v]) / h[v])).max() > 1.02:
                    D = np.zeros((5, 3)) + c
                    D[0, u] += h[u]
                    D[1, u] -= h[u]
                    D[2, v] += h[v]
                    D[3, v] -= h[v]
                    D[:, ax] = rng.uniform(0, 1, 5)
                    out.append(("corners-array", lambda: b.add(D)))
                    out.append(("corners-dataset", lambda: b.add(pv.PolyData(D))))
            out.append(("extrapolation-method", lambda: b.add(Q, extrapolation=gen.choice(rng, ["linear", "cubic", "Nearest"]))))
    return out


def refusals(rng, b, pvg):
    name = type(b).__name__
    if name in ("MeshStack2D", "MeshStack3D"):
        return stack_refusals(rng, b)
    if name == "MeshExtrude":
        return [
            ("vector", lambda: b.add(rng.uniform(0, 1, int(gen.choice(rng, [1, 2, 4, 6]))))),
            ("vector-shape", lambda: b.add(rng.uniform(0, 1, gen.choice(rng, [(1, 3), (3, 1), (3, 3)])))),
            ("vector-scalar", lambda: b.add(1.0)),
        ]
    if name == "MeshMerge":
        return [("no-mesh", lambda: b.add(gen.choice(rng, [None, [1.0, 2.0], "mesh"])))]
    r = float(rng.uniform(0.5, 3.0))
    x = rng.uniform(0, 5, (4, 3))
    return [
        ("points", lambda: b.add(bad_points(rng))),
        ("constraint", lambda: b.add_circle(r, constraint_radius=r * float(rng.uniform(0.1, 0.95)))),
        ("radius", lambda: b.add_circle(-r)),
        ("polyline", lambda: b.add_polyline(pv.PolyData(x, lines=[3, 0, 1, 2, 1, 3]), 0.3)),
        ("polyline-points", lambda: b.add_polyline(x[:, :2].ravel(), 0.3)),
        ("polyline-resolution", lambda: b.add_polyline(x, 0.3, resolution=np.zeros((2, 2)))),
        ("center", lambda: b.add_circle(r, center=np.zeros(4))),
    ]


def disturb(b):
    rng = H.rng
    c = refusals(rng, b, None)
    for _ in range(int(rng.integers(1, 3))):
        what, f = gen.choice(rng, c)
        H.depth += 1
        try:
            f()
        except MemoryError:
            raise
        except Exception:
            H.count += 1
        else:
            H.bad = H.bad or f"{type(b).__name__} accepted an impossible addition ({what})"
        finally:
            H.depth -= 1


def hook(name, fn, a, k):
    if H.mode == "off" or H.depth or "." not in name or name.endswith(".__init__"):
        return fn(*a, **k) if H.depth or "." not in name else inner(fn, a, k)
    if name.endswith(".generate_mesh"):
        if H.mode == "disturbed" and H.bad is None and H.rng.random() < 0.5:
            disturb(a[0])
        r = inner(fn, a, k)
        H.log.append(replay.parts(r))
        return r
    # a refusal while a transition is pending leaves it pending
    if H.mode == "disturbed" and H.bad is None and H.rng.random() < 0.6:
        disturb(a[0])
    r = inner(fn, a, k)
    if H.mode == "disturbed" and H.bad is None and H.rng.random() < 0.6:
        disturb(a[0])
    return r


# -- catalogue of single requests ------------------------------------------------


def vol3(rng):
    m = meshes.volume(rng)
    return m[1] if isinstance(m, tuple) else m


def surf(rng, axis=2, kinds=None):
    return gen.surface(rng, axis=axis, kinds=kinds)[1]


def lines2(rng, n):
    return gen.polyline_points(rng, n)


def pair(rng):
    m = surf(rng)
    return m, shifted(m)


def f_lines(pvg, mon, rng):
    n = int(rng.integers(2, 6))
    a, b = rng.uniform(0, 1, (n, 3)), rng.uniform(2, 3, (n + int(rng.integers(1, 3)), 3))
    if rng.random() < 0.5:
        a, b = b, a
    plane = gen.choice(rng, ["xy", "yx", "xz", "zx", "yz", "zy"])
    if rng.random() < 0.5:
        a, b = pv.lines_from_points(a), pv.lines_from_points(b)
    res, met = gen.resolution(rng)
    mon.scenario(n=n, plane=plane, res=res)
    mon.refuses("lines", pvg.StructuredSurface, a, b, plane, res, met)


def f_plane(pvg, mon, rng):
    n = int(rng.integers(2, 6))
    a, b = rng.uniform(0, 1, (n, 3)), rng.uniform(2, 3, (n, 3))
    plane = gen.choice(rng, ["xx", "yy", "zz", "XY", "x", "xyz", "uv", "", "y x"])
    mon.scenario(n=n, plane=plane, a=a)
    mon.refuses("plane", pvg.StructuredSurface, a, b, plane, *gen.resolution(rng))


def f_method(pvg, mon, rng):
    bad = gen.choice(rng, ["linear", "Log", "constant ", "logr", "log-r", "geometric", "r", "log_R"])
    n = int(rng.integers(1, 5))
    f = [
        lambda: pvg.Rectangle(1.0, 2.0, n, 2, bad, None),
        lambda: pvg.Rectangle(1.0, 2.0, 2, n, None, bad),
        lambda: pvg.Square(1.0, n, bad),
        lambda: pvg.Sector(1.0, 0.0, 90.0, n, bad),
        lambda: pvg.Circle(1.0, n + 3, bad),
        lambda: pvg.AnnularSector(0.5, 1.0, 0.0, 90.0, n, 3, bad, None),
        lambda: pvg.AnnularSector(0.5, 1.0, 0.0, 90.0, n, 3, None, bad),
        lambda: pvg.Annulus(0.5, 1.0, n, 6, bad, None),
        lambda: pvg.StructuredSurface(rng.uniform(0, 1, (3, 3)), rng.uniform(2, 3, (3, 3)), "xy", n, bad),
        lambda: pvg.Volume(*pair(rng), n, bad),
        lambda: pvg.MeshExtrude(surf(rng)).add([0, 0, 1.0], n, bad).generate_mesh(),
        lambda: pvg.MeshStack3D(surf(rng)).add(0.0).add(1.0, n, bad).generate_mesh(),
        lambda: pvg.MeshStack2D([0.0, 1.0, 2.0]).add(0.0).add(1.0, n, bad).generate_mesh(),
        lambda: pvg.SectorRectangle(0.5, 1.0, 1.0, n, 2, bad, None),
        lambda: pvg.SectorRectangle(0.5, 1.0, 1.0, 2, n, None, bad),
        lambda: pvg.SquareSector(0.5, 1.0, n, 2, bad, None),
        lambda: pvg.CylindricalShellSector(0.5, 1.0, 0.0, 90.0, 1.0, 2, 2, n, None, None, bad),
        lambda: pvg.RectangleSector(0.5, 0.5, 1.0, 2, 2, n, None, None, bad),
        lambda: pvg.CylindricalShell(0.5, 1.0, 1.0, 2, 6, n, None, None, bad),
    ]
    i = int(rng.integers(len(f)))
    mon.scenario(bad=bad, n=n, i=i)
    mon.refuses("method", f[i])


def f_resolution(pvg, mon, rng):
    bad = gen.choice(rng, [np.zeros((2, 2)), [[0.0, 1.0]], np.ones((1, 1, 1))])
    f = [
        lambda: pvg.Rectangle(1.0, 2.0, bad, 2),
        lambda: pvg.StructuredSurface(rng.uniform(0, 1, (3, 3)), rng.uniform(2, 3, (3, 3)), "xy", bad),
        lambda: pvg.Volume(*pair(rng), bad),
        lambda: pvg.MeshExtrude(surf(rng)).add([0, 0, 1.0], bad).generate_mesh(),
        lambda: pvg.MeshStack3D(surf(rng)).add(0.0).add(1.0, bad).generate_mesh(),
        lambda: pvg.MeshStack2D([0.0, 1.0, 2.0]).add(0.0).add(1.0, bad).generate_mesh(),
    ]
    i = int(rng.integers(len(f)))
    mon.scenario(i=i, bad=bad, r=rng.random())
    mon.refuses("resolution", f[i])


def shifted(m):
    m = m.cast_to_structured_grid() if isinstance(m, (pv.ImageData, pv.RectilinearGrid)) else m.copy()
    m.points = np.asarray(m.points) + [0, 0, 1.5]
    return m


def f_surfaces(pvg, mon, rng):
    k = int(rng.integers(5))
    mon.scenario(k=k, s=rng.random())
    if k == 0:  # different numbers of points
        a, b = gen.structured_surface(rng, nu=2, nv=int(rng.integers(1, 4))), gen.structured_surface(rng, nu=3, nv=int(rng.integers(1, 4)))
    elif k == 1:  # same number of points, other dimensions
        n, m = 1, 2
        a, b = gen.structured_surface(rng, nu=n, nv=m), gen.structured_surface(rng, nu=m, nv=n)
        if rng.random() < 0.5:
            a, b = gen.structured_surface(rng, nu=2, nv=3), gen.structured_surface(rng, nu=1, nv=5)
    elif k == 2:  # structured and unstructured
        a = gen.structured_surface(rng)
        b = a.cast_to_unstructured_grid()
    elif k == 3:  # other cell types
        a = gen.structured_surface(rng).cast_to_unstructured_grid()
        c = np.array(a.celltypes)
        c[int(rng.integers(len(c)))] = 7
        b = pv.UnstructuredGrid(a.cells, c, a.points)
    else:  # other numbers of cells
        a = gen.structured_surface(rng, nu=2, nv=int(rng.integers(1, 3))).cast_to_unstructured_grid()
        q = np.asarray(a.cells).reshape(-1, 5)[: int(rng.integers(1, a.n_cells))]
        b = pv.UnstructuredGrid(q.ravel(), [9] * len(q), a.points)
    b = shifted(b)
    if rng.random() < 0.5:
        a, b = b, a
    mon.refuses("surfaces", pvg.Volume, a, b, *gen.resolution(rng))


def f_celltypes(pvg, mon, rng):
    a = gen.structured_surface(rng).cast_to_unstructured_grid()
    if rng.random() < 0.5:
        a = vol3(rng)
        a = a.cast_to_unstructured_grid()
        a.cell_data.pop("vtkGhostType", None)
    else:
        e = np.asarray(a.cells).reshape(-1, 5)[:, [1, 2]]
        a = pv.UnstructuredGrid(np.insert(e, 0, 2, axis=1).ravel(), [3] * len(e), a.points)
    mon.scenario(n=a.n_cells, t=np.unique(a.celltypes), p=a.points[:1])
    mon.refuses("celltypes", pvg.Volume, a, shifted(a))


def f_volume(pvg, mon, rng):
    a = gen.structured_volume(rng)
    if rng.random() < 0.3:
        p = lines2(rng, 4)
        a = pv.StructuredGrid(*[p[:, i].reshape(-1, 1, 1) for i in range(3)])
    mon.scenario(d=a.dimensions, p=a.points[:1])
    mon.refuses("volume", pvg.Volume, a, shifted(a))


def f_base(pvg, mon, rng):
    what = gen.choice(rng, ["volume", "line", "polydata", "points"])
    vol = vol3(rng) if rng.random() < 0.5 else gen.structured_volume(rng)
    lin = gen.line_mesh(rng, lines2(rng, None))
    k = int(rng.integers(6))
    mon.scenario(k=k, what=what, s=rng.random())
    if k == 0:
        mon.refuses("base:stack3d", pvg.MeshStack3D, gen.choice(rng, [vol, lin, lin.cast_to_unstructured_grid(), surf(rng, kinds=["image"]).cast_to_unstructured_grid().extract_surface()]))
    elif k == 1:
        mon.refuses("base:extrude", pvg.MeshExtrude, gen.choice(rng, [vol, lin, lin.cast_to_unstructured_grid()]))
    elif k == 2:
        mon.refuses("base:stack2d", pvg.MeshStack2D, gen.choice(rng, [vol, surf(rng), lin.cast_to_unstructured_grid(), pv.PolyData(rng.uniform(0, 1, (4, 3))), vol.cast_to_unstructured_grid().extract_surface(), rng.uniform(0, 1, (4, 3))]))
    elif k == 3:
        ax = int(rng.integers(3))
        s = surf(rng, axis=ax, kinds=["image", "rect", "struct"])
        mon.refuses("base:axis", pvg.MeshStack3D, s, (ax + int(rng.integers(1, 3))) % 3)
    elif k == 4:
        mon.refuses("base:axis", pvg.MeshStack3D, surf(rng), gen.choice(rng, [3, -1, 5, None, "z"]))
    else:
        mon.refuses("base:axis", pvg.MeshStack2D, gen.line_mesh(rng, lines2(rng, None)), gen.choice(rng, [3, -1, 5, "z"]))


def f_few(pvg, mon, rng):
    k = int(rng.integers(4))
    mon.scenario(k=k, s=rng.random())
    if k == 0:
        b = pvg.MeshMerge(default_group=gen.choice(rng, [None, "x"]))
    elif k == 1:
        b = pvg.MeshExtrude(surf(rng))
    elif k == 2:
        b = pvg.MeshStack3D(surf(rng))
        if rng.random() < 0.6:
            b.add(float(rng.uniform(-1, 1)))
    else:
        b = pvg.MeshStack2D(gen.line_mesh(rng, np.column_stack((gen.ticks(rng, 3), np.zeros(4), np.zeros(4)))))
        if rng.random() < 0.6:
            b.add(float(rng.uniform(-1, 1)))
    mon.refuses("few-items", b.generate_mesh)


def f_radii(pvg, mon, rng):
    r = float(rng.uniform(0.2, 5))
    s = float(rng.uniform(0.01, 0.99))
    f = [
        lambda: pvg.AnnularSector(r, r * s),
        lambda: pvg.AnnularSector(r, r),
        lambda: pvg.AnnularSector(-r, r),
        lambda: pvg.Annulus(r, r * s, 2, 5),
        lambda: pvg.Annulus(-r * s, r, 2, 5),
        lambda: pvg.Annulus(r, r, 2, 5),
        lambda: pvg.Sector(-r, 0.0, 90.0),
        lambda: pvg.Sector(0.0, 0.0, 90.0),
        lambda: pvg.Circle(-r, 5),
        lambda: pvg.Circle(0.0, 5),
        lambda: pvg.CylindricalShell(r, r * s, 1.0),
        lambda: pvg.CylindricalShell(-r, r, 1.0),
        lambda: pvg.CylindricalShellSector(r, r * s),
        lambda: pvg.RectangleSector(r, r * s, (r**2 + (r * s) ** 2) ** 0.5 * 0.95),
        lambda: pvg.RectangleSector(r, r * s, max(r, r * s) * 1.0001 if s > 0.1 else r * 0.5),
        lambda: pvg.RectangleSector(r, r * s, -2 * r),
        lambda: pvg.RectangleSector(r, r * s, 0.0),
        lambda: pvg.SquareSector(r, r * (1 + 0.4 * s)),
        lambda: pvg.SectorRectangle(r, r * s, 2 * r),
        lambda: pvg.SectorRectangle(r, 2 * r, r * s),
        lambda: pvg.SectorRectangle(r, r, r),
        lambda: pvg.SectorRectangle(0.0, r, r),
        lambda: pvg.SectorRectangle(-r, 2 * r, 2 * r),
        lambda: pvg.SectorSquare(r, r * s),
    ]
    i = int(rng.integers(len(f)))
    mon.scenario(i=i, r=r, s=s)
    mon.refuses("radii", f[i])


def f_center(pvg, mon, rng):
    c = rng.uniform(0, 1, int(gen.choice(rng, [1, 4, 5])))
    f = [pvg.Rectangle, pvg.Square, pvg.Quadrilateral, pvg.Sector, pvg.Circle, pvg.Annulus, pvg.AnnularSector, pvg.SectorRectangle, pvg.RectangleSector, pvg.SectorSquare, pvg.SquareSector, pvg.CylindricalShell, pvg.CylindricalShellSector]
    i = int(rng.integers(len(f)))
    mon.scenario(i=i, c=c)
    mon.refuses("center", f[i], center=c)


def f_vector(pvg, mon, rng):
    b = pvg.MeshExtrude(surf(rng))
    v = rng.uniform(0, 1, gen.choice(rng, [(2,), (4,), (1, 3), (3, 1), ()]))
    mon.scenario(v=v)
    mon.refuses("vector", b.add, v)


def f_stackadd(pvg, mon, rng):
    ax = int(rng.integers(3))
    if rng.random() < 0.5:
        b = pvg.MeshStack3D(surf(rng, axis=ax), ax)
    else:
        p = np.zeros((4, 3))
        p[:, (ax + 1) % 3] = gen.ticks(rng, 3)
        b = pvg.MeshStack2D(gen.line_mesh(rng, p), ax)
    for _ in range(int(rng.integers(0, 3))):
        b.add(float(rng.uniform(0.5, 1)))
    c = refusals(rng, b, pvg)
    what, f = c[-1 - int(rng.integers(3))] if rng.random() < 0.6 else gen.choice(rng, c)
    mon.scenario(what=what, ax=ax, t=type(b).__name__, p=b.mesh.points[:2])
    mon.refuses("stack:" + what, f)


def f_group(pvg, mon, rng):
    s = surf(rng)
    if isinstance(s, (pv.ImageData, pv.RectilinearGrid)):
        s = s.cast_to_structured_grid()
    gen.put_groups(rng, s, names=["alpha", "beta"])
    n = s.n_cells
    bad = [{"g": "gamma"}, {"g": "~gamma"}, {"g": ["alpha", "gamma"]}, {"g": np.linspace(0, 1, n)}, {"g": [n + 2]}, {"g": np.ones(n + 1, dtype=bool)}]
    i = int(rng.integers(len(bad)))
    mon.scenario(i=i, n=n, s=rng.random())

    def go():
        if rng.random() < 0.5:
            return pvg.MeshStack3D(s).add(0.0).add(1.0, group=bad[i]).generate_mesh()
        return pvg.MeshExtrude(s).add([0.0, 0.0, 1.0], group=bad[i]).generate_mesh()

    mon.refuses("group", go)


def f_merge(pvg, mon, rng):
    ax = int(rng.integers(3))
    a = gen.structured_volume(rng)
    b = a.copy()
    v = np.zeros(3)
    v[ax] = np.ptp(np.asarray(a.points)[:, ax]) * float(rng.uniform(0.1, 3))
    b.points = np.asarray(a.points) + v
    k = int(rng.integers(4))
    mon.scenario(ax=ax, k=k, d=a.dimensions, p=a.points[:2])
    if k == 0:
        mon.refuses("merge:axis", pvg.merge, [a, b])
    elif k == 3:
        # the interface differs in one place or one coordinate only, or is traversed the other way round
        X = np.stack([np.asarray(x) for x in (a.x, a.y, a.z)], axis=-1)
        F = np.moveaxis(X, ax, 0)
        size = np.ptp(X.reshape(-1, 3), axis=0).max()
        Y = 2 * F[-1] - F[::-1]  # mirrored about the interface: matches there
        Y = np.array(Y)
        I = Y[0]
        how = gen.choice(rng, ["point", "coord", "pair", "reverse"])
        c = int(rng.integers(3))
        d = size * float(rng.uniform(0.05, 0.5))
        i = tuple(int(rng.integers(n)) for n in I.shape[:2])
        j = tuple(int(rng.integers(n)) for n in I.shape[:2])
        if how == "point":
            I[i + (c,)] += d
        elif how == "coord":
            I[..., c] += d
        elif how == "pair" and i != j:
            # the same on average
            I[i + (c,)] += d
            I[j + (c,)] -= d
        else:
            I[...] = I[::-1, ::-1].copy()
        if np.abs(I - F[-1]).max() < 1e-3:
            raise core.Skip("interfaces match")
        Y = np.moveaxis(Y, 0, ax)
        b = pv.StructuredGrid(*[np.ascontiguousarray(Y[..., n]) for n in range(3)])
        mon.scenario(how=how, c=c, i=i, j=j)
        mon.refuses("merge:interface", pvg.merge, [a, b], axis=ax)
        mon.check(True, "merge:" + how)
    else:
        # interface shifted sideways or apart
        ia = [slice(None)] * 3
        ia[ax] = -1
        ib = [slice(None)] * 3
        ib[ax] = 0
        same = all(np.abs(np.asarray(x)[tuple(ia)] - np.asarray(y)[tuple(ib)]).max() < 1e-3 for x, y in zip((a.x, a.y, a.z), (b.x, b.y, b.z)))
        if same:
            raise core.Skip("interfaces match")
        mon.refuses("merge:interface", pvg.merge, [a, b], axis=ax)


def f_polygon(pvg, mon, rng):
    t = np.sort(rng.uniform(0, 2 * np.pi, 6))
    shell = np.column_stack((np.cos(t), np.sin(t))) * 3
    hole = np.array([[-0.1, -0.1], [0.1, -0.1], [0.1, 0.1], [-0.1, 0.1]])
    k = int(rng.integers(3))
    mon.scenario(k=k, t=t)
    if k == 0:
        mon.refuses("polygon:holes", pvg.Polygon, shell, [hole], celltype="polygon")
    elif k == 1:
        mon.refuses("polygon:celltype", pvg.Polygon, shell, celltype=gen.choice(rng, ["hexagon", "tri", "Quad", "line"]))
    else:
        mon.refuses("polygon:engine", pvg.Polygon, shell, celltype=gen.choice(rng, ["triangle", "quad"]), engine=gen.choice(rng, ["geo", "OCC", "opencascade"]))


def f_voronoi(pvg, mon, rng):
    b = pvg.VoronoiMesh2D(gen.structured_surface(rng, nu=3, nv=3, jitter=False))
    c = refusals(rng, b, pvg)
    what, f = gen.choice(rng, c)
    mon.scenario(what=what, s=rng.random())
    mon.refuses("voronoi:" + what, f)


def f_remap(pvg, mon, rng):
    s = surf(rng).cast_to_unstructured_grid()
    gen.put_groups(rng, s, names=["alpha", "beta"])
    s.cell_data["f"] = rng.uniform(0, 1, s.n_cells)
    s.point_data["p"] = np.arange(s.n_points) % 3
    f = [
        lambda: pvg.remap_categorical_data(s, "CellGroup", {"gamma": 3}),
        lambda: pvg.remap_categorical_data(s, "CellGroup", {"alpha": 7, "gamma": 3}),
        lambda: pvg.remap_categorical_data(s, "p", {"alpha": 7}, preference="point"),
        lambda: pvg.remap_categorical_data(s, "f", {1: 2}),
        lambda: pvg.remap_categorical_data(s, "CellGroup", {"alpha": 7}, preference=gen.choice(rng, ["cells", "field", "row"])),
        lambda: pvg.remap_categorical_data(s, "CellGroup", {"alpha": 7}, preference="point"),
        lambda: pvg.remap_categorical_data(s, "missing", {"alpha": 7}),
    ]
    i = int(rng.integers(len(f)))
    mon.scenario(i=i, n=s.n_cells, s=rng.random())
    mon.refuses("remap", f[i])


def f_utils(pvg, mon, rng):
    sf = surf(rng).cast_to_unstructured_grid()
    vol = vol3(rng).cast_to_unstructured_grid()
    lin = pv.lines_from_points(lines2(rng, 5))
    tilt = np.array([[0, 0, 0], [1, 0, 0.5], [1, 1, 1.0], [0, 1, 0.2]])
    both = pv.PolyData(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [2, 2, 0.0]]), faces=[3, 0, 1, 2], lines=[2, 2, 3])
    n = vol.n_cells
    f = [
        lambda: pvg.quadraticize(vol),
        lambda: pvg.quadraticize(lin.cast_to_unstructured_grid()),
        lambda: pvg.extract_cells_by_dimension(sf, 2, gen.choice(rng, ["both", "Upper", "equal"])),
        lambda: pvg.get_connectivity(vol, np.zeros((n + 1, 3))),
        lambda: pvg.get_connectivity(vol, np.zeros((n, 2))),
        lambda: pvg.get_connectivity(vol, np.zeros(n * 3)),
        lambda: pvg.offset_polygon(lin, 0.1),
        lambda: pvg.offset_polygon(pv.PolyData(rng.uniform(0, 1, (5, 3))), -0.1),
        lambda: pvg.offset_polygon(tilt + rng.uniform(0, 1, 3), 0.05),
        lambda: pvg.ray_cast(both, [0.2, 0.1, -1], [0.2, 0.1, 1]),
        lambda: pvg.reconstruct_line(rng.uniform(0, 1, (6, int(gen.choice(rng, [1, 4]))))),
        lambda: pvg.get_dimension(gen.choice(rng, [pv.MultiBlock([sf]), None, 3, [sf]])),
        lambda: pvg.fuse_cells(vol, [list(range(min(2, n)))]),
        lambda: pvg.average_points(pv.PolyData(lin.points, lines=lin.lines)),
        lambda: pvg.average_points(both),
    ]
    i = int(rng.integers(len(f)))
    mon.scenario(i=i, s=rng.random())
    mon.refuses(f"utils:{i}", f[i])


FAMILIES = [f_lines, f_plane, f_method, f_resolution, f_surfaces, f_celltypes, f_volume, f_base, f_few, f_radii, f_center, f_vector, f_stackadd, f_stackadd, f_group, f_merge, f_polygon, f_voronoi, f_remap, f_utils]
REQUIRED = {
    "lines", "plane", "method", "resolution", "surfaces", "celltypes", "volume", "base:stack3d", "base:extrude", "base:stack2d", "base:axis", "few-items", "radii", "center", "vector",
    "stack:callable", "stack:callable-size", "stack:1d-array", "stack:2d-array", "stack:3d-array", "stack:not-covering-array", "stack:corners-array", "stack:corners-dataset", "stack:not-covering-dataset", "stack:extrapolation-method", "group",
    "merge:axis", "merge:interface", "merge:point", "merge:coord", "merge:pair", "merge:reverse", "polygon:holes", "polygon:celltype", "polygon:engine", "voronoi:points", "voronoi:constraint", "voronoi:radius", "voronoi:polyline", "voronoi:center",
    "remap", "history:mesh", "history:refused",
} | {f"utils:{i}" for i in range(15)}


def setup(pvg, mon):
    core.install(pvg, mon, hook=hook)


def run_case(pvg, mon, rng, index, tier):
    H.mode, H.depth = "off", 0
    if (index // 8) % 3 == 2:
        seed = [int(x) for x in rng.integers(0, 2**31, 3)]
        name = BUILD[int(rng.integers(len(BUILD)))]
        mon.scenario(name=name, seed=seed)
        runs = []
        H.bad, H.count = None, 0
        for mode in ("plain", "disturbed"):
            H.mode, H.log, H.rng = mode, [], np.random.default_rng(seed + [1])
            try:
                sub, _ = replay.scenario(name, pvg, seed)
            finally:
                H.mode = "off"
            runs.append(H.log)
        mon.scenario(scn=sub.scn)
        mon.trivial = not runs[0] or not H.count
        mon.check(H.bad is None, "history:refused", lambda: H.bad)
        mon.tags["history:refused"] += H.count
        mon.check(len(runs[0]) == len(runs[1]), "history:mesh", lambda: f"{len(runs[1])} meshes generated instead of {len(runs[0])} when some requests were refused")
        for i, (x, y) in enumerate(zip(*runs)):
            d = replay.changed(x, y)
            mon.check(not d, "history:mesh", lambda: f"mesh {i} generated differs after refused additions: {', '.join(d)[:300]}")
        return
    f = FAMILIES[int(rng.integers(len(FAMILIES)))]
    mon.scenario(family=f.__name__)
    f(pvg, mon, rng)
