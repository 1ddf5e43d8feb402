"""C09 Voronoi constraints: surviving generating points, circles, polylines."""
import numpy as np
import pyvista as pv
from shapely import Point, Polygon

from .. import gen, ref, vormodel as vm
from ..core import Skip

T = pv.CellType
QUICK, THOROUGH = 4000, 30000
REQUIRED = {
    "generate", "points:count", "points:match", "ran:mesh-item", "ran:negative", "ran:equal", "ran:higher", "ran:outside", "ran:removed",
    "circle:area", "circle:radius", "circle:group", "circle:single", "polyline:points", "polyline:group", "polyline:constraint", "ran:polyline-axis", "ran:polyline-cell", "ran:polyline-point",
    "ran:polyline-negative", "ran:polyline-equal", "ran:polyline-higher", "ran:polyline-two", "ran:polyline-uneven", "ran:utm",
}
RULE = (
    "Random backgrounds and histories of added points and meshes with positive, zero, negative and tied priorities: the "
    "recorded generating points are compared with a model of the priority rule; circles and polylines: geometry, groups "
    "and constraint cells compared with closed formulas. Non-trivial: distinct scenario with at least one item."
)
ASSUMPTIONS = ["points within 2e-2 of an item cell's boundary are outside the workload", "circles only with the z axis discarded"]


def item_mesh(rng, dom, axis):
    """Small quad/triangle patch near the domain."""
    b = np.array(dom.bounds)
    w, h = (b[2] - b[0]), (b[3] - b[1])
    c = b[:2] + rng.uniform(-0.1, 1.1, 2) * [w, h]
    nu, nv = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    su, sv = rng.uniform(0.15, 0.6, 2) * [w, h]
    th = rng.uniform(0, np.pi)
    U, V = np.meshgrid(np.linspace(-0.5, 0.5, nu + 1) * su, np.linspace(-0.5, 0.5, nv + 1) * sv, indexing="ij")
    uv = np.column_stack((U.ravel(order="F"), V.ravel(order="F")))
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    uv = uv @ R.T + c
    cells = []
    for j in range(nv):
        for i in range(nu):
            q = [i + j * (nu + 1), i + 1 + j * (nu + 1), i + 1 + (j + 1) * (nu + 1), i + (j + 1) * (nu + 1)]
            if rng.random() < 0.3:
                cells += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
            else:
                cells.append(q)
    p3 = np.insert(uv, axis, float(rng.uniform(-1, 1)), axis=1)
    m = pv.UnstructuredGrid(
        np.array([x for q in cells for x in (len(q), *q)]),
        np.array([int(T.QUAD) if len(q) == 4 else int(T.TRIANGLE) for q in cells], dtype=np.uint8),
        p3,
    )
    polys = [Polygon(uv[q]) for q in cells]
    cen = np.array([uv[q].mean(axis=0) for q in cells])
    if nu > 0 and all(len(q) == 4 for q in cells) and rng.random() < 0.5:
        s = [nu + 1, nv + 1]
        s.insert(axis, 1)
        q3 = p3.reshape((nu + 1, nv + 1, 3), order="F").reshape((*s, 3))
        m = pv.StructuredGrid(q3[..., 0], q3[..., 1], q3[..., 2])
    return m, polys, cen


def simulate(base, items, dom):
    """The priority rule: items (mesh or None, cells, points, priority, ...) on the background points.
    -> surviving points, their origin (-1: background, k: item k), what happened"""
    pts = base.tolist()
    prio = [-np.inf] * len(pts)
    active = [True] * len(pts)
    origin = [-1] * len(pts)

    def margin(poly, p):
        d = poly.exterior.distance(Point(p))
        if d < 2e-2:
            raise Skip("point on a cell boundary")
        return poly.contains(Point(p))

    def in_dom(p):
        P = Point(p)
        if dom.boundary.distance(P) < 2e-2:
            raise Skip("point on the domain boundary")
        return dom.contains(P)

    order = sorted(range(len(items)), key=lambda k: abs(items[k][3]))
    notes = set()
    for k in order:
        m, polys, cen, pr = items[k][:4]
        inside = [in_dom(c) for c in cen]
        if not all(inside):
            notes.add("ran:outside")
        if not any(inside):
            continue
        if m is not None:
            notes.add("ran:mesh-item")
            kept = [p for p, i in zip(polys, inside) if i]
            for j in range(len(pts)):
                enclosed = any([margin(p, pts[j]) for p in kept])
                if not enclosed:
                    continue
                if prio[j] == abs(pr):
                    notes.add("ran:negative" if pr < 0 else "ran:equal")
                if (prio[j] <= abs(pr)) if pr >= 0 else (prio[j] < abs(pr)):
                    active[j] = False
                    notes.add("ran:removed")
                    if prio[j] > -np.inf and prio[j] < abs(pr):
                        notes.add("ran:higher")
        for c, i in zip(cen, inside):
            if i:
                pts.append(list(c))
                prio.append(abs(pr))
                active.append(True)
                origin.append(k)
    keep = [j for j, a in enumerate(active) if a]
    return np.array([pts[j] for j in keep]), [origin[j] for j in keep], notes


def history(pvg, mon, rng):
    axis = int(rng.integers(3))
    keep = [k for k in range(3) if k != axis]
    off = gen.offsets(rng)
    kind, bg = vm.background(rng, axis, off)
    if ref.scale(off) > 1e4 and bg.points.dtype != np.float64:
        raise Skip("single precision is too coarse")
    pref = gen.choice(rng, ["cell", "cell", "point"])
    dom = vm.domain(bg, keep)
    if dom.geom_type != "Polygon":
        raise Skip("domain not connected")
    base = np.asarray(bg.cell_centers().points, dtype=float)[:, keep] if pref == "cell" else ref.points_of(bg)[:, keep]
    items = []
    for k in range(int(rng.integers(1, 5))):
        pr = int(gen.choice(rng, [0, 0, 1, 1, 2, -1, -2]))
        if rng.random() < 0.3:
            q = vm.interior_points(rng, dom, int(rng.integers(1, 4)), base, 0.02)
            if not len(q):
                continue
            if rng.random() < 0.3:
                b = np.array(dom.bounds)
                q = np.vstack((q, [b[2] + 0.5, b[3] + 0.5]))
            items.append((None, [], q, pr, np.insert(q, axis, 0.3, axis=1)))
        else:
            m, polys, cen = item_mesh(rng, dom, axis)
            items.append((m, polys, cen, pr, m))
    if not items:
        raise Skip("no item")
    exp, _, notes = simulate(base, items, dom)
    if len(exp) < 2:
        raise Skip("too few points")
    dd = np.linalg.norm(exp[:, None] - exp[None], axis=2) + 10 * np.eye(len(exp))
    if dd.min() < 0.01:
        raise Skip("points too close")
    mon.scenario(kind=kind, axis=axis, pref=pref, n=bg.n_cells, items=[(None if i[0] is None else type(i[0]).__name__, i[3], i[2]) for i in items])

    def go():
        b = pvg.VoronoiMesh2D(bg.copy(), axis=axis, preference=pref)
        for m, polys, cen, pr, arg in items:
            kw = {"priority": pr} if pr or rng.random() < 0.5 else {}
            b.add(arg.copy(), **kw)
        return b.generate_mesh()

    try:
        vm.expected_cells(exp, dom)
    except Skip:
        raise Skip("part of the domain not a simple polygon")
    mesh = mon.call("generate", go)
    gp = np.column_stack([np.asarray(mesh.cell_data[k]) for k in "XYZ"])[:, keep]
    mon.check(len(gp) == len(exp), "points:count", lambda: f"{len(gp)} generating points, expected {len(exp)}")
    d = np.linalg.norm(gp[:, None] - exp[None], axis=2)
    mon.check(d.min(axis=1).max() < 1e-5 and len(set(d.argmin(axis=1))) == len(exp), "points:match", lambda: f"generating point {gp[d.min(axis=1).argmax()]} is not expected")
    for n in notes:
        mon.check(True, n)
    if ref.scale(off) > 1e4:
        mon.check(True, "ran:utm")


def circle(pvg, mon, rng):
    n = int(rng.integers(16, 40))
    r = float(rng.uniform(0.3, 1.0))
    f = gen.choice(rng, [None, 1.4, 1.5, 1.8])
    dr = r * ((f or 1.5) - 1)
    ext = 3 * r + 2 * dr
    nb = int(rng.integers(3, 9))
    c0 = rng.uniform(-3, 3, 2) + gen.offsets(rng)[:2] if rng.random() < 0.8 else np.zeros(2)
    t = np.linspace(-ext, ext, nb + 1)
    X, Y = np.meshgrid(t, t, indexing="ij")
    sh = rng.uniform(-0.2, 0.2, 2) * ext
    bg = pv.StructuredGrid((X + c0[0] + sh[0])[..., None], (Y + c0[1] + sh[1])[..., None], np.zeros_like(X)[..., None])
    plain = bool(rng.random() < 0.5)
    g = gen.choice(rng, [None, "well"])
    pr = int(gen.choice(rng, [0, 1, 2]))
    kw = dict(resolution=n)
    if not (c0 == 0).all():
        kw["center"] = gen.choice(rng, [c0, c0.tolist(), [*c0, 0.0], [*c0, 2.5]])
    if f:
        kw["constraint_radius"] = r * f
    if plain:
        kw["plain"] = True
    if g:
        kw["group"] = g
    if pr:
        kw["priority"] = pr
    mon.scenario(circle=r, n=n, f=f, center=c0, plain=plain, group=g, priority=pr, nb=nb, sh=sh)
    default = gen.choice(rng, [None, "D"])

    def go():
        b = pvg.VoronoiMesh2D(bg.copy(), **({"default_group": default} if default else {}))
        b.add_circle(r, **kw)
        return b.generate_mesh()

    mesh = mon.call("generate", go)
    P = ref.points_of(mesh)[:, :2] - c0
    cells = ref.cells_of(mesh)
    inner = [i for i, c in enumerate(cells) if np.linalg.norm(P[c.ids].mean(axis=0)) < r * np.cos(np.pi / n) - 1e-3 * r or (P[c.ids] ** 2).sum(axis=1).max() <= (r * 1.001) ** 2]
    area = sum(abs(ref.signed_area2(P[cells[i].ids])) for i in inner)
    want = 0.5 * n * r * r * np.sin(2 * np.pi / n)
    mon.close(area, want, "circle:area", 2e-3 * want, "area of the cells within the circle")
    rad = max(np.linalg.norm(P[cells[i].ids], axis=1).max() for i in inner)
    mon.close(rad, r, "circle:radius", 2e-3 * r, "outer radius of the cells within the circle")
    ids = {x for i in inner for x in cells[i].ids.tolist()}
    on = [x for x in ids if abs(np.linalg.norm(P[x]) - r) < 2e-3 * r]
    mon.check(len(on) == n, "circle:radius", lambda: f"{len(on)} corners on the circle, expected {n}")
    inv = {v: k for k, v in mesh.user_dict["CellGroup"].items()}
    names = [inv[int(x)] for x in mesh.cell_data["CellGroup"]]
    dflt = default or "default"
    for i in range(mesh.n_cells):
        w = (g or dflt) if i in set(inner) else dflt
        mon.check(names[i] == w, "circle:group", lambda: f"cell {i} is in group {names[i]}, expected {w}")
    if plain:
        mon.check(len(inner) == 1, "circle:single", lambda: f"plain circle made of {len(inner)} cells")
    else:
        mon.check(len(inner) > 1, "circle:single", "circle fused without being plain")


def band(p, pref, width, pad, con, m):
    """Cells around a polyline -> corner grid, cell centres, constraint mask."""
    cs, ce = (1, 1) if con is None else (con, con) if isinstance(con, int) else con
    d = np.diff(p, axis=0)
    d /= np.linalg.norm(d, axis=1)[:, None]
    # rows along the line
    q = p
    if pref == "cell":
        w = 0.5 * width if pad is None else pad
        q = np.vstack((p[0] - w * d[0], 0.5 * (p[:-1] + p[1:]), p[-1] + w * d[-1]))
    f0, f1 = q[1] - q[0], q[-1] - q[-2]
    q = np.vstack([q[0] - f0 * k for k in range(cs, 0, -1)] + [q] + [q[-1] + f1 * k for k in range(1, ce + 1)])
    s = np.diff(q, axis=0)
    nrm = np.column_stack((-s[:, 1], s[:, 0]))
    nn = np.vstack((nrm[:1], nrm[:-1] + nrm[1:], nrm[-1:]))
    nn /= np.linalg.norm(nn, axis=1)[:, None]
    tt = np.linspace(0, 1, m + 1) if isinstance(m, int) else np.array(m)
    tt = np.concatenate(([-tt[1]], tt, [2 - tt[-2]]))  # mirrored about either side
    grid = q[:, None, :] + ((tt - 0.5) * width)[None, :, None] * nn[:, None, :]
    cen = 0.25 * (grid[:-1, :-1] + grid[1:, :-1] + grid[:-1, 1:] + grid[1:, 1:])
    isc = np.ones(cen.shape[:2], dtype=bool)
    isc[cs : cen.shape[0] - ce, 1:-1] = False
    polys = [[Polygon([grid[i, j], grid[i + 1, j], grid[i + 1, j + 1], grid[i, j + 1]]) for j in range(cen.shape[1])] for i in range(cen.shape[0])]
    return grid, cen, isc, polys


def polyline(pvg, mon, rng):
    axis = int(rng.integers(3))
    keep = [k for k in range(3) if k != axis]
    ns = int(rng.integers(2, 6))
    h = 1.0
    bend = rng.random() < 0.4
    th0 = rng.uniform(0, 2 * np.pi)
    if bend:
        ang = th0 + np.cumsum(np.concatenate(([0.0], rng.uniform(-0.25, 0.25, ns - 1))))
        seg = np.full(ns, h)
    else:
        ang = np.full(ns, th0)
        seg = rng.uniform(0.7, 1.4, ns)
    pref = gen.choice(rng, ["cell", "point"])
    if pref == "cell" and bend:
        ang = np.full(ns, th0)  # midpoints of a bent line are not equally spaced
        bend = False
    d = np.column_stack((np.cos(ang), np.sin(ang)))
    p = np.vstack(([0, 0], np.cumsum(seg[:, None] * d, axis=0)))
    off = gen.offsets(rng)[keep]
    p = p - p.mean(axis=0) + rng.uniform(-2, 2, 2) + off
    width = float(rng.uniform(0.2, 0.8))
    m = int(rng.integers(1, 4))
    if rng.random() < 0.3:
        m = [0.0, *np.cumsum(rng.uniform(0.25, 0.4, int(rng.integers(0, 3)))).round(3).tolist(), 1.0]
    con = gen.choice(rng, [None, 1, 0, (1, 0), (0, 2), 2])
    pad = gen.choice(rng, [None, 0.3, 0.0, 0.0])
    prs = gen.choice(rng, [None, None, 0, 1, 2, -1, -2])
    pr = prs or 0
    lines = [p]
    if rng.random() < 0.3:
        # a second line in the same dataset, alongside the first
        k = int(rng.integers(2, ns + 2))
        side = np.array([-np.sin(th0), np.cos(th0)]) * rng.choice([-1, 1])
        lines.append(p[:k] + side * (width * (1 + 2 / (m if isinstance(m, int) else 1)) + 1.2 + 0.3 * ns * bool(bend)))
    bands = [band(x, pref, width, pad, con, m) for x in lines]
    ext = max(np.abs(x[0] - off).max() for x in bands) + 1.5
    nb = int(rng.integers(3, 8))
    t = np.linspace(-ext, ext, nb + 1)
    X, Y = np.meshgrid(t, t, indexing="ij")
    uv = np.column_stack((X.ravel(order="F"), Y.ravel(order="F"))) + off
    shp = [nb + 1, nb + 1]
    shp.insert(axis, 1)
    p3 = np.insert(uv, axis, 0.0, axis=1).reshape((nb + 1, nb + 1, 3), order="F").reshape((*shp, 3))
    bg = pv.StructuredGrid(p3[..., 0], p3[..., 1], p3[..., 2])
    base = vm.centers(bg)[:, keep]
    dom = vm.domain(bg, keep)
    # other points, preferably within the cells of the line
    extra = []
    for _ in range(int(gen.choice(rng, [0, 0, 1, 2, 3]))):
        g_, c_, i_, _ = bands[int(rng.integers(len(bands)))]
        i, j = rng.integers(c_.shape[0]), rng.integers(c_.shape[1])
        if rng.random() < 0.6 and (~i_).any():
            i, j = np.argwhere(~i_)[int(rng.integers((~i_).sum()))]
        a, b = rng.uniform(0.25, 0.75, 2)
        q = (1 - a) * ((1 - b) * g_[i, j] + b * g_[i, j + 1]) + a * ((1 - b) * g_[i + 1, j] + b * g_[i + 1, j + 1])
        extra.append((None, [], q[None], int(gen.choice(rng, [0, 0, 1, 1, 2, 3, -1])), "extra"))
    before = int(rng.integers(len(extra) + 1))
    items = extra[:before]
    for g_, c_, i_, y_ in bands:
        for what in (False, True):
            sel = np.argwhere(i_ == what)
            if len(sel):
                items.append((True, [y_[i][j] for i, j in sel], np.array([c_[i, j] for i, j in sel]), 0 if what else pr, "constraint" if what else "line"))
    items += extra[before:]
    exp, origin, notes = simulate(base, items, dom)
    lab = ["background" if o < 0 else items[o][4] for o in origin]
    dd = np.linalg.norm(exp[:, None] - exp[None], axis=2) + 10 * np.eye(len(exp))
    if dd.min() < 0.01:
        raise Skip("points too close")
    g = gen.choice(rng, ["frac", "frac", None])
    P3 = np.insert(np.vstack(lines), axis, 0.0, axis=1)
    style = gen.choice(rng, ["array", "list", "poly"]) if len(lines) == 1 else "poly"
    if len(lines) > 1:
        n0, n1 = map(len, lines)
        arg = pv.PolyData(P3, lines=[n0, *range(n0), n1, *range(n0, n0 + n1)])
    else:
        arg = P3 if style == "array" else P3.tolist() if style == "list" else gen.line_mesh(rng, P3, True)
    kw = dict(width=width)
    if pref != "cell" or rng.random() < 0.5:
        kw["preference"] = pref
    if pad is not None:
        kw["padding"] = pad
    if con is not None:
        kw["constraint"] = con
    if not isinstance(m, int):
        kw["resolution"] = m if rng.random() < 0.5 else np.array(m)
        mon.check(True, "ran:polyline-uneven")
    elif m > 1 or rng.random() < 0.5:
        kw["resolution"] = m
    if g:
        kw["group"] = g
    if prs is not None:
        kw["priority"] = prs
    mon.scenario(polyline=lines, axis=axis, width=width, pref=pref, pad=pad, con=con, m=m, bend=bool(bend), nb=nb, style=style, priority=prs, extra=[(x[2], x[3]) for x in extra], before=before)

    def go():
        b = pvg.VoronoiMesh2D(bg.copy(), axis=axis)
        for x in extra[:before]:
            b.add(np.insert(x[2], axis, 0.2, axis=1), priority=x[3], group="extra")
        b.add_polyline(arg, **kw)
        for x in extra[before:]:
            b.add(np.insert(x[2], axis, -0.3, axis=1), priority=x[3], group="extra")
        return b.generate_mesh()

    mesh = mon.call("generate", go)
    gp = np.column_stack([np.asarray(mesh.cell_data[k]) for k in "XYZ"])[:, keep]
    mon.check(len(gp) == len(exp), "polyline:points", lambda: f"{len(gp)} generating points, expected {len(exp)}")
    D = np.linalg.norm(gp[:, None] - exp[None], axis=2)
    j = D.argmin(axis=1)
    mon.check(D.min(axis=1).max() < 1e-4 and len(set(j)) == len(exp), "polyline:points", lambda: f"generating point {gp[D.min(axis=1).argmax()]} is not expected")
    inv = {v: k for k, v in mesh.user_dict["CellGroup"].items()}
    for i in range(len(gp)):
        nm = inv[int(mesh.cell_data["CellGroup"][i])]
        w = {"line": g or "default", "extra": "extra"}.get(lab[j[i]], "default")
        mon.check(nm == w, "polyline:constraint" if lab[j[i]] == "constraint" else "polyline:group", lambda: f"cell of point {gp[i]} is in group {nm}, expected {w}")
    if axis < 2:
        mon.check(True, "ran:polyline-axis")
    mon.check(True, "ran:polyline-" + pref)
    for n in notes & {"ran:negative", "ran:equal", "ran:higher"}:
        mon.check(True, "ran:polyline-" + n[4:])
    if len(lines) > 1:
        mon.check(True, "ran:polyline-two")


def run_case(pvg, mon, rng, index, tier):
    r = rng.random()
    if r < 0.6:
        history(pvg, mon, rng)
    elif r < 0.78:
        circle(pvg, mon, rng)
    else:
        polyline(pvg, mon, rng)
