"""C29 chains of builders: every step fills its domain with conforming cells."""
import collections

import numpy as np
import pyvista as pv
from scipy.spatial import KDTree

from .. import gen, ref
from ..core import Skip

T = pv.CellType
QUICK, THOROUGH = 1600, 12000
REQUIRED = {
    "build", "plane:area", "plane:perimeter", "plane:edges", "solid:count", "solid:volume", "solid:faces", "solid:boundary", "solid:groups", "solid:pairs",
    "ran:well", "ran:blocks", "ran:stack2d", "ran:gmsh", "ran:voronoi", "ran:fused", "ran:subset", "ran:remapped", "ran:stack", "ran:extrude", "ran:parts", "voronoi:count", "voronoi:groups", "fuse:count",
}
RULE = (
    "Chains of calls as in the documented workflows: a plane mesh (well built of sectors and rectangles, merged blocks, 2-D stack, meshed polygon), optionally "
    "turned into a Voronoi mesh, fused, reduced to a subset or remapped, then stacked or extruded, whole or in parts merged back. Areas, perimeters, "
    "volumes, shared faces, boundary area and groups are computed from the dimensions asked for and from the plane mesh. Non-trivial: distinct chain."
)


def ids_of(P, tol):
    """Coincident points share a number."""
    pairs = KDTree(P).query_pairs(tol, output_type="ndarray")
    lab = np.arange(len(P))
    for a, b in sorted(map(tuple, np.sort(pairs, axis=1))):
        lab[b] = min(lab[b], lab[a])
    for i in range(len(lab)):
        lab[i] = lab[lab[i]]
    return lab


def plane_facts(mesh, tol):
    P = ref.points_of(mesh)
    lab = ids_of(P, tol)
    rings, edges = [], collections.Counter()
    for c in ref.cells_of(mesh):
        r = [int(x) for x in lab[c.ring()]]
        rings.append(r)
        for e in zip(r, r[1:] + r[:1]):
            if e[0] != e[1]:
                edges[frozenset(e)] += 1
    areas = np.array([abs(ref.signed_area2(P[r][:, :2])) for r in rings])
    cen = []
    for r in rings:
        p = P[r][:, :2]
        q = p - p[0]
        x, y = q.T
        w = x * np.roll(y, -1) - np.roll(x, -1) * y
        cen.append(p[0] + ((q + np.roll(q, -1, axis=0)) * w[:, None]).sum(axis=0) / (3 * w.sum()))
    return P, rings, edges, areas, np.array(cen)


def well(pvg, rng, notes):
    t = int(rng.integers(1, 5))
    n = 2 * t
    rs = np.cumsum(rng.uniform(0.2, 0.6, int(rng.integers(2, 5))))
    size = float(rs[-1] * rng.uniform(1.6, 3.0))
    ext = float(rng.uniform(0.5, 3.0))
    rr = int(rng.integers(1, 4))
    meth = gen.choice(rng, [None, "log", "log_r"])
    names = ["Core", "Casing", "Cement", "Matrix"]
    m = pvg.MeshMerge()
    m.add(pvg.Sector(rs[0], 0.0, 90.0, n), group="Core")
    for a, b in zip(rs, rs[1:]):
        m.add(pvg.AnnularSector(a, b, 0.0, 90.0, int(rng.integers(1, 3)), n), group=gen.choice(rng, names))
    m.add(pvg.SectorRectangle(rs[-1], size, size, rr, t, meth), group="Matrix")
    total = size
    if rng.random() < 0.6:
        k = int(rng.integers(1, 3))
        m.add(pvg.Rectangle(ext, size, k, t, center=[size, 0.0, 0.0]), group="Matrix")
        m.add(pvg.Rectangle(ext, ext, k, k, center=[size, size, 0.0]), group="Far")
        m.add(pvg.Rectangle(size, ext, t, k, center=[0.0, size, 0.0]), group="Matrix")
        total = size + ext
    quarter = m.generate_mesh(tolerance=1e-5)
    if rng.random() < 0.5:
        return quarter, total * total, 4 * total
    m = pvg.MeshMerge()
    for k in range(4):
        m.add(quarter.rotate_z(90.0 * k))
    notes.add("ran:whole-well")
    return m.generate_mesh(tolerance=1e-4), 4 * total * total, 8 * total


def blocks(pvg, rng, notes):
    """Rectangle cut into blocks meshed one by one."""
    xs, ys = gen.ticks(rng, int(rng.integers(1, 4))), gen.ticks(rng, int(rng.integers(1, 4)))
    nx, ny = rng.integers(1, 4, len(xs)), rng.integers(1, 4, len(ys))
    m = pvg.MeshMerge()
    todo = [(i, j) for i in range(len(xs) - 1) for j in range(len(ys) - 1)]
    for k in rng.permutation(len(todo)):
        i, j = todo[k]
        dx, dy = xs[i + 1] - xs[i], ys[j + 1] - ys[j]
        c = [xs[i], ys[j], 0.0]
        s = int(rng.integers(3))
        if s == 0:
            b = pvg.Rectangle(dx, dy, int(nx[i]), int(ny[j]), center=c)
        elif s == 1:
            q = [[xs[i], ys[j]], [xs[i + 1], ys[j]], [xs[i + 1], ys[j + 1]], [xs[i], ys[j + 1]]]
            b = pvg.Quadrilateral(q, int(nx[i]), int(ny[j]))
        else:
            a = np.linspace(xs[i], xs[i + 1], int(nx[i]) + 1)
            line = np.column_stack((a, np.full(len(a), ys[j]), np.zeros(len(a))))
            b = pvg.MeshStack2D(gen.line_mesh(rng, line, True), axis=1).add(ys[j]).add(dy, int(ny[j])).generate_mesh()
        m.add(b, group=gen.choice(rng, ["A", "B", "C"]))
    return m.generate_mesh(tolerance=1e-5), xs[-1] * ys[-1], 2 * (xs[-1] + ys[-1])


def stack2d(pvg, rng, notes):
    x = gen.ticks(rng, int(rng.integers(2, 7)))
    line = np.column_stack((x, 0 * x, 0 * x))
    s = pvg.MeshStack2D(gen.line_mesh(rng, line, True), axis=1)
    slope = float(rng.uniform(-0.1, 0.1))
    s.add((lambda *a: slope * a[0]))
    area, a, b = 0.0, slope, 0.0
    for k in range(int(rng.integers(1, 4))):
        h, d = float(rng.uniform(0.5, 1.5)), float(rng.uniform(0, 0.1))
        a, b = a + d, b + h
        s.add((lambda a, b: (lambda *c: b + a * c[0]))(a, b), int(rng.integers(1, 4)), group=gen.choice(rng, ["u", "v"]))
        area += h * x[-1] + d * x[-1] ** 2 / 2
    return s.generate_mesh(), area, None


def run_case(pvg, mon, rng, index, tier):
    notes = set()
    kind = gen.choice(rng, ["well", "well", "blocks", "blocks", "stack2d", "gmsh"])
    steps = [kind]
    if kind == "gmsh":
        w, h = rng.uniform(2, 5, 2)
        shell = np.array([[0, 0], [w, 0], [w, h], [0.4 * w, h], [0.4 * w, 0.6 * h], [0, 0.6 * h]])
        a0 = w * h - 0.4 * w * 0.4 * h
        per = 2 * (w + h)
        holes = None
        if rng.random() < 0.5:
            c, r = np.array([0.6 * w, 0.3 * h]), rng.uniform(0.1, 0.2) * min(w, h)
            holes = [c + r * np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]])]
            a0 -= 4 * r * r
            per += 8 * r
        shell = np.insert(shell, 2, 0.0, axis=1)
        args = (shell, None if holes is None else [np.insert(x, 2, 0.0, axis=1) for x in holes])
        size = float(rng.uniform(0.6, 1.5))
        if holes:
            size = min(size, float(rng.uniform(0.7, 1.4)) * 2 * r)  # gmsh may fail on holes much smaller than the cells

        def first():
            return pvg.Polygon(*args, cellsize=size)
    else:

        def first():
            return {"well": well, "blocks": blocks, "stack2d": stack2d}[kind](pvg, rng, notes)

    m = mon.call("build", first)
    if kind != "gmsh":
        m, a0, per = m
    notes.add("ran:" + kind)
    tol = 2e-5 * max(1.0, ref.scale(m.points))
    mon.scenario(kind=kind, n=m.n_cells, area=a0, p=ref.points_of(m)[:4])

    def plane(m, a0, per, rel=1e-5, what="", conforming=True):
        P, rings, edges, areas, cen = plane_facts(m, tol)
        mon.close(areas.sum(), a0, "plane:area", rel * a0, "total area" + what)
        mon.check((areas > 0).all(), "plane:area", "flat cell" + what)
        if conforming:
            mon.check(max(edges.values()) <= 2, "plane:edges", "edge of more than two cells" + what)
        L = sum(np.linalg.norm(np.subtract(*P[list(e)])) for e, k in edges.items() if k == 1)
        if per is not None:
            mon.close(L, per, "plane:perimeter", 10 * rel * per, "length of the edges of one cell only" + what)
        return P, rings, edges, areas, cen

    F = plane(m, a0, per)
    area = F[3].sum()
    # -- in the plane ---------------------------------------------------------
    if rng.random() < 0.4:
        v = mon.call("build", lambda: pvg.VoronoiMesh2D(m).generate_mesh())
        nv = len({(x, y) for x, y in zip(v.cell_data["X"], v.cell_data["Y"])})
        mon.check(nv == m.n_cells, "voronoi:count", lambda: f"Voronoi cells of {nv} points instead of {m.n_cells}")
        if "CellGroup" in m.cell_data and v.n_cells == m.n_cells:
            g0, g1 = sorted(pvg.get_cell_group(m)), sorted(pvg.get_cell_group(v))
            mon.check(g0 == g1, "voronoi:groups", "groups of the Voronoi cells")
        m = v
        steps.append("voronoi")
        notes.add("ran:voronoi")
        F = plane(m, a0, None, rel=2e-3, what=" of the Voronoi mesh", conforming=False)
    if rng.random() < 0.3 and m.n_cells > 3:
        R = [[frozenset(e) for e in zip(r, r[1:] + r[:1])] for r in ([int(x) for x in c.ring()] for c in ref.cells_of(m))]
        k = collections.Counter(e for r in R for e in r)
        inner = [e for e in k if k[e] == 2]
        if inner:
            e = inner[int(rng.integers(len(inner)))]
            pair = [i for i, r in enumerate(R) if e in r]
            shared = set(R[pair[0]]) & set(R[pair[-1]])
            if len(pair) == 2 and len(shared) == 1:
                f = mon.call("build", pvg.fuse_cells, m, pair)
                mon.check(f.n_cells == m.n_cells - 1, "fuse:count", lambda: f"{f.n_cells} cells after fusing 2 of {m.n_cells}")
                m = f
                steps.append(("fuse", pair))
                notes.add("ran:fused")
                F = plane(m, F[3].sum(), None, what=" after fusing", conforming=False)
    if rng.random() < 0.3 and m.n_cells > 2:
        keep = np.sort(rng.permutation(m.n_cells)[: int(rng.integers(1, m.n_cells))])
        x = mon.call("build", pvg.extract_cells, m, keep)
        m = x
        steps.append(("extract", keep))
        notes.add("ran:subset")
        F = plane(m, F[3][keep].sum(), None, what=" after extraction", conforming=False)
    names = list(pvg.get_cell_group(m)) if "CellGroup" in m.cell_data and "CellGroup" in m.user_dict else None
    if names and rng.random() < 0.3:
        d = dict(m.user_dict["CellGroup"])
        mp = {k: int(v) + 10 for k, v in d.items()}
        m = mon.call("build", pvg.remap_categorical_data, m, "CellGroup", mp)
        steps.append("remap")
        notes.add("ran:remapped")
    P, rings, edges, areas, cen = F
    # -- to space -------------------------------------------------------------
    how = gen.choice(rng, ["stack", "extrude"])
    nlay, lay = 0, []
    ops = []
    bottom = float(rng.uniform(-2, 2))
    for k in range(int(rng.integers(1, 4))):
        h, r = float(rng.uniform(0.3, 2.0)), int(rng.integers(1, 4))
        sl = rng.uniform(-0.02, 0.05, 2) / max(1.0, ref.scale(P)) if how == "stack" else np.zeros(2)
        g = gen.choice(rng, [None, None, "L%d" % k])
        ops.append((h, r, sl, g))
        lay += [(h / r, sl / r, g)] * r
    base = m.copy()
    P3 = ref.points_of(base)
    P3[:, 2] = bottom
    base.points = P3
    parts = [np.arange(m.n_cells)]
    if rng.random() < 0.4 and m.n_cells > 1:
        cut = rng.random(m.n_cells) < 0.5
        parts = [x for x in (np.flatnonzero(cut), np.flatnonzero(~cut)) if len(x)]
        notes.add("ran:parts")
    mon.scenario(steps=[str(s) for s in steps], how=how, ops=ops, bottom=bottom, parts=len(parts))

    def lift(b):
        if how == "extrude":
            s = pvg.MeshExtrude(b)
            for h, r, sl, g in ops:
                s.add([0.0, 0.0, h], r, **({"group": g} if g else {}))
            return s.generate_mesh()
        s, zz, ss = pvg.MeshStack3D(b).add(bottom), bottom, np.zeros(2)
        for h, r, sl, g in ops:
            zz, ss = zz + h, ss + sl
            s.add((lambda h, sl: (lambda x, y, z: h + sl[0] * x + sl[1] * y))(zz, ss), r, **({"group": g} if g else {}))
        return s.generate_mesh()

    def go():
        if len(parts) == 1:
            return lift(base)
        q = [lift(pvg.extract_cells(base, x)) for x in parts]
        return pvg.merge(q) if rng.random() < 0.5 and names is None else merged(q)

    def merged(q):
        s = pvg.MeshMerge()
        for x in q:
            s.add(x)
        return s.generate_mesh(tolerance=1e-5)

    out = mon.call("build", go)
    notes.add("ran:" + how)
    n = len(lay)
    mon.check(out.n_cells == m.n_cells * n, "solid:count", lambda: f"{out.n_cells} cells, expected {m.n_cells} x {n}")
    Q = ref.points_of(out)
    lab = ids_of(Q, tol)
    faces = collections.defaultdict(list)
    vol, where = [], []
    oc = ref.cells_of(out)
    for i, c in enumerate(oc):
        fl = [[int(x) for x in lab[f]] for f in c.face_list()]
        vol.append(abs(ref.polyhedron_volume(Q, fl)))
        where.append(Q[np.unique(lab[c.ids])].mean(axis=0))
        for f in fl:
            if len(set(f)) > 2:
                faces[frozenset(f)].append(i)
    vol, where = np.array(vol), np.array(where)
    # expected columns
    lo = np.zeros(3)
    exp, ew, eg = [], [], []
    z0, s0 = bottom, np.zeros(2)
    vc = np.array([P[sorted(set(r))][:, :2].mean(axis=0) for r in rings])
    for t, sl, g in lay:
        exp += (areas * (t + cen @ sl)).tolist()
        mid = z0 + t / 2 + vc @ (s0 + sl / 2)
        ew += np.column_stack((vc, mid)).tolist()
        eg += [g or (names[k] if names else "default") for k in range(len(rings))]
        z0, s0 = z0 + t, s0 + sl
    exp, ew = np.array(exp), np.array(ew)
    d, j = KDTree(ew).query(where)
    mon.check(d.max() < 20 * tol and len(set(j)) == len(ew), "solid:count", lambda: f"cell {int(d.argmax())} at {where[d.argmax()].tolist()} is {d.max():g} from any expected cell")
    bad = np.abs(vol - exp[j]) / (exp[j] + tol)
    mon.check(bad.max() < 1e-3, "solid:volume", lambda: f"cell {int(bad.argmax())} has volume {vol[bad.argmax()]:g} instead of {exp[j][bad.argmax()]:g}")
    mon.close(vol.sum(), exp.sum(), "solid:volume", 1e-5 * exp.sum(), "total volume")
    if len(set(map(tuple, np.round(ew / tol / 50)))) == len(ew):
        og = pvg.get_cell_group(out)
        wrong = [i for i in range(len(oc)) if og[i] != eg[j[i]]]
        mon.check(not wrong, "solid:groups", lambda: f"cell {wrong[0]} is in group {og[wrong[0]]}, expected {eg[j[wrong[0]]]}")
    # shared faces follow from the edges of the plane mesh
    count = collections.Counter(len(v) for v in faces.values())
    want = collections.Counter()
    want[1] += 2 * len(rings)
    want[2] += (n - 1) * len(rings)
    for e, k in edges.items():
        want[k] += n
    want = collections.Counter({k: v for k, v in want.items() if v})
    mon.check(count == want, "solid:faces", lambda: f"faces by number of cells {dict(count)}, expected {dict(want)}")
    B = sum(np.linalg.norm(ref.area_vec(Q[face_ring(oc, lab, f, v[0])])) for f, v in faces.items() if len(v) == 1)
    L = sum(np.linalg.norm(np.subtract(*P[list(e)])) for e, k in edges.items() if k == 1)
    H = sum(np.linalg.norm(np.subtract(*P[list(e)])) * (t + (P[list(e)][:, :2].mean(axis=0)) @ sl) for e, k in edges.items() if k == 1 for t, sl, _ in lay)
    stot = sum((sl for _, sl, _ in lay), np.zeros(2))
    mon.close(B, areas.sum() * (1 + np.hypot(1, np.linalg.norm(stot))) + H, "solid:boundary", 1e-4 * B, "area of the faces of one cell only")
    # connectivity as reported
    if max(count) <= 2 and rng.random() < 0.5:
        con = mon.call("build", pvg.get_connectivity, out)
        a = {frozenset(map(int, x)) for x in con.lines.reshape(-1, 3)[:, 1:]}
        own = collections.defaultdict(list)
        for i, c in enumerate(oc):
            for f in c.face_list():
                own[frozenset(f.tolist())].append(i)
        b = {frozenset(v) for f, v in own.items() if len(set(v)) == 2 and len(f) > 2}
        c = {frozenset(v) for v in faces.values() if len(set(v)) == 2}
        mon.check(c <= b, "solid:pairs", lambda: f"cells {sorted(map(sorted, c - b))[:3]} meet without sharing the points of their face")
        mon.check(a == b, "solid:pairs", lambda: f"connections {sorted(map(sorted, a ^ b))[:3]} differ from the shared faces")
    for x in notes:
        mon.check(True, x)


def face_ring(cells, lab, key, i):
    for f in cells[i].face_list():
        if frozenset(int(x) for x in lab[f]) == key:
            return f
