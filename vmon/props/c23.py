"""C23 polygon offset and quadratic conversion."""
import numpy as np
import pyvista as pv

from .. import gen, meshes, ref
from . import c06

T = pv.CellType
QUICK, THOROUGH = 12000, 100000
REQUIRED = {
    "offset", "offset:count", "offset:plane", "offset:edges", "offset:vertices", "offset:zero", "quad", "quad:count", "quad:types", "quad:corners", "quad:middles", "ran:outwards", "ran:inwards",
    "ran:clockwise", "ran:anticlockwise", "ran:concave", "ran:collinear", "ran:several", "ran:array", "ran:list", "ran:mesh", "ran:utm", "ran:shared", "ran:axis0", "ran:axis1", "ran:axis2", "ran:tri",
    "ran:quad", "ran:mixed", "ran:single-precision", "ran:tiny", "ran:tiny-away", "ran:mixed-orientation",
}
RULE = (
    "Simple polygons (convex, concave, collinear vertices), either orientation, any first vertex, any axis plane and position, alone as arrays or lists or several in one "
    "polydata; every edge line is offset independently and intersected. Triangle and quad meshes, flat and curved. Non-trivial: distinct polygon and distance or mesh."
)


def offset_case(pvg, mon, rng, notes):
    axis = int(rng.integers(3))
    off = gen.offsets(rng)
    utm = ref.scale(off) > 1e4
    sc = 10.0 ** rng.uniform(-2 if utm else -3, 3) if rng.random() < 0.4 else 1.0
    how = gen.choice(rng, ["array", "list", "mesh", "mesh"])
    polys = []
    k = 1 if how != "mesh" else int(rng.integers(1, 4))
    shared = how == "mesh" and rng.random() < 0.3
    if shared:
        s = gen.unstructured_surface(rng, axis, what=gen.choice(rng, ["poly", "mixed", "concave", "quad", "tri"]))
        P = ref.points_of(s)
        rings = [[int(x) for x in c.ring()] for c in ref.cells_of(s)]
        k = len(rings)
    else:
        pts, rings = [], []
        for j in range(k):
            p = c06.star_polygon(rng) + rng.uniform(-3, 3, 2)
            ids = np.arange(len(p)) + len(pts)
            if how == "mesh" and rng.random() < 0.3:
                pts += [[0.0, 0.0]]
                ids = ids + 1
            pts += p.tolist()
            rings.append([int(x) for x in ids])
        P = gen.embed(np.array(pts), 0.0, axis)
    P = P * sc + off
    single = how == "mesh" and rng.random() < 0.2 and not utm
    if single:
        P = P.astype("float32")
    d = float(rng.uniform(0.01, 0.6)) * sc * (1 if rng.random() < 0.5 else -1)
    if rng.random() < 0.05:
        d = 0.0
    uvw = [i for i in range(3) if i != axis]
    P = np.array(P)
    # keep away from cusps, where the offset is unbounded
    for r in rings:
        q = np.array(P, dtype=float)[r][:, uvw]
        e = np.roll(q, -1, axis=0) - q
        e /= np.linalg.norm(e, axis=1)[:, None]
        if ((e * np.roll(e, 1, axis=0)).sum(axis=1) < -0.97).any():
            mon.trivial = True
            return
    arg = P if how == "array" else P.tolist() if how == "list" else pv.PolyData(P.copy(), faces=[x for r in rings for x in (len(r), *r)])
    mon.scenario(axis=axis, how=how, d=d, sc=sc, pts=P[:16], rings=rings[:6])
    res = mon.call("offset", pvg.offset_polygon, arg, d)
    R = ref.points_of(res)
    rc = ref.cells_of(res)
    P = np.asarray(P, dtype=float)
    eps = (3e-6 if single else 3e-15) * ref.scale(P, R) + 1e-12 * sc
    mon.check(len(rc) == k and [len(c.ids) for c in rc] == [len(r) for r in rings], "offset:count", lambda: f"polygons of {[len(c.ids) for c in rc]} vertices instead of {[len(r) for r in rings]}")
    signs = set()
    for c, r in zip(rc, rings):
        p = P[r][:, uvw]
        g3 = R[c.ids]
        mon.close(g3[:, axis], np.full(len(r), P[r[0], axis]), "offset:plane", eps, "the plane of the polygon moved")
        g = g3[:, uvw]
        o = p - p.mean(axis=0)
        x, y = o.T
        A = 0.5 * (x * np.roll(y, -1) - np.roll(x, -1) * y).sum()
        s = np.sign(A)
        signs.add(s)
        if d == 0.0:
            mon.close(g, p, "offset:zero", eps, "offset by zero")
            continue
        e = np.roll(p, -1, axis=0) - p
        L = np.linalg.norm(e, axis=1)
        t = e / L[:, None]
        n = s * np.column_stack((t[:, 1], -t[:, 0]))  # outwards
        # vertex i: on the offset lines of edges i-1 and i
        exp = np.empty_like(p)
        for i in range(len(p)):
            M = np.array([n[i - 1], n[i]])
            det = np.linalg.det(M)
            if abs(det) < 1e-7:
                exp[i] = p[i] + d * n[i]
            else:
                exp[i] = p[i] + np.linalg.solve(M, [d, d])
        tol = eps * 60
        best = None
        for q in (g, g[::-1]):
            for sft in range(len(q)):
                z = np.abs(np.roll(q, sft, axis=0) - exp).max()
                if best is None or z < best[0]:
                    best = (z, np.roll(q, sft, axis=0))
        mon.check(best[0] <= tol, "offset:vertices", lambda: f"offset by {d}: {g.tolist()} instead of {exp.tolist()} (of {p.tolist()})"[:700])
        q = best[1]
        f = np.roll(q, -1, axis=0)
        mon.close(((q - p) * n).sum(axis=1), np.full(len(p), d), "offset:edges", tol, "distance of the start of the edges to the original ones")
        mon.close(((f - p) * n).sum(axis=1), np.full(len(p), d), "offset:edges", tol, "distance of the end of the edges to the original ones")
        notes.add("ran:outwards" if d > 0 else "ran:inwards")
        notes.add("ran:anticlockwise" if A > 0 else "ran:clockwise")
        if c06.concave(p):
            notes.add("ran:concave")
        cr = np.abs(t[:, 0] * np.roll(t, -1, axis=0)[:, 1] - t[:, 1] * np.roll(t, -1, axis=0)[:, 0])
        if (cr < 1e-9).any():
            notes.add("ran:collinear")
    if k > 1:
        notes.add("ran:several")
    if len(signs) > 1:
        notes.add("ran:mixed-orientation")
    if shared:
        notes.add("ran:shared")
    if single:
        notes.add("ran:single-precision")
    if utm:
        notes.add("ran:utm")
    if sc < 0.05:
        notes.add("ran:tiny-away" if ref.scale(off) > 30 else "ran:tiny")
    notes.add("ran:" + how)
    notes.add(f"ran:axis{axis}")


def quad_case(pvg, mon, rng, notes):
    axis = int(rng.integers(3))
    off = gen.offsets(rng)
    what = gen.choice(rng, ["tri", "quad", "both"])
    m = gen.unstructured_surface(rng, axis, off=off, what=what if what != "both" else "quad")
    cells = ref.cells_of(m)
    if what == "both":
        new = []
        for c in cells:
            if rng.random() < 0.5:
                a, b, c_, d = c.ids
                new += [ref.Cell(T.TRIANGLE, [a, b, c_]), ref.Cell(T.TRIANGLE, [c_, d, a])]
            else:
                new.append(c)
        m = meshes.from_cells(new, m.points)
    if rng.random() < 0.4:
        q = np.array(m.points)
        q[:, axis] += np.sin(3 * (q - off)).sum(axis=1)
        m.points = q
    if rng.random() < 0.4:
        gen.put_data(rng, m)
        gen.put_groups(rng, m)
    P = ref.points_of(m)
    cells = ref.cells_of(m)
    mon.scenario(what=what, off=off, axis=axis, pts=P[:12], n=len(cells))
    res = mon.call("quad", pvg.quadraticize, m)
    R = ref.points_of(res)
    eps = 1e-12 * ref.scale(P) + (1e-6 * ref.scale(P) if np.asarray(m.points).dtype == np.float32 else 0.0)
    mon.check(res.n_cells == len(cells), "quad:count", lambda: f"{res.n_cells} cells instead of {len(cells)}")
    want = {int(T.TRIANGLE): int(T.QUADRATIC_TRIANGLE), int(T.QUAD): int(T.QUADRATIC_QUAD)}
    for i, c in enumerate(cells):
        mon.check(int(res.celltypes[i]) == want[c.type], "quad:types", lambda: f"cell {i} of type {c.type} becomes {int(res.celltypes[i])}")
        ids = np.array(res.get_cell(i).point_ids)
        k = len(c.ids)
        mon.check(len(ids) == 2 * k, "quad:count", lambda: f"cell {i} has {len(ids)} points instead of {2 * k}")
        mon.close(R[ids[:k]], P[c.ids], "quad:corners", eps, f"corners of cell {i}")
        mon.close(R[ids[k:]], 0.5 * (P[c.ids] + P[np.roll(c.ids, -1)]), "quad:middles", eps * 2, f"edge midpoints of cell {i}")
    t = {c.type for c in cells}
    notes.add("ran:mixed" if len(t) > 1 else "ran:tri" if int(T.TRIANGLE) in t else "ran:quad")


def run_case(pvg, mon, rng, index, tier):
    notes = set()
    (offset_case if rng.random() < 0.7 else quad_case)(pvg, mon, rng, notes)
    for x in notes:
        mon.check(True, x)
