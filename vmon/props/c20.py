"""C20 ray casting."""
import collections

import numpy as np
import pyvista as pv

from .. import core, gen, meshes, ref
from . import c14

T = pv.CellType
QUICK, THOROUGH = 12000, 80000
REQUIRED = {
    "cast", "cast:none", "cast:faces", "cast:missed", "cast:extra", "cast:owners", "cast:point", "cast:angle", "ran:volume", "ran:edges", "ran:surface", "ran:lines", "ran:polyhedron", "ran:several",
    "ran:inside", "ran:max-angle", "ran:perpendicular", "ran:hidden", "ran:utm", "ran:axis-parallel",
}
RULE = (
    "Planar-faced volumes, planar surfaces, polydata surfaces and line sets of every cell type; segments through, into, inside, beside the mesh, "
    "axis-parallel and oblique; every edge/face is intersected by independent code, cases within a margin of an edge, an end or the limit angle are "
    "left to the implementation. Non-trivial: distinct mesh and segment."
)


def inside(poly, x, n):
    """-1 outside, +1 inside, 0 too close to call (relative margin)."""
    L = np.linalg.norm(poly - poly.mean(axis=0), axis=1).max()
    w = 0.0
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        d = b - a
        dd = float(d @ d)
        t = np.clip(float((x - a) @ d) / dd, 0, 1) if dd > 0 else 0.0
        if np.linalg.norm(x - a - t * d) < 2e-4 * L:
            return 0
        u, v = a - x, b - x
        w += np.arctan2(float(n @ np.cross(u, v)), float(u @ v))
    return 1 if abs(w) > np.pi else -1


def face_hit(poly, a, b, limit):
    """(verdict, point, angle); verdict +1 hit, -1 not, 0 undecided"""
    n = ref.area_vec(poly)
    A = np.linalg.norm(n)
    if A == 0.0:
        return 0, None, None
    n = n / A
    d = b - a
    L = np.linalg.norm(d)
    u = d / L
    h = float((poly[0] - a) @ n)
    c = float(u @ n)
    size = np.linalg.norm(poly - poly.mean(axis=0), axis=1).max()
    ang = np.degrees(np.arccos(min(1.0, abs(c))))
    if abs(c) < 2e-3:
        # parallel to the face: no crossing in general position
        return (0 if abs(h) < 5e-3 * (size + L) else -1), None, ang
    t = h / c
    x = a + t * u
    k = inside(poly, x, n)
    if k < 0:
        return -1, None, ang
    m = 1e-4 * (size + L)
    if abs(t) < m or abs(t - L) < m:
        return 0, x, ang
    if not 0 < t < L:
        return -1, None, ang
    if k == 0 or (limit > 0.0 and abs(ang - limit) < 0.05):
        return 0, x, ang
    if ang >= limit:
        return -2, x, ang  # crossed but left out because of its angle
    return 1, x, ang


def edge_hit(p, q, a, b, normal):
    """Two coplanar segments."""
    d, e = b - a, q - p
    L, M = np.linalg.norm(d), np.linalg.norm(e)
    if M == 0:
        return 0, None
    den = float(normal @ np.cross(d, e))
    if abs(den) < 2e-3 * L * M:
        dist = np.linalg.norm(np.cross(p - a, d)) / L
        return (0 if dist < 5e-3 * (L + M) else -1), None
    t = float(normal @ np.cross(p - a, e)) / den
    s = float(normal @ np.cross(p - a, d)) / den
    m, k = 1e-4, 1e-4
    if t < -m or t > 1 + m or s < -k or s > 1 + k:
        return -1, None
    if m < t < 1 - m and k < s < 1 - k:
        return 1, a + t * d
    return 0, None


def segment(rng, P, plane=None):
    """A segment relating to the box of P; in-plane if plane=(axis, value)."""
    lo, hi = P.min(axis=0), P.max(axis=0)
    D = np.maximum(hi - lo, 1e-3 * (hi - lo).max())
    k = gen.choice(rng, ["through", "through", "into", "inside", "beside", "axis", "touch"])

    def inner():
        return lo + rng.uniform(0.02, 0.98, 3) * D

    def outer():
        v = rng.normal(size=3)
        if plane is not None:
            v[plane[0]] = 0.0
        v /= np.linalg.norm(v)
        return (lo + hi) / 2 + v * np.linalg.norm(D) * rng.uniform(0.8, 1.6)

    if k == "through":
        c = inner()
        a = outer()
        b = c + (c - a) * rng.uniform(0.5, 2)
    elif k == "into":
        a, b = outer(), inner()
    elif k == "inside":
        a, b = inner(), inner()
    elif k == "beside":
        a = outer()
        t = rng.normal(size=3)
        b = a + t / np.linalg.norm(t) * np.linalg.norm(D) * 0.2
    elif k == "axis":
        c = inner()
        ax = int(rng.choice([i for i in range(3) if plane is None or i != plane[0]]))
        a, b = c.copy(), c.copy()
        a[ax], b[ax] = lo[ax] - D[ax] * rng.uniform(-0.6, 0.5), hi[ax] + D[ax] * rng.uniform(-0.6, 0.5)
    else:
        a = inner()
        b = a + rng.normal(size=3) * D * 0.05
    if rng.random() < 0.5:
        a, b = b, a
    if plane is not None:
        a[plane[0]] = b[plane[0]] = plane[1]
    return k, a, b


def run_case(pvg, mon, rng, index, tier):
    notes = set()
    off = gen.offsets(rng)
    what = gen.choice(rng, ["volume", "volume", "edges", "surface", "lines"])
    sc = 10.0 ** rng.uniform(-1.5, 2.5) if rng.random() < 0.5 and ref.scale(off) < 1e4 else 1.0
    plane = None
    if what == "volume":
        for _ in range(50):
            kind, m = meshes.volume(rng)
            if kind not in ("struct", "collapsed"):
                break
        else:
            raise core.Skip("no planar volume")
    elif what == "edges":
        axis = int(rng.integers(3))
        kind = gen.choice(rng, ["unstr", "unstr", "struct", "image"])
        m = gen.unstructured_surface(rng, axis) if kind == "unstr" else gen.structured_surface(rng, axis) if kind == "struct" else gen.grid_surface(rng, "image", axis, np.zeros(3))
        plane = axis
    elif what == "surface":
        kind = gen.choice(rng, ["cube", "sphere", "flat", "plane"])
        if kind == "cube":
            m = pv.Cube(x_length=2, y_length=1.3, z_length=0.8)
        elif kind == "sphere":
            m = pv.Sphere(radius=1.5, theta_resolution=9, phi_resolution=8)
        elif kind == "flat":
            s = gen.unstructured_surface(rng, int(rng.integers(3)))
            m = pv.PolyData(np.array(s.points), faces=[int(x) for c in ref.cells_of(s) for x in (len(c.ring()), *c.ring())])
        else:
            m = pv.Plane(i_resolution=3, j_resolution=2, i_size=3, j_size=2)
        m = pv.PolyData(np.array(m.points, dtype=float), faces=np.array(m.faces))
    else:
        kind = "lines"
        axis = int(rng.integers(3))
        n = int(rng.integers(3, 9))
        P = gen.embed(rng.uniform(-3, 3, (n, 2)), 0.0, axis)
        e = {tuple(sorted(int(x) for x in rng.permutation(n)[:2])) for _ in range(int(rng.integers(1, 8)))}
        m = pv.PolyData(P, lines=[x for p in sorted(e) for x in (2, *p)])
        plane = axis
    if isinstance(m, pv.ImageData) or isinstance(m, pv.RectilinearGrid):
        sc, off = 1.0, np.zeros(3)
    else:
        m.points = np.array(m.points, dtype=float) * sc + off
    m.clear_data()
    if rng.random() < 0.25 and not isinstance(m, pv.PolyData):
        meshes.hide(rng, m)
        notes.add("ran:hidden")
    P = ref.points_of(m)
    cells = ref.cells_of(m)
    dim = 3 if what == "volume" else 2
    if what in ("volume", "edges"):
        exp = collections.OrderedDict()
        for i, c in enumerate(cells):
            for f in c14.parts(c, dim):
                o, r = exp.setdefault(frozenset(f), ([], f))
                if i not in o:
                    o.append(i)
        items = [(r, o) for o, r in exp.values()]
    else:
        items = [([int(x) for x in c.ids], [i]) for i, c in enumerate(cells)]
    pl = None if plane is None else (plane, P[0, plane])
    skind, a, b = segment(rng, P, pl)
    if np.linalg.norm(b - a) < 1e-6 * (1 + ref.scale(P)):
        mon.trivial = True
        return
    limit, kw = 90.0, {}
    faces = what in ("volume", "surface")
    if rng.random() < 0.35 and faces:
        limit = float(rng.uniform(5, 89.5)) if rng.random() < 0.93 else 0.0
        kw["max_angle"] = limit
        notes.add("ran:max-angle")
    if faces and rng.random() < 0.2:
        # perpendicular to one face, through its interior
        f = items[int(rng.integers(len(items)))][0]
        q = P[list(f)]
        n = ref.area_vec(q)
        if np.linalg.norm(n) > 0:
            n = n / np.linalg.norm(n)
            w = rng.uniform(0.2, 1, 3)
            c = (w / w.sum()) @ q[:3]
            L = np.linalg.norm(np.ptp(P, axis=0))
            a, b = c - n * L * rng.uniform(0.05, 0.6), c + n * L * rng.uniform(0.05, 0.6)
            skind = "perpendicular"
            notes.add("ran:perpendicular")
    hits, maybe = {}, set()
    for k, (f, o) in enumerate(items):
        if faces:
            v, x, ang = face_hit(P[list(f)], a, b, limit)
            if v == -2:
                notes.add("angle")
        else:
            nv = np.eye(3)[plane]
            v, x = edge_hit(P[f[0]], P[f[1]], a, b, nv)
        if v == 1:
            hits[k] = x
        elif v == 0:
            maybe.add(k)
    utm = ref.scale(P) > 1e4
    mon.scenario(kind=kind, what=what, cls=type(m).__name__, n=len(cells), seg=skind, a=a, b=b, sc=sc, hidden=int("vtkGhostType" in m.cell_data), **kw)
    aa, bb = (a.tolist(), b.tolist()) if rng.random() < 0.3 else (a.copy(), b.copy())
    res = mon.call("cast", pvg.ray_cast, m, aa, bb, **kw)
    if res is None:
        mon.check(not hits, "cast:missed", lambda: f"nothing reported, {len(hits)} crossed: {[items[k][0] for k in hits][:4]}")
        if not maybe:
            mon.check(True, "cast:none")
        return
    R = ref.points_of(res)
    rc = ref.cells_of(res)
    own = np.asarray(res.cell_data["vtkOriginalCellIds"])
    X = np.asarray(res.cell_data["IntersectionPoints"], dtype=float)
    mon.check(len(rc) == len(own) == len(X) and len(rc) > 0, "cast:faces", lambda: f"{len(rc)} cells, {len(own)} owners, {len(X)} points")
    S = np.linalg.norm(np.ptp(P, axis=0)) + np.linalg.norm(b - a)
    eps = 1e-6 * (1e-3 * S + ref.scale(P)) if isinstance(m, (pv.ImageData, pv.RectilinearGrid)) else 1e-10 * (S + ref.scale(P))
    by_owner = collections.defaultdict(list)
    for k, (f, o) in enumerate(items):
        by_owner[frozenset(o)].append(k)
    seen = set()
    for c, o, x in zip(rc, own, X):
        oo = frozenset(int(i) for i in np.atleast_1d(o) if i != -1)
        q = R[c.ids]
        mon.check(oo in by_owner, "cast:owners", lambda: f"no {'face' if faces else 'edge'} is owned by cells {sorted(oo)}")
        m_ = [k for k in by_owner[oo] if len(items[k][0]) == len(q) and np.abs(np.array(sorted(q.tolist())) - np.array(sorted(P[list(items[k][0])].tolist()))).max() <= eps]
        if not m_:
            m_ = [k for k in by_owner[oo] if len(items[k][0]) == len(q) and all(np.abs(P[list(items[k][0])] - y).max(axis=1).min() <= eps for y in q)]
        mon.check(m_, "cast:faces", lambda: f"reported {q.tolist()} is not a {'face' if faces else 'edge'} of cells {sorted(oo)}"[:500])
        k = m_[0]
        mon.check(k not in seen, "cast:faces", lambda: "reported twice")
        seen.add(k)
        mon.check(k in hits or k in maybe, "cast:extra", lambda: f"{items[k][0]} is reported but not crossed (or left out by its angle)")
        if k in hits:
            # single precision normals: error grows with incidence
            if faces:
                n = ref.area_vec(P[list(items[k][0])])
                cosi = abs(float((b - a) @ n)) / (np.linalg.norm(n) * np.linalg.norm(b - a))
                pt = (2e-6 * S + 1e-9 * ref.scale(P)) / cosi
            else:
                pt = 1e-7 * S + 1e-9 * ref.scale(P)
            mon.close(x, hits[k], "cast:point", pt, f"crossing point with {items[k][0]}")
    miss = [items[k][0] for k in hits if k not in seen]
    mon.check(not miss, "cast:missed", lambda: f"crossed but not reported: {miss[:4]} (of {len(hits)})")
    notes.add("ran:" + what)
    if len(hits) > 2:
        notes.add("ran:several")
    if skind == "inside":
        notes.add("ran:inside")
    if skind == "axis":
        notes.add("ran:axis-parallel")
    if utm:
        notes.add("ran:utm")
    if any(c.type == int(T.POLYHEDRON) for c in cells):
        notes.add("ran:polyhedron")
    if "angle" in notes:
        notes.discard("angle")
        notes.add("cast:angle")
    for x in notes:
        mon.check(True, x)
