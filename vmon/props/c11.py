"""C11 meshed polygons cover exactly the shell minus the holes."""
import collections

import numpy as np
import pyvista as pv
import shapely
from shapely import Polygon

from .. import gen, ref
from ..core import Skip
from .c06 import star_polygon

T = pv.CellType
QUICK, THOROUGH = 8000, 40000
REQUIRED = {
    "generate", "kind", "vertices", "area", "conforming", "boundary", "size", "inside",
    "ran:holes", "ran:3d", "ran:dataset", "ran:polyline", "ran:quad", "ran:triangle", "ran:polygon", "ran:occ", "ran:closed", "ran:concave", "ran:far",
}
RULE = (
    "Random simple shells (convex, concave, any orientation and plane) with 0-3 disjoint holes, given as arrays, polylines or "
    "surface meshes, meshed with every cell type, engine, several algorithms and sizes; the cells are checked as a conforming tiling whose "
    "outline is the shell and the holes. Non-trivial: distinct polygon and options."
)
ASSUMPTIONS = ["a requested element size is checked within a factor 1.9 on every edge", "a dataset is a single polyline or a connected surface without holes"]


def plane_basis(rng, mode):
    if mode == 0:
        return np.eye(3)[:2], np.zeros(3)
    if mode == 1:
        k = int(rng.integers(3))
        e = np.eye(3)
        return np.array([e[(k + 1) % 3], e[(k + 2) % 3]]), rng.uniform(-2, 2, 3)
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    return q[:2], rng.uniform(-2, 2, 3)


def make_holes(rng, shell, n):
    S = Polygon(shell)
    holes, free = [], S.buffer(-0.06)
    minx, miny, maxx, maxy = S.bounds
    for _ in range(40):
        if len(holes) == n:
            break
        h = star_polygon(rng) * rng.uniform(0.05, 0.25) + np.array([rng.uniform(minx, maxx), rng.uniform(miny, maxy)])
        H = Polygon(h)
        if H.is_valid and H.area > 1e-3 and free.contains(H):
            holes.append(h)
            free = free.difference(H.buffer(0.06))
    return holes


def as_input(rng, ring, mode3, closed, form, E, o):
    """ring (n, 2) -> argument given to Polygon."""
    p = np.vstack((ring, ring[:1])) if closed else ring
    if form == "array":
        if mode3 == 0 and rng.random() < 0.6:
            return p.copy() if rng.random() < 0.5 else p.tolist()
        q = p @ E + o
        return q if rng.random() < 0.5 else q.tolist()
    q = ring @ E + o
    n = len(q)
    if form == "polyline":
        ids = [*range(n), 0] if closed else [*range(n)]
        if rng.random() < 0.3:  # unused and permuted points
            perm = rng.permutation(n)
            inv = np.argsort(perm)
            return pv.PolyData(np.vstack((q[perm], o + 9.0)), lines=[len(ids), *[int(inv[i]) for i in ids]])
        return pv.PolyData(q, lines=[len(ids), *ids])
    return pv.PolyData(q, faces=[n, *range(n)])


def run_case(pvg, mon, rng, index, tier):
    s = gen.choice(rng, [1.0, 1.0, 1.0, 50.0, 0.05])
    shell = star_polygon(rng)
    if shell is None or not Polygon(shell).is_valid:
        raise Skip("self-crossing")
    mode3 = int(rng.integers(3))
    far = rng.random() < 0.15  # projected coordinates: round-off matters to the mesher
    if far:
        s, mode3 = 1.0, int(rng.integers(1, 3))
    E, o = plane_basis(rng, mode3)
    holes = make_holes(rng, shell, int(rng.integers(0, 4))) if rng.random() < 0.6 else []
    shell, holes, o = shell * s, [h * s for h in holes], o * s + (np.array([431250.0, 4582000.0, 1250.0]) if far else gen.offsets(rng) if mode3 and s >= 1 else 0.0)
    if not holes and rng.random() < 0.25:
        # outline of a surface mesh
        axis = int(rng.integers(3))
        m = gen.structured_surface(rng, axis) if rng.random() < 0.5 else gen.unstructured_surface(rng, axis)
        m.points = m.points * s
        edges = collections.Counter()
        for c in ref.cells_of(m):
            r = c.ring().tolist()
            for e in zip(r, r[1:] + r[:1]):
                edges[frozenset(e)] += 1
        nxt = collections.defaultdict(list)
        for e, k in edges.items():
            if k == 1:
                a, b = e
                nxt[a].append(b)
                nxt[b].append(a)
        if any(len(v) != 2 for v in nxt.values()):
            raise Skip("outline touches itself")
        ids = [next(iter(nxt))]
        ids.append(nxt[ids[0]][0])
        while True:
            a = [x for x in nxt[ids[-1]] if x != ids[-2]][0]
            if a == ids[0]:
                break
            ids.append(a)
        S3 = ref.points_of(m)[ids]
        H3, arg, hargs, form, closed = [], m, [], "dataset", False
    else:
        form = gen.choice(rng, ["array", "array", "polyline", "face"])
        closed = bool(rng.random() < 0.5)
        arg = as_input(rng, shell, mode3, closed, form, E, o)
        hargs = []
        for h in holes:
            hargs.append(as_input(rng, h, mode3, bool(rng.random() < 0.5), gen.choice(rng, ["array", "array", "polyline", "face"]), E, o))
        S3, H3 = shell @ E + o, [h @ E + o for h in holes]
    ct = gen.choice(rng, [None, "triangle", "quad"]) if holes else gen.choice(rng, [None, "polygon", "triangle", "triangle", "quad"])
    eff = ct or ("triangle" if holes else "polygon")
    kw = {}
    if holes or rng.random() < 0.2:
        kw["holes"] = hargs
    if ct:
        kw["celltype"] = ct
    size = None
    if rng.random() < 0.4:
        size = kw["cellsize"] = float(rng.uniform(0.15, 0.6) if rng.random() < 0.75 else rng.uniform(0.6, 2.5)) * s
    if rng.random() < (0.8 if far else 0.3):
        kw["algorithm"] = int(gen.choice(rng, [1, 5, 6, 8]))
    if rng.random() < 0.4:
        kw["engine"] = gen.choice(rng, ["gmsh", "occ", "occ"])
    if rng.random() < 0.15:
        kw["optimization"] = gen.choice(rng, ["Laplace2D", "Relocate2D"])
    if far:
        mon.check(True, "ran:far")
    mon.scenario(shell=S3, holes=[list(h[0]) + [len(h)] for h in H3], form=form, closed=closed, kw={k: v for k, v in kw.items() if k != "holes"})
    mesh = mon.call("generate", pvg.Polygon, arg, **kw)
    P = ref.points_of(mesh)
    cells = ref.cells_of(mesh)
    allowed = {"triangle": {int(T.TRIANGLE)}, "quad": {int(T.QUAD), int(T.TRIANGLE)}, "polygon": {int(T.POLYGON)}}[eff]
    mon.check(len(cells) > 0 and {c.type for c in cells} <= allowed, "kind", lambda: f"cell types {sorted({c.type for c in cells})} for {eff}")
    if eff == "quad" and size is not None and size <= 0.6 * s and not kw.get("optimization"):
        nq = sum(c.type == int(T.QUAD) for c in cells)
        mon.check(nq >= 0.3 * len(cells) or len(cells) < 6, "kind", lambda: f"only {nq} of {len(cells)} cells are quads")
    if eff == "polygon":
        mon.check(len(cells) == 1, "kind", lambda: f"{len(cells)} cells for a polygon")
    allr = [S3, *H3]
    V = np.vstack(allr)
    ext = float(np.ptp(V, axis=0).max())
    tol = 2e-6 * ext + 1e-12 * ref.scale(V)
    used = np.unique(np.concatenate([c.ids for c in cells]))
    d = np.linalg.norm(P[used][:, None] - V[None], axis=2)
    mon.check(d.min(axis=0).max() < tol, "vertices", lambda: f"vertex {V[d.min(axis=0).argmax()].tolist()} is not a mesh point")
    n0 = ref.area_vec(S3)
    nrm = n0 / np.linalg.norm(n0)
    want = np.linalg.norm(n0) - sum(np.linalg.norm(ref.area_vec(h)) for h in H3)
    areas = np.array([float(ref.area_vec(P[c.ring()]) @ nrm) for c in cells])
    # Gmsh may fold a few quads of coarse recombined meshes over each other: signed areas then
    strict = eff != "quad" and "optimization" not in kw
    mon.close(np.abs(areas).sum() if strict else abs(areas.sum()), want, "area", 1e-5 * np.linalg.norm(n0), "total area")
    off = np.abs((P[used] - S3[0]) @ nrm).max()
    mon.check(off < tol, "inside", lambda: f"point {off:g} off the plane of the shell")
    # conforming: every edge shared by two cells or part of the outline exactly once
    lab = np.arange(len(P))
    ec = collections.Counter()
    for c in cells:
        r = c.ring().tolist()
        for e in zip(r, r[1:] + r[:1]):
            ec[frozenset(e)] += 1
    folded = not strict and max(ec.values()) > 2
    mon.check(folded or max(ec.values()) <= 2, "conforming", lambda: "an edge is shared by more than two cells")
    if folded:
        mon.notes["folded"] += 1
        return
    bnd = [tuple(e) for e, k in ec.items() if k == 1]
    ends = np.vstack([np.roll(r, -1, axis=0) for r in allr])
    covered, pieces = np.zeros(len(V)), np.zeros(len(V), dtype=int)
    for a, b in bnd:
        pa, pb = P[a], P[b]
        k = None
        for i in range(len(V)):
            dv = ends[i] - V[i]
            L = np.linalg.norm(dv)
            ta, tb = (pa - V[i]) @ dv / L, (pb - V[i]) @ dv / L
            if (
                np.linalg.norm(pa - V[i] - ta * dv / L) < tol and np.linalg.norm(pb - V[i] - tb * dv / L) < tol
                and min(ta, tb) > -tol and max(ta, tb) < L + tol
            ):
                k = i
                covered[i] += abs(tb - ta)
                pieces[i] += 1
                break
        mon.check(k is not None, "boundary", lambda: f"outline edge {pa.tolist()}-{pb.tolist()} is not on the shell or a hole")
    L = np.linalg.norm(ends - V, axis=1)
    mon.close(covered, L, "boundary", 20 * tol, "length of the outline along every given edge")
    if size is not None and eff != "polygon":
        lo, hi = np.inf, 0.0
        for e in ec:
            a, b = tuple(e)
            hi = max(hi, float(np.linalg.norm(P[a] - P[b])))
        mon.check(hi <= 1.9 * size, "size", lambda: f"edge of length {hi:g} for elements of size {size:g}")
        most = 2 * np.ceil(L / size - 1e-6)
        mon.check((pieces <= most).all(), "size", lambda: f"given edges of lengths {L.tolist()} divided into {pieces.tolist()} for elements of size {size:g}")
        area1 = want / len(cells)
        mon.notes[f"min-area-ratio:{round(area1 / size**2, 1)}"] += 1
        short = L.min() > size and size <= 0.6 * s
        if short:
            mon.check(area1 > 0.1 * size**2, "size", lambda: f"mean cell area {area1:g} for elements of size {size:g}")
    for n, on in {
        "holes": holes and form != "dataset", "3d": mode3 > 0, "dataset": form == "dataset", "polyline": form == "polyline", eff: True,
        "occ": kw.get("engine") == "occ", "closed": closed, "concave": Polygon(shell).convex_hull.area > Polygon(shell).area * 1.01,
    }.items():
        if on:
            mon.check(True, "ran:" + n)
