"""Independent account of clipped Voronoi cells."""
from __future__ import annotations

import numpy as np
import pyvista as pv
import shapely
from shapely import Polygon
from shapely.ops import unary_union

from . import gen, ref
from .core import Skip


def halfplane(poly, p, q):
    """Part of the convex polygon nearer to p than to q."""
    m = 0.5 * (p + q)
    n = q - p
    d = (poly - m) @ n
    out = []
    for i in range(len(poly)):
        j = (i + 1) % len(poly)
        if d[i] <= 0:
            out.append(poly[i])
        if (d[i] < 0 < d[j]) or (d[j] < 0 < d[i]):
            t = d[i] / (d[i] - d[j])
            out.append(poly[i] + t * (poly[j] - poly[i]))
    return np.array(out)


def voronoi_polygon(pts, i, box):
    poly = box
    d = np.linalg.norm(pts - pts[i], axis=1)
    for j in np.argsort(d, kind="stable"):
        if j == i:
            continue
        if len(poly) and d[j] > 2 * np.linalg.norm(poly - pts[i], axis=1).max():
            break
        poly = halfplane(poly, pts[i], pts[j])
        if len(poly) < 3:
            return None
    return Polygon(poly)


def domain(mesh, keep, cells=None):
    P = ref.points_of(mesh)
    return unary_union([Polygon(P[c.ring()][:, keep]) for c in ref.cells_of(mesh)])


def background(rng, axis, off, holes=True):
    """-> (kind, mesh); planar, connected, possibly with holes."""
    kind = gen.choice(rng, ["struct", "unstr", "unstr", "rect", "image", "holes", "holes", "concave"])
    if kind in ("rect", "image"):
        return kind, gen.grid_surface(rng, kind, axis, off).cast_to_structured_grid()
    if kind == "struct":
        return kind, gen.structured_surface(rng, axis, gen.count(rng, 2, 6, 12), gen.count(rng, 2, 6, 12), off=off)
    if kind == "unstr":
        return kind, gen.unstructured_surface(rng, axis, off, nu=gen.count(rng, 2, 6, 12), nv=gen.count(rng, 2, 6, 12))
    nu, nv = int(rng.integers(3, 7)), int(rng.integers(3, 7))
    m = gen.unstructured_surface(rng, axis, off, what="quad", nu=nu, nv=nv)
    keep = [k for k in range(3) if k != axis]
    if kind == "holes":
        # a hole: one interior block
        P = ref.points_of(m)
        outer = domain(m, keep).exterior
        inner = [i for i, c in enumerate(ref.cells_of(m)) if Polygon(P[c.ring()][:, keep]).distance(outer) > 1e-9]
        rng.shuffle(inner)
        rm = []
        for i in inner:
            ids = set(ref.cells_of(m)[i].ids.tolist())
            if all(not (ids & set(ref.cells_of(m)[j].ids.tolist())) for j in rm):
                rm.append(i)
            if len(rm) >= 2:
                break
        rm = rm[: int(rng.integers(1, 3))]
        return kind, drop_cells(m, rm)
    # concave outline: a corner block removed
    P = ref.points_of(m)
    d = domain(m, keep)
    lo = P[:, keep].min(axis=0)
    cen = np.array([P[c.ids].mean(axis=0)[keep] for c in ref.cells_of(m)])
    sgn = rng.choice([-1, 1], 2)
    i = int(np.argmax((cen - lo) @ sgn))
    return kind, drop_cells(m, [i])


def layer(rng, axis, off):
    """Grid with thin layers of cells along the outline."""
    co = []
    for _ in range(2):
        t = gen.ticks(rng, int(rng.integers(2, 5)))
        d = np.diff(t)
        for k in (0, -1):
            if rng.random() < 0.6:
                d[k] = 10 ** rng.uniform(-2.9, -1)
        co.append(np.concatenate(([0.0], np.cumsum(d))))
    U, V = np.meshgrid(*co, indexing="ij")
    V = V + rng.uniform(-0.3, 0.3) * U
    a, b, c = gen.IJK[axis]
    X = [None] * 3
    X[a], X[b], X[c] = U, V, np.zeros(U.shape)
    shape = list(U.shape)
    shape.insert(axis, 1)
    return pv.StructuredGrid(*[x.reshape(shape) + off[k] for k, x in enumerate(X)])


def comb(rng, axis, off):
    """A single concave polygon with thin slots, so that regions of the plane are cut into several parts."""
    a, b = rng.uniform(2, 10, 2)
    n = int(rng.integers(1, 4))
    x = np.sort(rng.uniform(0.1, 0.9, n))
    if n > 1 and np.diff(x).min() < 0.1:
        x = np.linspace(0.2, 0.8, n)
    ring = [[0, 0], [a, 0], [a, b]]
    for t in x[::-1]:
        w, h = a * rng.uniform(0.002, 0.04), b * rng.uniform(0.05, 0.5)
        ring += [[a * t + w, b], [a * t + w * rng.uniform(0.3, 1), h], [a * t - w, h], [a * t - w, b]]
    ring = np.array(ring + [[0, b]], dtype=float)
    c, s = np.cos(u := rng.uniform(0, 6)), np.sin(u)
    if rng.random() < 0.5:
        ring = ring @ np.array([[c, s], [-s, c]])
    if rng.random() < 0.5:
        ring = ring[::-1]
    ring = np.roll(ring, int(rng.integers(len(ring))), axis=0)
    P = np.insert(ring, axis, 0.0, axis=1) + np.where(np.arange(3) == axis, 0.0, off)
    return "comb", pv.UnstructuredGrid(np.array([len(P), *range(len(P))]), np.array([7], dtype=np.uint8), P)


def pinhole(rng, axis, off):
    """Quads around a small hole: -> kind, mesh, a point so close to the hole that its region encloses it."""
    k = int(rng.integers(3, 8))
    t = np.linspace(0, 2 * np.pi, k, endpoint=False) + rng.uniform(0, 6) + rng.uniform(-0.2, 0.2, k)
    u = np.column_stack((np.cos(t), np.sin(t)))
    r = rng.uniform(0.02, 0.2)
    c = rng.uniform(-3, 3, 2) + np.delete(off, axis)
    ring = np.vstack((c + u * rng.uniform(2.5, 6, k)[:, None], c + r * u))
    quads = [(4, i, (i + 1) % k, k + (i + 1) % k, k + i) for i in range(k)]
    P = np.insert(ring, axis, 0.0, axis=1)
    v = rng.uniform(0, 6)
    near = c + (r + rng.uniform(0.02, 0.3)) * np.array([np.cos(v), np.sin(v)])
    return "pinhole", pv.UnstructuredGrid(np.ravel(quads), np.full(k, 9, dtype=np.uint8), P), near


def islands(rng, axis, off):
    """Two or three separate pieces, possibly one with a hole."""
    keep = [k for k in range(3) if k != axis]
    pts, cells, types, x = [], [], [], 0.0
    for _ in range(int(rng.integers(2, 4))):
        _, m = background(rng, axis, np.zeros(3))
        P = ref.points_of(m) - np.where(np.arange(3) == keep[0], ref.points_of(m).min(axis=0)[keep[0]] - x, 0.0)
        x = P[:, keep[0]].max() + rng.uniform(0.1, 2.0)
        n = sum(len(p) for p in pts)
        for c in ref.cells_of(m):
            r = [int(i) + n for i in c.ring()]
            cells += [len(r), *r]
            types.append(9 if len(r) == 4 else 5 if len(r) == 3 else 7)
        P[:, axis] = 0.0
        pts.append(P)
    return "islands", pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), np.vstack(pts) + np.where(np.arange(3) == axis, 0.0, off))


def drop_cells(m, rm):
    cells = ref.cells_of(m)
    keep = [c for i, c in enumerate(cells) if i not in set(rm)]
    used = np.unique(np.concatenate([c.ids for c in keep]))
    new = -np.ones(m.n_points, dtype=int)
    new[used] = np.arange(len(used))
    return pv.UnstructuredGrid(
        np.array([x for c in keep for x in (len(c.ids), *new[c.ids])]),
        np.array([c.type for c in keep], dtype=np.uint8),
        ref.points_of(m)[used],
    )


def interior_points(rng, dom, n, existing, dmin):
    minx, miny, maxx, maxy = dom.bounds
    from shapely import Point

    out = []
    inner = dom.buffer(-dmin / 2)
    for _ in range(60 * n):
        if len(out) == n:
            break
        p = np.array([rng.uniform(minx, maxx), rng.uniform(miny, maxy)])
        if not inner.contains(Point(p)):
            continue
        q = np.vstack((existing, *out)) if len(out) else existing
        if len(q) and np.linalg.norm(q - p, axis=1).min() < dmin:
            continue
        out.append(p)
    return np.array(out).reshape(-1, 2)


def centers(mesh):
    P = ref.points_of(mesh)
    return np.array([P[c.ids].mean(axis=0) for c in ref.cells_of(mesh)])


def outside(dom, q):
    """Distance of every point to the domain (0 inside)."""
    return shapely.distance(dom, shapely.points(q))


def ring_samples(p, n=6):
    """Vertices, points along the edges and inner points of a polygon."""
    r = np.roll(p, -1, axis=0)
    t = (np.arange(n) / n)[:, None, None]
    return (p[None] * (1 - t) + r[None] * t).reshape(-1, 2)


def expected_cells(gp, dom, split=False):
    """Expected polygons (or Skip when one is not a simple polygon, or several of them if split)."""
    b = np.array(dom.bounds)
    L = 10 * max(b[2] - b[0], b[3] - b[1]) + np.abs(gp - b[:2]).max()
    c = 0.5 * (b[:2] + b[2:])
    box = c + L * np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]])
    out = []
    for i in range(len(gp)):
        p = voronoi_polygon(gp, i, box)
        if p is None:
            raise Skip("empty region")
        try:
            q = shapely.intersection(dom, p, grid_size=1e-9)  # snap rounding: robust
        except shapely.errors.GEOSException:
            raise Skip("reference intersection failed")
        if split and q.geom_type == "MultiPolygon" and not any(g.area < 1e-6 for g in q.geoms):
            out.append(q)
            continue
        if q.is_empty or q.geom_type != "Polygon" or (len(q.interiors) and not split) or q.area < 1e-6:
            raise Skip("part of the domain not a simple polygon")
        out.append(q)
    return out
