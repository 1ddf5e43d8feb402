"""C06 extruded polyhedra are closed and outward."""
import numpy as np
import pyvista as pv

from .. import gen, ref, stackmodel as sm

T = pv.CellType
QUICK, THOROUGH = 6400, 40000
REQUIRED = {"generate", "closed", "opposite", "outward", "volume", "ran:concave", "ran:down", "ran:noinvert", "ran:stack", "ran:extrude", "ran:volume", "count"}
RULE = (
    "Random polygonal surfaces (convex, concave, with collinear vertices, either orientation, any starting vertex, any "
    "plane), swept up or down by Volume, MeshExtrude and MeshStack3D; every polyhedron's faces are checked as an "
    "oriented closed surface. Non-trivial: at least one polyhedron with non-zero extent checked."
)


def star_polygon(rng):
    """Simple polygon, star shaped about the origin: arbitrary radii, often concave."""
    n = int(rng.integers(3, 10))
    th = np.sort(rng.uniform(0, 2 * np.pi, n))
    while (np.diff(np.append(th, th[0] + 2 * np.pi)) < 0.15).any() or (np.diff(np.append(th, th[0] + 2 * np.pi)) > 2.6).any():
        th = np.sort(rng.uniform(0, 2 * np.pi, n))
        n = max(5, n)
        if len(th) < 5:
            th = np.sort(rng.uniform(0, 2 * np.pi, 5))
    r = rng.uniform(0.3, 2.0, len(th))
    p = np.column_stack((r * np.cos(th), r * np.sin(th)))
    if rng.random() < 0.4:  # collinear vertices
        k = int(rng.integers(len(p)))
        p = np.insert(p, k + 1, 0.5 * (p[k] + p[(k + 1) % len(p)]), axis=0)
    if rng.random() < 0.5:
        p = p[::-1]
    return np.roll(p, int(rng.integers(len(p))), axis=0)


def polygons(rng, axis, off):
    polys, pts = [], []
    for k in range(int(rng.integers(1, 5))):
        p = star_polygon(rng) + np.array([5.0 * k, 0.0])
        ids = np.arange(len(p)) + len(pts)
        if rng.random() < 0.3:
            perm = rng.permutation(len(p))
            inv = np.argsort(perm)
            p, ids = p[perm], ids[inv]
        pts += p.tolist()
        polys.append(ids)
    P = gen.embed(np.array(pts), 0.0, axis) + off
    return pv.UnstructuredGrid(np.array([x for c in polys for x in (len(c), *c)]), np.full(len(polys), int(T.POLYGON), dtype=np.uint8), P)


def concave(p2):
    d = np.roll(p2, -1, axis=0) - p2
    e = np.roll(d, -1, axis=0)
    c = d[:, 0] * e[:, 1] - d[:, 1] * e[:, 0]
    return (c > 1e-9).any() and (c < -1e-9).any()


def run_case(pvg, mon, rng, index, tier):
    axis = int(rng.integers(3))
    off = gen.offsets(rng)
    if rng.random() < 0.6:
        base = polygons(rng, axis, off)
    else:
        base = gen.unstructured_surface(rng, axis, off, what=gen.choice(rng, ["concave", "mixed", "poly"]))
    how = gen.choice(rng, ["volume", "extrude", "stack"])
    inv = True if how != "stack" else bool(rng.random() < 0.75)
    explicit = how == "stack" and inv and rng.random() < 0.3
    kw = {} if inv and not explicit else {"invert_polyhedron_faces": inv}
    res = int(rng.integers(1, 4))
    up = gen.choice(rng, [1.0, -1.0])
    h = float(rng.uniform(0.3, 3.0))
    v = np.zeros(3)
    v[axis] = up * h
    slant = rng.random() < 0.3
    if slant and how != "stack":
        v += rng.uniform(-0.5, 0.5, 3) * (np.arange(3) != axis)
    warp = rng.random() < 0.25
    mon.scenario(how=how, axis=axis, invert=inv, res=res, v=v, warp=warp, n=base.n_cells, off=off, p=np.asarray(base.points)[:6])
    P = ref.points_of(base)
    bump = rng.uniform(0, 0.2, len(P)) if warp else np.zeros(len(P))
    if how == "volume":
        top = base.copy()
        top.points = P + v * (1 + bump[:, None])
        mesh = mon.call("generate", pvg.Volume, base, top, resolution=res, **kw)
    elif how == "extrude":
        warp = False
        b = pvg.MeshExtrude(base)
        b.add(v, res)
        two = rng.random() < 0.3
        if two:
            b.add(v, 1)
        mesh = mon.call("generate", b.generate_mesh)
        res += int(two)
    else:
        b = pvg.MeshStack3D(base, axis=axis, bottom_up=up > 0)
        b.add(float(off[axis]))
        z = off[axis] + up * h * (1 + bump)
        b.add(lambda *_: z.copy(), res)
        mesh = mon.call("generate", b.generate_mesh, **kw)
    mon.check(True, "ran:" + how)
    if up < 0:
        mon.check(True, "ran:down")
    if not inv:
        mon.check(True, "ran:noinvert")
    keep = [k for k in range(3) if k != axis]
    bc = ref.cells_of(base)
    for c in bc:
        if c.type == int(T.POLYGON) and concave(P[c.ids][:, keep]):
            mon.check(True, "ran:concave")
            break
    Q = ref.points_of(mesh)
    npoly = 0
    areas = []
    for c in bc:
        if c.type == int(T.POLYGON):
            areas.append(np.linalg.norm(ref.area_vec(P[c.ids])))
    tot = 0.0
    for i, c in enumerate(ref.cells_of(mesh)):
        if c.type != int(T.POLYHEDRON):
            continue
        npoly += 1
        directed, undirected = {}, {}
        for f in c.faces:
            for a, b_ in zip(f, list(f[1:]) + [f[0]]):
                directed[a, b_] = directed.get((a, b_), 0) + 1
                e = (min(a, b_), max(a, b_))
                undirected[e] = undirected.get(e, 0) + 1
        mon.check(all(x == 2 for x in undirected.values()), "closed", lambda: f"polyhedron {i}: an edge is not shared by exactly two faces")
        if not inv:
            continue
        mon.check(all(x == 1 for x in directed.values()), "opposite", lambda: f"polyhedron {i}: an edge is traversed twice in the same direction")
        vol = ref.polyhedron_volume(Q, c.faces)
        mon.check(vol > 0, "outward", lambda: f"polyhedron {i}: faces point inwards (signed volume {vol:g})")
        tot += vol
    mon.check(npoly == len(areas) * res, "count", lambda: f"{npoly} polyhedra, expected {len(areas)} x {res}")
    if not npoly:
        mon.trivial = True
    if inv and not warp and npoly:
        mult = 2 if (how == "extrude" and two) else 1
        want = sum(areas) * h * mult
        mon.close(tot, want, "volume", 1e-6 * want + 1e-4 * (ref.scale(off) > 1e4) * want, "total volume of the polyhedra")
