"""C08 clipped Voronoi cells."""
import numpy as np
import pyvista as pv
from shapely import Polygon

from .. import gen, ref, vormodel as vm
from ..core import Skip

QUICK, THOROUGH = 4800, 30000
REQUIRED = {"generate", "simple", "orientation", "inside", "nearest", "cover", "one", "ran:holes", "ran:axis0", "ran:axis1", "ran:cw", "ran:point", "ran:added", "ran:vanished", "ran:utm", "ran:split", "ran:enclosed", "ran:islands", "ran:layer", "ran:noise", "ran:single"}
RULE = (
    "Random planar backgrounds (structured, unstructured, with holes, concave, with thin slots) in any axis plane, cell or point "
    "preference, added points; every cell is compared with the intersection of the domain and the half-planes of its "
    "recorded generating point. Non-trivial: distinct scenario in which every generating point's part of the domain consists of simple polygons."
)
ASSUMPTIONS = ["points at least 0.05 apart, domain extents about 1-12"]


def run_case(pvg, mon, rng, index, tier):
    axis = int(rng.integers(3))
    keep = [k for k in range(3) if k != axis]
    off = gen.offsets(rng)
    r, near = rng.random(), np.empty((0, 2))
    if r < 0.12:
        kind, bg = vm.comb(rng, axis, off)
    elif r < 0.2:
        kind, bg, near = vm.pinhole(rng, axis, off)
    elif r < 0.27:
        kind, bg = vm.islands(rng, axis, off)
    elif r < 0.34:
        kind, bg = "layer", vm.layer(rng, axis, off)
    elif r < 0.37:
        kind, bg = "one", gen.structured_surface(rng, axis, 2, 2, off=off)
    else:
        kind, bg = vm.background(rng, axis, off)
    pref = gen.choice(rng, ["cell", "cell", "point"]) if kind != "layer" else "cell"
    if rng.random() < 0.3 and kind in ("rect", "image", "struct", "comb", "one") and bg.points.dtype == np.float64:
        # outline that is straight but for round-off
        p = np.array(bg.points)
        p[:, keep] += rng.uniform(-1, 1, (len(p), 2)) * 10 ** rng.uniform(-10, -7)
        bg.points = p
        mon.check(True, "ran:noise")
    dom = vm.domain(bg, keep)
    doms = list(getattr(dom, "geoms", [dom]))
    base = vm.centers(bg)[:, keep] if pref == "cell" else ref.points_of(bg)[:, keep]
    extra = vm.interior_points(rng, dom, int(rng.integers(2, 9) if kind == "comb" else rng.integers(0, 6)), np.vstack((base, near.reshape(-1, 2))), 0.08)
    extra = np.vstack((near.reshape(-1, 2), extra))
    ap = np.vstack((base, extra))
    if len(ap) < 2:
        mon.check(True, "ran:single")
    if rng.random() < 0.3:
        bg.points[:, axis] += 0.7  # the discarded coordinate does not matter
    orientation = gen.choice(rng, [None, "CCW", "CW"])
    ml = gen.choice(rng, [None, None, 0.0, 1e-6, 1e-3 if kind != "layer" else 1e-5])
    tiny = rng.random() < 0.25
    if tiny:
        # a point so closely surrounded that its cell shrinks to nothing and is left out
        c = vm.interior_points(rng, dom, 1, ap, 0.2)
        if not len(c):
            raise Skip("no room")
        k = int(rng.integers(3, 8))
        mid = c
        a = np.linspace(0, 2 * np.pi, k, endpoint=False) + rng.uniform(0, 1)
        rho = 10 ** rng.uniform(-3, -2)
        ring = c + rho * np.column_stack((np.cos(a), np.sin(a)))
        extra = np.vstack([x for x in rng.permutation([0, 1, 2]) for x in ([extra], [c], [ring])[x]])
        ml = rho * rng.uniform(2.2, 4)
    kw = {}
    if orientation:
        kw["orientation"] = orientation
    if ml is not None:
        kw["min_length"] = ml
    ckw = {}
    if axis != 2 or rng.random() < 0.5:
        ckw["axis"] = axis
    if pref != "cell" or rng.random() < 0.5:
        ckw["preference"] = pref
    mon.scenario(kind=kind, axis=axis, pref=pref, n=bg.n_cells, orientation=orientation, min_length=ml, off=off, extra=extra, p=base[:3])
    ex3 = np.insert(extra, axis, float(rng.uniform(-1, 1)), axis=1)

    def go():
        b = pvg.VoronoiMesh2D(bg.copy(), **ckw)
        if len(extra):
            style = rng.integers(3)
            if style == 0:
                b.add(extra)
            elif style == 1:
                b.add(pv.PolyData(ex3))
            else:
                for p in ex3:
                    b.add(p[None, :])
        return b.generate_mesh(**kw)

    mesh = mon.call("generate", go)
    gp = np.column_stack([np.asarray(mesh.cell_data[k]) for k in "XYZ"])[:, keep]
    ug, count = np.unique(gp, axis=0, return_counts=True)
    parts = vm.expected_cells(ug, dom, split=True)  # precondition only
    P = ref.points_of(mesh)[:, keep]
    m_ = 1e-4 if ml is None else ml
    total = 0.0
    holes = [Polygon(r).representative_point() for d in doms for r in d.interiors]
    # cells inside the domain and inside their (convex) nearest region, with the right total area: a partition
    for i, c in enumerate(ref.cells_of(mesh)):
        p = P[c.ids]
        poly = Polygon(p)
        mon.check(len(set(c.ids.tolist())) == len(c.ids), "simple", lambda: f"cell {i} lists a point twice: {c.ids.tolist()}")
        mon.check(poly.is_valid and poly.area > 0, "simple", lambda: f"cell {i} is not a simple polygon: {p.tolist()}")
        a = ref.signed_area2(p)
        mon.check((a > 0) == (orientation != "CW"), "orientation", lambda: f"cell {i} has signed area {a:g} (requested {orientation})")
        tol = 4 * m_ + 1e-7
        far = vm.outside(dom, vm.ring_samples(p)).max()
        mon.check(far <= tol and not any(poly.contains(h) for h in holes), "inside", lambda: f"cell {i} leaves the domain by {far:g}")
        d = np.linalg.norm(p[:, None] - gp[None], axis=2)
        gap = float((d[:, i] - d.min(axis=1)).max())
        mon.check(gap <= 2 * tol, "nearest", lambda: f"cell {i} of point {gp[i].tolist()} has a corner {gap:g} nearer to another generating point")
        total += abs(a)
    for i, q in enumerate(parts):
        if q.geom_type == "Polygon" and not len(q.interiors):
            core = q.buffer(-3 * (4 * m_ + 1e-7))  # not nearly pinched
            if core.geom_type == "Polygon" and not core.is_empty:
                mon.check(count[i] == 1, "one", lambda: f"{count[i]} cells of point {ug[i].tolist()}, whose region is one simple polygon")
    if any(q.geom_type == "MultiPolygon" for q in parts):
        mon.check(True, "ran:split")
    if any(len(g.interiors) for q in parts for g in getattr(q, "geoms", [q])):
        mon.check(True, "ran:enclosed")
    tol = (4 * m_ + 1e-7) * dom.length * 3 + 1e-6
    mon.close(total, dom.area, "cover", tol, "total area of the cells")
    if kind == "holes":
        mon.check(len(dom.interiors) > 0, "ran:holes")
    if len(doms) > 1:
        mon.check(True, "ran:islands")
    if kind == "layer":
        mon.check(True, "ran:layer")
    if axis < 2:
        mon.check(True, f"ran:axis{axis}")
    if orientation == "CW":
        mon.check(True, "ran:cw")
    if pref == "point":
        mon.check(True, "ran:point")
    if len(extra):
        mon.check(True, "ran:added")
    if ref.scale(off) > 1e4:
        mon.check(True, "ran:utm")
    if tiny:
        lost = np.linalg.norm(gp - mid, axis=1).min() > rho / 2
        mon.check(True, "ran:vanished" if lost else "ran:tiny")
