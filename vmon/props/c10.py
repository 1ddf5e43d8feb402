"""C10 geometric primitives: shape and subdivision against closed formulas."""
import collections

import numpy as np
import pyvista as pv

from .. import gen, ref, stackmodel as sm

QUICK, THOROUGH = 24000, 150000
KINDS = [
    "Rectangle", "Square", "Quadrilateral", "Sector", "Circle", "Annulus", "AnnularSector", "SectorRectangle", "SectorSquare",
    "RectangleSector", "SquareSector", "CylindricalShell", "CylindricalShellSector", "StructuredSurface",
]
REQUIRED = {"generate", "cells", "positions", "count", "conform"} | {f"ran:{k}" for k in KINDS} | {"ran:log", "ran:log_r", "ran:positions", "ran:center2", "ran:center3", "ran:defaults", "ran:fine"}
RULE = (
    "Random primitives of every kind with random sizes (1e-2 to 1e4), angles, centres, integer or explicit subdivisions and "
    "spacing methods, some arguments left to their documented defaults; the cells are compared one by one with those built from the "
    "closed formulas. Non-trivial: distinct primitive call."
)
ASSUMPTIONS = ["positions are compared to single precision (the package computes its arcs and lines in it)"]


def arc(r, a, b, res, m):
    t = np.deg2rad(a + ref.percent(res, m) * (b - a))
    return np.column_stack((r * np.cos(t), r * np.sin(t), np.zeros(len(t))))


def seg(a, b, res, m):
    a, b = np.append(a, np.zeros(3 - len(a))), np.append(b, np.zeros(3 - len(b)))
    return a + ref.percent(res, m)[:, None] * (b - a)


def patch(la, lb, res, m):
    """Cells between two lines: list of (4, 3) rings, array of all points."""
    t = ref.percent(res, m)
    g = la[None] * (1 - t[:, None, None]) + lb[None] * t[:, None, None]
    return [np.array([g[i, j], g[i, j + 1], g[i + 1, j + 1], g[i + 1, j]]) for i in range(len(t) - 1) for j in range(len(la) - 1)]


def run_case(pvg, mon, rng, index, tier):
    kind = KINDS[index % len(KINDS)]
    s = float(10.0 ** rng.uniform(-2, 4)) if rng.random() < 0.4 else 1.0
    kw, notes = {}, set()
    size = [1]

    def res(prefix, minimum=1):
        r, m = gen.resolution(rng)
        if np.ndim(r) == 0 and size[0] < 30 and not gen.BIG and rng.random() < 0.004 and np.abs(c).max() < 10 * s:
            r = int(rng.integers(150, 1200))
            notes.add("ran:fine")
        if np.ndim(r) == 0 and (r or 1) < minimum:
            r = minimum + int(rng.integers(4)) + (int(rng.integers(20, 150)) if gen.BIG == "res" else 0)
        size[0] *= len(r) if np.ndim(r) == 1 else (r or 1)
        if gen.BIG and size[0] > 25000 and np.ndim(r) == 0:  # a cylinder with many subdivisions each way
            size[0] //= r
            r = max(minimum, 2)
            size[0] *= r
        while np.ndim(r) == 1 and (len(r) < minimum + 1):
            r = [0.0, 0.15, 0.4, 0.45, 0.8, 1.0]
        pre = prefix + "_" if prefix else ""
        if r is not None or rng.random() < 0.5:
            kw[pre + "resolution"] = r
        if m is not None or rng.random() < 0.3:
            kw[pre + "method"] = m
        if np.ndim(r) == 1:
            notes.add("ran:positions")
        elif m in ("log", "log_r") and (r or 1) > 1:
            notes.add("ran:" + m)
        return r, m

    def opt(name, value, default):
        """Give the argument, or leave the documented default."""
        if rng.random() < 0.15:
            notes.add("ran:defaults")
            return default
        kw[name] = value
        return value

    ck = int(rng.integers(4))
    c = np.zeros(3)
    if ck:
        c = rng.uniform(-5, 5, 3) * s if rng.random() < 0.8 else rng.uniform(-5, 5, 3) * 100 * s
        if ck == 1 and not kind.startswith("Cyl"):
            c[2] = 0.0
            kw["center"] = gen.choice(rng, [c[:2].tolist(), c[:2].copy(), tuple(c[:2])])
            notes.add("ran:center2")
        else:
            kw["center"] = gen.choice(rng, [c.tolist(), c.copy(), tuple(c)])
            notes.add("ran:center3")
    solid = False
    conform = True
    if kind == "StructuredSurface":
        kw.pop("center", None)
        c = np.zeros(3)
        n = int(rng.integers(2, 6))
        la = np.column_stack((gen.ticks(rng, n - 1), rng.uniform(-0.2, 0.2, n), rng.uniform(-1, 1, n))) * s
        lb = la + np.column_stack((rng.uniform(-0.1, 0.1, n), rng.uniform(1, 2, n), rng.uniform(-1, 1, n))) * s
        st = int(rng.integers(3))
        kw["line_a"] = la if st == 0 else la.tolist() if st == 1 else gen.line_mesh(rng, la, True)
        kw["line_b"] = lb if st == 0 else lb.tolist() if st == 1 else gen.line_mesh(rng, lb, True)
        cells = patch(la, lb, *res(""))
    elif kind in ("Rectangle", "Square", "Quadrilateral"):
        if kind == "Quadrilateral":
            p = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], dtype=float) + rng.uniform(-0.25, 0.25, (4, 3))
            d2 = rng.random() < 0.5
            if d2:
                p[:, 2] = 0.0
            p = p * s
            if rng.random() < 0.15:
                p = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], dtype=float)
            else:
                kw["points"] = p[:, :2].copy() if d2 else p.tolist()
            (xr, xm), (yr, ym) = res("x"), res("y")
        elif kind == "Rectangle":
            dx, dy = opt("dx", s * rng.uniform(0.3, 3), 1.0), opt("dy", s * rng.uniform(0.3, 3), 1.0)
            p = np.array([[0, 0, 0], [dx, 0, 0], [dx, dy, 0], [0, dy, 0]])
            (xr, xm), (yr, ym) = res("x"), res("y")
        else:
            dx = opt("dx", s * rng.uniform(0.3, 3), 1.0)
            p = np.array([[0, 0, 0], [dx, 0, 0], [dx, dx, 0], [0, dx, 0]])
            xr, xm = yr, ym = res("")
        cells = patch(seg(p[0], p[1], xr, xm), seg(p[3], p[2], xr, xm), yr, ym)
    elif kind in ("Sector", "Circle"):
        r = opt("radius", s * rng.uniform(0.3, 3), 1.0)
        a, b = 0.0, 360.0
        if kind == "Sector":
            a = opt("theta_min", float(rng.uniform(-90, 90)), 0.0)
            if rng.random() < 0.7 or a > 60:
                b = a + float(rng.uniform(20, 170))
                kw["theta_max"] = b
            else:
                b = 90.0
        rr, m = res("", 3 if kind == "Circle" else 1)
        q = arc(r, a, b, rr, m)
        conform = kind == "Sector"  # the seam of a full turn is left open (pinned by the repository's tests)
        cells = [np.array([np.zeros(3), q[i], q[i + 1]]) for i in range(len(q) - 1)]
    elif kind in ("Annulus", "AnnularSector", "CylindricalShell", "CylindricalShellSector"):
        ri, ro = 0.5, 1.0
        if rng.random() < 0.85:
            ri = kw["inner_radius"] = s * float(rng.uniform(0.2, 1.0)) if rng.random() < 0.9 else 0.0
            ro = kw["outer_radius"] = s * float(rng.uniform(1.1, 2.5))
        a, b = 0.0, 360.0
        if "Sector" in kind:
            a = opt("theta_min", float(rng.uniform(-90, 90)), 0.0)
            if rng.random() < 0.7 or a > 60:
                b = a + float(rng.uniform(20, 170))
                kw["theta_max"] = b
            else:
                b = 90.0
        (rr, rm), (tr, tm) = res("r"), res("theta", 3 if b - a > 170 else 1)
        conform = False
        cells = patch(arc(ri, a, b, tr, tm), arc(ro, a, b, tr, tm), rr, rm)
        if kind.startswith("Cyl"):
            h = opt("height", s * float(rng.uniform(0.3, 3)), 1.0)
            t = ref.percent(*res("z")) * h - 0.5 * h
            solid = True
            z = lambda q, v: q + np.array([0, 0, v])
            cells = [np.array([*z(q, v), *z(q, w)]) for v, w in zip(t[:-1], t[1:]) for q in cells]
    else:
        sq = "Square" in kind
        inner = kind.startswith("Sector")
        if inner:
            if rng.random() < 0.15:
                dx = dy = 1.0
                r = 0.5
                notes.add("ran:defaults")
            else:
                dx, dy = rng.uniform(0.5, 2, 2) * s
                if sq:
                    dy = dx
                r = kw["radius"] = float(rng.uniform(0.2, 0.9)) * min(dx, dy)
                kw["dx"] = dx
                if not sq:
                    kw["dy"] = dy
            (rr, rm), (xr, xm) = res("r"), res("theta")
            yr, ym = xr, xm
        else:
            if rng.random() < 0.15:
                dx = dy = 0.5
                r = 1.0
                notes.add("ran:defaults")
            else:
                dx, dy = rng.uniform(0.5, 2, 2) * s
                if sq:
                    dy = dx
                r = kw["radius"] = float(rng.uniform(1.05, 2.0)) * np.hypot(dx, dy)
                kw["dx"] = dx
                if not sq:
                    kw["dy"] = dy
            (rr, rm), (xr, xm) = res("r"), res("x")
            yr, ym = (xr, xm) if sq else res("y")
        lx, ly = seg([dx, dy], [0, dy], xr, xm), seg([dx, dy], [dx, 0], yr, ym)
        a0, a9 = arc(r, 45, 0, yr, ym), arc(r, 45, 90, xr, xm)
        cells = patch(a0, ly, rr, rm) + patch(a9, lx, rr, rm) if inner else patch(ly, a0, rr, rm) + patch(lx, a9, rr, rm)
    mon.scenario(kind=kind, kw={k: (v if not isinstance(v, pv.DataSet) else ref.points_of(v)) for k, v in kw.items()})
    mesh = mon.call("generate", getattr(pvg, kind), **kw)
    P = ref.points_of(mesh)
    allp = np.concatenate(cells) + c
    size = float(np.ptp(allp, axis=0).max())
    tol = 2e-6 * size + (1e-6 if mesh.points.dtype == np.float32 else 1e-12) * ref.scale(allp)
    gaps = [np.linalg.norm(np.roll(q, -1, axis=0) - q, axis=1) for q in cells]
    gaps = np.concatenate(gaps)
    gaps = gaps[gaps > 1e-9 * size]
    if gaps.min() < 6 * tol:
        mon.trivial = True
        return
    L = sm.Labeler(allp, tol)
    lab, bad = L.label(P)
    mon.check(bad is None, "positions", lambda: f"point {P[bad[0]].tolist()} is {bad[1]:g} away from where a point of the {kind} is expected")
    exp, k = collections.Counter(), 0
    el = L.of_expected()
    for q in cells:
        ids = el[k : k + len(q)]
        k += len(q)
        if solid:
            exp[sm.cell_key(ref.Cell(pv.CellType.HEXAHEDRON, np.arange(8)), ids)] += 1
        else:
            exp[sm.ring_key(ids)] += 1
    got = ref.cells_of(mesh)
    mon.check(len(got) == len(cells), "count", lambda: f"{kind}: {len(got)} cells, expected {len(cells)}")
    act = collections.Counter(sm.cell_key(x, lab) for x in got)
    mon.check(act == exp, "cells", lambda: f"{kind}: {sum((act - exp).values())} cells are not those requested")
    if conform:
        mon.check(len(set(lab.tolist())) == len(P), "conform", lambda: f"{kind}: {len(P)} points at {len(set(lab.tolist()))} positions")
    for n in notes | {"ran:" + kind}:
        mon.check(True, n)
