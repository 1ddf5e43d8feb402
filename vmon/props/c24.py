"""C24 interactive selection, driven by a scripted plotter."""
import types

import numpy as np
import pyvista as pv
from shapely import Polygon

from .. import gen, meshes, ref
from . import c06, c15

QUICK, THOROUGH = 6000, 50000
REQUIRED = {
    "lasso", "lasso:ids", "lasso:polygon", "lasso:view", "pick", "pick:ids", "pick:mode", "ran:cells", "ran:points", "ran:xy", "ran:xz", "ran:yz", "ran:-xy", "ran:-xz", "ran:-yz", "ran:concave", "ran:none",
    "ran:all", "ran:some", "ran:hidden", "ran:empty-cells", "ran:volume", "ran:utm", "ran:unpicked", "ran:repicked", "ran:no-pick", "ran:pick-cells", "ran:pick-points", "ran:no-click", "ran:clockwise", "ran:crossed",
}
RULE = (
    "The real functions run with a plotter that records what they register and, on show(), replays scripted clicks: lasso polygons (convex, concave, either direction) over "
    "meshes of every type in every view, and pick/un-pick histories of up to 25 clicks. Membership is computed by an independent winding number. Non-trivial: distinct mesh and script."
)
ASSUMPTIONS = ["rendering and the mapping from screen to world coordinates (PyVista/VTK) are replaced by the script"]


class Plotter:
    """Accepts whatever a pv.Plotter accepts and replays a script on show()."""

    def __init__(self, script):
        self.script = script
        self.click = self.pick = None
        self.log = []
        self.actors = 0
        self.theme = types.SimpleNamespace(allow_empty_mesh=False)
        self.shown = 0

    def __getattr__(self, name):
        if not hasattr(pv.Plotter, name):
            raise AttributeError(name)
        if name.startswith("view_") and name[5:] not in ("xy", "xz", "yz", "yx", "zx", "zy", "isometric", "vector"):
            raise AttributeError(name)

        def f(*a, **k):
            self.log.append((name, a, k))

        return f

    def add_mesh(self, mesh, *a, **k):
        self.actors += 1
        self.log.append(("add_mesh", (mesh,), k))
        return ("actor", self.actors)

    def track_click_position(self, callback=None, side="right", double=False, viewport=False):
        self.click = callback

    def enable_element_picking(self, callback=None, mode="cell", **k):
        self.pick = callback
        self.mode = getattr(mode, "value", mode)

    def show(self, *a, **k):
        self.shown += 1
        for x in self.script:
            x(self)


def winding(poly, x):
    """+1 inside, -1 outside, 0 undecided (too close to the boundary or enclosed twice)."""
    if not np.isfinite(x).all():
        return -1
    size = np.ptp(poly, axis=0).max()
    w = 0.0
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        d = b - a
        t = np.clip((x - a) @ d / (d @ d), 0, 1)
        if np.linalg.norm(x - a - t * d) < 1e-5 * size:
            return 0
        u, v = a - x, b - x
        w += np.arctan2(u[0] * v[1] - u[1] * v[0], u @ v)
    w = abs(round(w / (2 * np.pi)))
    return 1 if w == 1 else -1 if w == 0 else 0  # doubly enclosed: either


def get_mesh(rng, notes):
    off = gen.offsets(rng)
    while True:
        kind, dim, m = meshes.anymesh(rng, off=off)
        if not any(c.faces is not None for c in ref.cells_of(m)):
            break
    m.clear_data()
    if isinstance(m, pv.UnstructuredGrid) and rng.random() < 0.15:
        m = meshes.with_empty(rng, m)
        notes.add("ran:empty-cells")
    if rng.random() < 0.25 and not isinstance(m, pv.PolyData):
        meshes.hide(rng, m)
        notes.add("ran:hidden")
    if dim == 3:
        notes.add("ran:volume")
    if ref.scale(off) > 1e4:
        notes.add("ran:utm")
    return kind, m


def lasso(pvg, mon, rng, notes):
    kind, m = get_mesh(rng, notes)
    P = ref.points_of(m)
    cells = ref.cells_of(m)
    pref = gen.choice(rng, ["cell", "cell", "point"])
    view = gen.choice(rng, ["xy", "xz", "yz", "-xy", "-xz", "-yz"])
    axis = {"xy": 2, "xz": 1, "yz": 0}[view.lstrip("-")]
    keep = [i for i in range(3) if i != axis]
    C = np.array([np.full(3, np.nan) if c.type == 0 else c15.vtk_center(m, c, P) for c in cells]) if pref == "cell" else P
    lo, hi = P.min(axis=0)[keep], P.max(axis=0)[keep]
    D = np.maximum(hi - lo, 0.3)
    poly = c06.star_polygon(rng)
    poly = poly / np.abs(poly).max() * D * rng.uniform(0.1, 1.3) + lo + rng.uniform(0, 1, 2) * (hi - lo)
    if rng.random() < 0.1:
        poly = np.array([[lo[0] - 1, lo[1] - 1], [hi[0] + 1, lo[1] - 1], [hi[0] + 1, hi[1] + 1], [lo[0] - 1, hi[1] + 1]])
    if len(poly) > 3 and rng.random() < 0.15:
        # a lasso that crosses itself
        i, j = sorted(int(x) for x in rng.choice(len(poly), 2, replace=False))
        q = poly.copy()
        q[[i, j]] = q[[j, i]]
        if not Polygon(q).is_valid:
            poly = q
            notes.add("ran:crossed")
    n = len(poly)
    clicks = np.zeros((n, 3))
    clicks[:, keep] = poly
    clicks[:, axis] = P[:, axis].max() + rng.uniform(0, 5, n) if rng.random() < 0.5 else float(rng.normal())
    none = rng.random() < 0.04
    if none:
        clicks = clicks[:0]
    script = [lambda p, x=tuple(float(v) for v in c): p.click(x) for c in clicks]
    pl = Plotter(script)
    kw = {"plotter": pl}
    if view != "xy" or rng.random() < 0.5:
        kw["view"] = view
    if pref != "cell" or rng.random() < 0.5:
        kw["preference"] = pref
    rp = bool(rng.random() < 0.4)
    if rp or rng.random() < 0.3:
        kw["return_polygon"] = rp
    if rng.random() < 0.3:
        kw["opacity"] = 0.5
    mon.scenario(what="lasso", kind=kind, cls=type(m).__name__, n=len(cells), view=view, pref=pref, poly=poly, p=P[:3])
    r = mon.call("lasso", pvg.interactive_lasso_selection, m, **kw)
    ids, pg = r if rp else (r, None)
    if none:
        mon.check(len(ids) == 0, "lasso:ids", "something is selected without a click")
        notes.add("ran:no-click")
        return
    w = np.array([winding(poly, c[keep]) for c in C])
    ids = np.asarray(ids)
    mon.check(ids.ndim == 1 and (len(ids) == 0 or ids.dtype.kind in "iu"), "lasso:ids", lambda: f"not indices: {ids!r}")
    got = {int(i) for i in ids}
    mon.check(len(got) == len(ids), "lasso:ids", "an index is returned twice")
    must, may = {int(i) for i in np.flatnonzero(w > 0)}, {int(i) for i in np.flatnonzero(w == 0)}
    mon.check(must <= got <= must | may, "lasso:ids", lambda: f"{pref} indices {sorted(got)[:20]} selected in view {view}; missing {sorted(must - got)[:10]}, not inside {sorted(got - must - may)[:10]}")
    if rp:
        q = np.array(pg.exterior.coords)[:-1]
        mon.close(q, poly, "lasso:polygon", 1e-9 * ref.scale(poly), "returned polygon")
    v = [x for x in pl.log if x[0].startswith("view_")]
    mon.check(v and v[-1][0] == "view_" + view.lstrip("-") and bool(v[-1][2].get("negative", v[-1][1][0] if v[-1][1] else False)) == view.startswith("-"), "lasso:view", lambda: f"view {view} shown as {v}")
    notes.add("ran:cells" if pref == "cell" else "ran:points")
    notes.add("ran:" + view)
    notes.add("ran:none" if not must else "ran:all" if len(must) == len(C) else "ran:some")
    if c06.concave(poly):
        notes.add("ran:concave")
    x, y = (poly - poly[0]).T
    if (x * np.roll(y, -1) - np.roll(x, -1) * y).sum() < 0:
        notes.add("ran:clockwise")


def picking(pvg, mon, rng, notes):
    kind, m = get_mesh(rng, notes)
    pref = gen.choice(rng, ["cell", "point"])
    if pref == "cell":
        valid = [i for i, c in enumerate(ref.cells_of(m)) if c.type != 0]
    else:
        valid = list(range(m.n_points))
    k = int(rng.integers(0, 26))
    few = [int(x) for x in rng.permutation(valid)[: int(rng.integers(1, 6))]]
    hist = [int(rng.choice(few)) for _ in range(k)]
    if rng.random() < 0.05:
        # a long session over the whole mesh
        hist = [int(x) for x in rng.permutation(valid)[:200]]
        hist += [int(rng.choice(valid)) for _ in range(int(rng.integers(0, 60)))]
    state = []
    unp = rep = False
    off_ = set()
    for i in hist:
        if i in state:
            state.remove(i)
            unp = True
            off_.add(i)
        else:
            state.append(i)
            rep |= i in off_
    base = m.copy()
    base.clear_data()

    def piece(i):
        if pref == "cell":
            q = base.copy().extract_cells(i)
        else:
            q = pv.PolyData(np.array([ref.points_of(base)[i]]))
            q.point_data["vtkOriginalPointIds"] = np.array([i])
        return q

    script = [lambda p, i=i: p.pick(piece(i)) for i in hist]
    pl = Plotter(script)
    kw = {"plotter": pl}
    if pref != "cell" or rng.random() < 0.5:
        kw["preference"] = pref
    if rng.random() < 0.5:
        kw["view"] = gen.choice(rng, ["xy", "xz", "yz", "-xy", "-yz", "-xz"])
    if rng.random() < 0.3:
        kw["parallel_projection"] = True
    if rng.random() < 0.3:
        kw["picker"] = gen.choice(rng, ["cell", "hardware", "point"])
    if rng.random() < 0.3:
        kw["tolerance"] = 0.01
    mon.scenario(what="pick", kind=kind, cls=type(m).__name__, n=m.n_cells, pref=pref, hist=hist)
    r = np.asarray(mon.call("pick", pvg.interactive_selection, m, **kw))
    mon.check(pl.mode == pref, "pick:mode", lambda: f"{pl.mode}s are picked instead of {pref}s")
    mon.check(r.ndim == 1 and [int(x) for x in r] == state, "pick:ids", lambda: f"{r.tolist()} instead of {state} after picking {hist}")
    notes.add("ran:pick-cells" if pref == "cell" else "ran:pick-points")
    if unp:
        notes.add("ran:unpicked")
    if rep:
        notes.add("ran:repicked")
    if not hist:
        notes.add("ran:no-pick")


def run_case(pvg, mon, rng, index, tier):
    notes = set()
    (lasso if rng.random() < 0.65 else picking)(pvg, mon, rng, notes)
    for x in notes:
        mon.check(True, x)
