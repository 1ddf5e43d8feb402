"""Executable model of stacks and extrusions: an independent account of which cells,
ids, groups and flags a history of additions must produce."""
from __future__ import annotations

import numpy as np
import pyvista as pv
from scipy.spatial import KDTree

from . import gen, ref
from .core import Skip, Violation

T = pv.CellType


class Labeler:
    """Identify points by position: expected points closer than tol are one point."""

    def __init__(self, points, tol):
        self.tol = tol
        points = np.asarray(points, dtype=float)
        self.tree = KDTree(points)
        par = np.arange(len(points))

        def find(i):
            while par[i] != i:
                par[i] = par[par[i]]
                i = par[i]
            return i

        for i, j in self.tree.query_pairs(2.5 * tol):
            a, b = find(i), find(j)
            if a != b:
                par[max(a, b)] = min(a, b)
        self.lab = np.array([find(i) for i in range(len(points))])

    def of_expected(self):
        return self.lab

    def label(self, points):
        d, j = self.tree.query(np.asarray(points, dtype=float))
        if (d > self.tol).any() or not np.isfinite(d).all():
            i = int(np.argmax(np.where(np.isfinite(d), d, np.inf)))
            return None, (i, float(d[i]))
        return self.lab[j], None


def ring_key(lab):
    lab = [int(x) for x in lab]
    return frozenset(
        frozenset((a, b)) for a, b in zip(lab, lab[1:] + lab[:1]) if a != b
    )


def solid_key(faces):
    return frozenset(k for k in (ring_key(f) for f in faces) if len(k) > 0)


def cell_key(cell, lab):
    if ref.DIM[cell.type] == 2:
        return ring_key(lab[cell.ring()])
    if ref.DIM[cell.type] == 1:
        return ring_key(lab[cell.ids])
    return solid_key([lab[f] for f in cell.face_list()])


EXTRUDED = {
    int(T.TRIANGLE): int(T.WEDGE),
    int(T.QUAD): int(T.HEXAHEDRON),
    int(T.PIXEL): int(T.HEXAHEDRON),
    int(T.POLYGON): int(T.POLYHEDRON),
}


# -- groups --------------------------------------------------------------------


def group_spec(rng, n, base_names, allow=True):
    """-> (argument for add, function(list of names or None) -> list)"""
    k = int(rng.integers(8))
    if not allow or k <= 1:
        return None, lambda cur: cur
    if k == 2:
        g = str(gen.choice(rng, ["top", "mid", "A", "sand", "Top", "top ", "default"]))
        return g, lambda cur: [g] * n
    m = int(rng.integers(1, 4))
    spec, ops = {}, []
    keys = [str(x) for x in rng.permutation(gen.choice(rng, [["top", "mid", "A", "sand", "new"], ["top", "Top", "top ", "tops", "A ", "default"]]))[:m]]
    for key in keys:
        kinds = ["idx", "mask", "func_mask", "func_idx", "masklist", "idxlist"]
        if base_names is not None:
            kinds += ["name", "~name", "names", "~names", "mixed"] * 2
        kind = gen.choice(rng, kinds)
        many = base_names is not None and len(set(base_names)) > 8 and rng.random() < 0.5
        if many:
            kind = "names"
        mask = rng.random(n) < 0.5
        if kind == "idx":
            v = np.flatnonzero(mask)
        elif kind == "idxlist":
            v = [int(x) for x in rng.permutation(np.flatnonzero(mask))]
            if not v:
                mask = np.zeros(n, dtype=bool)
        elif kind == "mask":
            v = mask.copy()
        elif kind == "masklist":
            v = [bool(x) for x in mask]
        elif kind == "func_mask":
            v = (lambda mk: (lambda mesh: mk.copy()))(mask)
        elif kind == "func_idx":
            v = (lambda mk: (lambda mesh: np.flatnonzero(mk)))(mask)
        else:
            uniq = sorted(set(base_names))
            if kind in ("name", "~name"):
                nm = str(gen.choice(rng, uniq))
                mask = np.array([(b == nm) for b in base_names])
                if kind == "~name":
                    mask = ~mask
                v = ("~" if kind == "~name" else "") + nm
            else:
                pick = [str(x) for x in rng.permutation(uniq)[: len(uniq) - 1 if many else int(rng.integers(1, 3)) if rng.random() < 0.7 else int(rng.integers(1, len(uniq) + 1))]]
                tl = [
                    kind == "~names" or (kind == "mixed" and rng.random() < 0.5)
                    for _ in pick
                ]
                mask = np.zeros(n, dtype=bool)
                for nm, t in zip(pick, tl):
                    mk = np.array([(b == nm) for b in base_names])
                    mask |= ~mk if t else mk
                v = [("~" if t else "") + nm for nm, t in zip(pick, tl)]
                v = gen.choice(rng, [list, tuple, np.array])(v)
        spec[key] = v
        ops.append((key, mask))

    def apply(cur):
        out = list(cur)
        for key, mask in ops:
            for i in np.flatnonzero(mask):
                out[i] = key
        return out

    return spec, apply


def describe_group(g):
    if isinstance(g, dict):
        return {k: (v if not callable(v) else "<function>") for k, v in g.items()}
    return g


# -- common expected sweep -------------------------------------------------------


class Sweep:
    """Expected result: base cells, levels of points, per-layer item numbers, groups."""

    def __init__(self, base_cells, sections, percs, names, base_cell_data, base_point_data):
        self.base = base_cells
        self.percs = percs
        self.names = names  # per item: list of group names
        self.cdata = base_cell_data
        self.pdata = base_point_data
        self.levels = []  # per layer: (points bottom, points top)
        self.item_of_layer = []
        for i, perc in enumerate(percs):
            a, b = sections[i][0], sections[i][1]
            for t0, t1 in zip(perc[:-1], perc[1:]):
                self.levels.append((a + t0 * (b - a), a + t1 * (b - a)))
                self.item_of_layer.append(i)

    @property
    def n_layers(self):
        return len(self.levels)

    def prepare(self, tol):
        allp = np.vstack([x for lv in self.levels for x in lv])
        self.lab = Labeler(allp, tol)
        n = len(self.levels[0][0])
        L = self.lab.of_expected()
        self.keys = {}
        self.collapsed = {}
        self.ambiguous = {}
        for l in range(self.n_layers):
            lo = L[2 * l * n : (2 * l + 1) * n]
            hi = L[(2 * l + 1) * n : (2 * l + 2) * n]
            gap = np.linalg.norm(self.levels[l][1] - self.levels[l][0], axis=1)
            for c, cell in enumerate(self.base):
                d = ref.DIM[cell.type]
                if d == 2:
                    r = cell.ring()
                    a, b = lo[r], hi[r]
                    faces = [a, b] + [
                        [a[k], a[(k + 1) % len(r)], b[(k + 1) % len(r)], b[k]]
                        for k in range(len(r))
                    ]
                    self.keys[c, l] = solid_key(faces)
                else:
                    i, j = cell.ids
                    self.keys[c, l] = ring_key([lo[i], lo[j], hi[j], hi[i]])
                g = gap[cell.ids]
                self.collapsed[c, l] = bool((g <= 2e-15 * (1 + ref.scale(self.levels[l][0]))).all())
                # between exact zero and the library's own closeness tolerance
                self.ambiguous[c, l] = bool((g <= 1e-6).all()) and not self.collapsed[c, l]

    # -- oracles (each used by the property that owns it) --

    def o_cells(self, mon, mesh, tag="cells"):
        """The mesh consists of exactly the expected cells, wherever they are stored."""
        cells = ref.cells_of(mesh)
        mon.check(
            len(cells) == len(self.base) * self.n_layers,
            tag + ":count",
            lambda: f"{len(cells)} cells, expected {len(self.base)} x {self.n_layers}",
        )
        lab, bad = self.lab.label(ref.points_of(mesh))
        mon.check(
            lab is not None,
            tag + ":points",
            lambda: f"point {bad[0]} = {mesh.points[bad[0]].tolist()} is {bad[1]:g} away from every expected point",
        )
        import collections

        got = collections.Counter(cell_key(c, lab) for c in cells)
        exp = collections.Counter(self.keys.values())
        mon.check(
            got == exp,
            tag + ":geometry",
            lambda: f"{sum((exp - got).values())} expected cells missing, {sum((got - exp).values())} unexpected cells",
        )
        # every expected point is present
        have = set(lab.tolist())
        want = set(self.lab.of_expected().tolist())
        used = {x for k in exp for e in k for x in (e if isinstance(e, frozenset) else [e])}
        mon.check(want - have == set() or not used, tag + ":levels", "expected points missing")

    def by_id(self, mesh, item_key):
        col = np.asarray(mesh.cell_data["ColumnId"])
        lay = np.asarray(mesh.cell_data["LayerId"])
        itm = np.asarray(mesh.cell_data[item_key])
        return col, lay, itm

    def o_ids(self, mon, mesh, item_key):
        cells = ref.cells_of(mesh)
        for k in ("ColumnId", "LayerId", item_key):
            mon.check(k in mesh.cell_data, "ids:present", f"no {k} array")
        col, lay, itm = self.by_id(mesh, item_key)
        lab, bad = self.lab.label(ref.points_of(mesh))
        mon.check(lab is not None, "ids:points", lambda: f"unexpected point {bad}")
        seen = set()
        for i, cell in enumerate(cells):
            key = (int(col[i]), int(lay[i]))
            mon.check(key in self.keys, "ids:range", lambda: f"cell {i} has column/layer {key}")
            mon.check(key not in seen, "ids:unique", lambda: f"column/layer {key} repeated")
            seen.add(key)
            mon.check(
                cell_key(cell, lab) == self.keys[key],
                "ids:geometry",
                lambda: f"cell {i} numbered column/layer {key} is not that cell",
            )
            mon.check(
                int(itm[i]) == self.item_of_layer[key[1]],
                "ids:item",
                lambda: f"cell {i} in layer {key[1]} has item {int(itm[i])}, expected {self.item_of_layer[key[1]]}",
            )
        mon.check(len(seen) == len(self.keys), "ids:complete", f"{len(seen)} of {len(self.keys)} column/layer pairs")

    def o_data(self, mon, mesh, point_data):
        col, lay, _ = self.by_id(mesh, next(k for k in ("StackItem", "ExtrudeItem") if k in mesh.cell_data))
        for k, v in self.cdata.items():
            mon.check(k in mesh.cell_data, "data:kept", f"cell data '{k}' lost")
            mon.same(np.asarray(mesh.cell_data[k]), np.asarray(v)[col], "data:cell-vector" if v.ndim > 1 else "data:cell", f"cell data '{k}'")
        if point_data:
            self.o_point_data(mon, mesh)

    def o_point_data(self, mon, mesh):
        n = len(self.levels[0][0])
        allp = np.vstack([x for lv in self.levels for x in lv])
        tree = KDTree(allp)
        near = tree.query_ball_point(ref.points_of(mesh), self.lab.tol)
        for k, v in self.pdata.items():
            mon.check(k in mesh.point_data, "data:kept", f"point data '{k}' lost")
            got = np.asarray(mesh.point_data[k])
            for i, js in enumerate(near):
                mon.check(
                    any((np.abs(got[i] - v[j % n]) <= 1e-9).all() for j in js),
                    "data:point-vector" if v.ndim > 1 else "data:point",
                    lambda: f"point data '{k}' of point {i} is {got[i]}, expected one of {[v[j % n] for j in js][:3]}",
                )

    def o_ghost(self, mon, mesh, item_key, direct=False):
        col, lay, _ = self.by_id(mesh, item_key)
        any_c = any(self.collapsed.values()) or any(self.ambiguous.values())
        if "vtkGhostType" in mesh.cell_data:
            g = np.asarray(mesh.cell_data["vtkGhostType"])
        else:
            g = np.zeros(mesh.n_cells, dtype=int)
        for i in range(mesh.n_cells):
            key = (int(col[i]), int(lay[i]))
            if self.ambiguous[key]:
                continue
            if self.collapsed[key]:
                mon.check(g[i] == 32, "ghost:collapsed", lambda: f"collapsed cell {i} (column/layer {key}) is not hidden (flag {g[i]})")
            else:
                mon.check(g[i] == 0, "ghost:visible", lambda: f"cell {i} (column/layer {key}) with non-zero extent is hidden (flag {g[i]})")
        if not any_c and not direct:
            mon.check(not g.any(), "ghost:none", "hidden cells in a stack with nothing collapsed")

    def o_groups(self, mon, mesh, item_key):
        col, lay, _ = self.by_id(mesh, item_key)
        d = mesh.user_dict["CellGroup"] if "CellGroup" in mesh.user_dict else None
        mon.check(d is not None and "CellGroup" in mesh.cell_data, "group:present", "no group array or names")
        o_group_numbers(mon, mesh)
        inv = {v: k for k, v in d.items()}
        arr = np.asarray(mesh.cell_data["CellGroup"])
        for i in range(mesh.n_cells):
            want = self.names[self.item_of_layer[int(lay[i])]][int(col[i])]
            mon.check(
                inv.get(int(arr[i])) == want,
                "group:name",
                lambda: f"cell {i} (column {col[i]}, layer {lay[i]}) is in group {inv.get(int(arr[i]))!r}, expected {want!r}",
            )


def o_group_numbers(mon, mesh):
    d = dict(mesh.user_dict["CellGroup"])
    arr = np.asarray(mesh.cell_data["CellGroup"])
    mon.check(
        sorted(d.values()) == list(range(len(d))),
        "group:numbers",
        lambda: f"group numbers are {sorted(d.values())}",
    )
    mon.check(
        set(arr.tolist()) == set(d.values()),
        "group:used",
        lambda: f"numbers used {sorted(set(arr.tolist()))}, named {d}",
    )


# -- random stack histories --------------------------------------------------------


class StackCase:
    pass


def lin_field(rng, span):
    a, b, c = rng.uniform(-0.3, 0.3, 3)
    return a, b, c


def make_stack(rng, pvg, dim=None, kinds=None, simple=False, groups=True, data=True, off=None, thin=False, regime=None, axis=None, bottom_up=None):
    """Random history. Returns a StackCase with .build() -> builder and .sweep."""
    cs = StackCase()
    dim = dim or (2 if gen.BIG == "long" or rng.random() < 0.35 else 3)
    axis = int(rng.integers(3)) if axis is None else axis
    bottom_up = bool(rng.random() < 0.6) if bottom_up is None else bottom_up
    if off is None:
        off = gen.offsets(rng)
    cs.dim, cs.axis, cs.bottom_up = dim, axis, bottom_up
    cs.default_group = gen.choice(rng, [None, None, "dflt"])
    others = [k for k in range(3) if k != axis]

    # base
    cs.cdata, cs.pdata, base_names = {}, {}, None
    if dim == 2:
        u = gen.ticks(rng, gen.count(rng, 1, 7, 18, 800))
        ua = (axis + 1) % 3 if rng.random() < 0.6 else (axis + 2) % 3
        style = gen.choice(rng, ["array", "list", "poly", "poly"])
        if style in ("array", "list"):
            ua = (axis + 1) % 3
            pts = np.zeros((len(u), 3))
            pts[:, ua] = u + off[ua]
            arg = pts[:, ua].copy()
            base_arg = arg.tolist() if style == "list" else arg
        else:
            pts = np.zeros((len(u), 3)) + off
            pts[:, ua] += u
            if rng.random() < 0.5:
                pts[:, axis] += rng.uniform(-0.2, 0.2, len(u))
            if rng.random() < 0.3:
                pts[:, 3 - axis - ua] += np.sin(u)
            if rng.random() < 0.3:
                pts = pts[::-1].copy()
            base_arg = gen.line_mesh(rng, pts, as_poly=True)
            if data:
                base_arg.cell_data["cid"] = np.array([7])
                base_arg.cell_data["vec"] = np.array([[1.0, 2.0, 3.0]])
                base_arg.point_data["pid"] = np.arange(len(u)) * 2 + 5
                m = len(u) - 1
                cs.cdata = {"cid": np.full(m, 7), "vec": np.tile([1.0, 2.0, 3.0], (m, 1))}
                cs.pdata = {"pid": np.arange(len(u)) * 2 + 5}
            if groups and rng.random() < 0.4:
                nm = gen.choice(rng, gen.NAMES[:6])
                num = int(rng.integers(0, 5))
                base_arg.cell_data["CellGroup"] = np.array([num])
                base_arg.user_dict["CellGroup"] = {nm: num}
                # the line is rebuilt segment by segment: names are not carried
                base_names = None
        cells = [ref.Cell(T.LINE, [k, k + 1]) for k in range(len(u) - 1)]
        cs.kind = "line-" + style
        n = len(cells)
        span = max(1.0, np.ptp(u))
    else:
        cs.kind, base_arg = gen.surface(rng, axis, off, kinds)
        if base_arg.points.dtype == np.float32 and ref.scale(off) > 1e4:
            cs.kind, base_arg = gen.surface(rng, axis, np.zeros(3), kinds)
        n = base_arg.n_cells
        if data and rng.random() < 0.7:
            gen.put_data(rng, base_arg, vectors=rng.random() < 0.7)
            cs.cdata = {k: np.array(base_arg.cell_data[k]) for k in base_arg.cell_data.keys()}
            cs.pdata = {k: np.array(base_arg.point_data[k]) for k in base_arg.point_data.keys()}
        if groups and rng.random() < 0.6:
            base_names = gen.put_groups(rng, base_arg)
        mesh = base_arg
        if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
            mesh = mesh.cast_to_structured_grid()
        cells = ref.cells_of(mesh)
        pts = ref.points_of(mesh)
        if not isinstance(base_arg, (pv.ImageData, pv.RectilinearGrid)) and rng.random() < 0.3:
            base_arg.points[:, axis] += 0.2 * np.sin(np.arange(len(pts)))
            pts = ref.points_of(base_arg)
        span = max(1.0, float(np.ptp(pts[:, others], axis=0).max()))
        f32 = mesh.points.dtype == np.float32
        cs.f32 = f32
    cs.base_arg, cs.pts, cs.cells = base_arg, pts, cells
    cs.ignore = []
    if base_names is not None and rng.random() < 0.4:
        uniq = sorted(set(base_names))
        cs.ignore = [str(x) for x in rng.permutation(uniq)[: int(rng.integers(1, len(uniq) + 1))]]
        if rng.random() < 0.3:
            cs.ignore.append(gen.choice(rng, ["not-there", "s", "zone", "A ", "sand"]))
    cs.base_names = base_names

    sgn = 1.0 if bottom_up else -1.0
    z0 = float(off[axis])
    lo = pts.min(axis=0)
    hi = pts.max(axis=0)
    n_items = int(rng.integers(2, 6))
    cs.ops, raw, percs, names = [], [], [], []
    prio, thick = [], []
    level = z0 + float(rng.uniform(-2, 2))
    varying = [k for k in others if np.ptp(pts[:, k]) > 0]

    for it in range(n_items):
        kinds_ = ["const", "func", "const", "func"]
        if not simple:
            kinds_ += ["cloud", "dataset"]
            if dim == 3:
                kinds_ += ["plane"]
            if it > 0:
                kinds_ += ["int"]
        kind = gen.choice(rng, kinds_)
        target = level + sgn * it * float(gen.choice(rng, [0.0, 0.4, 1.0, 1.5]))
        op = {"kind": kind}
        if kind in ("const", "int"):
            if it == 0:
                c = target if kind == "const" else int(target)
                z = np.full(len(pts), float(c))
            else:
                c = float(rng.uniform(0.05, 1.5)) * gen.choice(rng, [1, 1, -1])
                if thin:
                    c = float(gen.choice(rng, [1e-3, 2e-3, 0.0, 0.7]))
                elif rng.random() < 0.15:
                    c = 0.0
                if kind == "int":
                    c = int(rng.integers(0, 3))
                z = raw[-1] + sgn * abs(c)
            op["arg"] = c if rng.random() < 0.7 else np.array(c)
        elif kind == "func":
            a, b, w = rng.uniform(-0.5, 0.5, 3)
            cz = float(gen.choice(rng, [0.0, 0.0, 0.3]))
            p0 = lo.copy()

            def f(x, y, z_, a=a, b=b, w=w, cz=cz, t=target, p0=p0):
                q = np.column_stack((x, y, z_)) - p0
                return t + a * q[:, others[0]] + b * np.sin(3 * w * q[:, others[1]] + q[:, others[0]]) + cz * q[:, axis]

            if it > 0 and thin and rng.random() < 0.5:
                base_prev = raw[-1].copy()
                d = float(gen.choice(rng, [0.0, 1e-3, 0.5]))

                def f(x, y, z_, v=base_prev + sgn * d):
                    return v.copy()

            op["arg"] = f
            z = np.asarray(f(*pts.T), dtype=float)
        elif kind == "plane":
            ang = rng.uniform(-35, 35, 3)
            if rng.random() < 0.3:
                ang[others[int(rng.integers(2))]] = 0.0
            P = lo + rng.uniform(0, 1, 3) * (hi - lo)
            P[axis] = target
            # normal of the plane: the axis vector turned back by the rotation vector
            om = np.deg2rad(ang.copy())
            om[axis] = 0.0
            th = np.linalg.norm(om)
            k = om / th if th > 0 else om
            e = np.zeros(3)
            e[axis] = 1.0
            nrm = e * np.cos(-th) + np.cross(k, e) * np.sin(-th) + k * (k @ e) * (1 - np.cos(th))
            dq = pts - P
            z = P[axis] - (nrm[others[0]] * dq[:, others[0]] + nrm[others[1]] * dq[:, others[1]]) / nrm[axis]
            op["arg"] = (ang.tolist() if rng.random() < 0.5 else ang.copy(), P.tolist() if rng.random() < 0.5 else P.copy())
        else:  # cloud / dataset: linear interpolation
            a, b = rng.uniform(-0.3, 0.3, 2)
            if dim == 2 or len(varying) == 1:
                if dim == 2:
                    mu = varying
                    if len(mu) != 1:
                        cs.ops.append(None)
                        cs.ops.pop()
                        kind = "const"
                        c = float(rng.uniform(0.05, 1.5))
                        z = np.full(len(pts), target) if it == 0 else raw[-1] + sgn * c
                        op = {"kind": "const", "arg": target if it == 0 else c}
                if op["kind"] != "const":
                    ua_ = varying[0]
                    xs = np.concatenate(([lo[ua_] - 0.3], np.sort(rng.uniform(lo[ua_], hi[ua_], 3)), [hi[ua_] + 0.4]))
                    zs = target + rng.uniform(-0.4, 0.4, len(xs))
                    extra = None
                    if rng.random() < 0.25:
                        # not covering: nearest extrapolation requested
                        xs[0] = 0.5 * (lo[ua_] + hi[ua_])
                        srt = np.argsort(xs)
                        xs, zs = xs[srt], zs[srt]
                        extra = "nearest"
                    z = np.interp(pts[:, ua_], xs, zs)
                    perm = gen.choice(rng, [np.arange(len(xs)), np.arange(len(xs))[::-1], rng.permutation(len(xs))])
                    q = np.zeros((len(xs), 3))
                    q[:, ua_] = xs
                    q[:, axis] = zs
                    q = q[perm]
                    op["arg"] = q if kind == "cloud" else (pv.PolyData(q) if rng.random() < 0.5 else pv.lines_from_points(q))
                    op["extrapolation"] = extra
            else:
                u0, v0 = others
                mode = gen.choice(rng, ["linear", "nodes", "ridge", "partial"])
                c0 = 0.5 * (lo + hi)
                if mode == "nodes":
                    q = pts.copy()
                    q[:, axis] = target + rng.uniform(-0.4, 0.4, len(pts))
                    z = q[:, axis].copy()
                    # enclose
                    far_ = np.array([[-1, -1], [2, -1], [2, 2], [-1, 2]]) * (hi - lo)[[u0, v0]] + lo[[u0, v0]]
                    far_ = far_ + rng.uniform(-0.05, 0.05, far_.shape)
                    fq = np.zeros((4, 3))
                    fq[:, [u0, v0]] = far_
                    fq[:, axis] = target
                    q = np.vstack((q, fq))
                    q = q[rng.permutation(len(q))]
                elif mode == "ridge":
                    if rng.random() < 0.5:
                        u0, v0 = v0, u0
                    xs = np.concatenate(([lo[u0] - 0.5], np.sort(rng.uniform(lo[u0], hi[u0], int(rng.integers(3)))), [hi[u0] + 0.5]))
                    ys = np.concatenate(([lo[v0] - 0.5], [hi[v0] + 0.5]))
                    zs = target + rng.uniform(-0.4, 0.4, len(xs))
                    X, Y = np.meshgrid(xs, ys, indexing="ij")
                    q = np.zeros((X.size, 3))
                    q[:, u0], q[:, v0] = X.ravel(), Y.ravel()
                    if rng.random() < 0.4:
                        b = 0.0
                    q[:, axis] = np.repeat(zs, len(ys)) + b * (q[:, v0] - c0[v0])
                    z = np.interp(pts[:, u0], xs, zs) + b * (pts[:, v0] - c0[v0])
                else:
                    m = int(rng.integers(6, 15))
                    q = np.zeros((m + 4, 3))
                    w0 = (hi - lo)[[u0, v0]]
                    q[:m, [u0, v0]] = lo[[u0, v0]] + rng.uniform(-0.4, 1.4, (m, 2)) * w0
                    corner = np.array([[-0.5, -0.5], [1.5, -0.5], [1.5, 1.5], [-0.5, 1.5]])
                    if mode == "partial":
                        corner = np.array([[-0.5, -0.5], [0.6, -0.5], [0.6, 1.5], [-0.5, 1.5]])
                        q[:m, u0] = lo[u0] + rng.uniform(-0.4, 0.6, m) * w0[0]
                    q[m:, [u0, v0]] = lo[[u0, v0]] + corner * w0
                    q[:, axis] = target + a * (q[:, u0] - c0[u0]) + b * (q[:, v0] - c0[v0])
                    z = target + a * (pts[:, u0] - c0[u0]) + b * (pts[:, v0] - c0[v0])
                    if mode == "partial":
                        edge = lo[u0] + 0.6 * w0[0]
                        out = pts[:, u0] > edge
                        if (np.abs(pts[:, u0] - edge) < 1e-6).any():
                            raise Skip("point on hull boundary")
                        d = np.linalg.norm(pts[out][:, None, [u0, v0]] - q[None, :, [u0, v0]], axis=2)
                        if len(d):
                            ds = np.sort(d, axis=1)
                            if (ds[:, 1] - ds[:, 0] < 1e-9).any():
                                raise Skip("nearest tie")
                            z = z.copy()
                            z[out] = q[d.argmin(axis=1), axis]
                        op["extrapolation"] = "nearest"
                op["mode"] = mode
                if kind == "cloud":
                    op["arg"] = q if rng.random() < 0.5 else q.tolist()
                elif mode == "ridge" and rng.random() < 0.7:
                    X_, Y_ = X[..., None], Y[..., None]
                    Z_ = q[:, axis].reshape(X.shape)[..., None]
                    co = [None] * 3
                    co[u0], co[v0], co[axis] = X_, Y_, Z_
                    op["arg"] = pv.StructuredGrid(*co)
                else:
                    op["arg"] = pv.PolyData(q)
                    if rng.random() < 0.4:
                        op["arg"] = op["arg"].cast_to_unstructured_grid()
        res, meth = gen.resolution(rng)
        pr = int(gen.choice(rng, [0, 0, 0, 1, 1, 2, -1]))
        th = float(gen.choice(rng, [0.0, 0.0, 0.0, 0.1, 0.5]))
        g, gfun = group_spec(rng, n, base_names, allow=groups)
        op.update(resolution=res, method=meth, priority=pr, thickness=th, group=g)
        cs.ops.append(op)
        raw.append(np.asarray(z, dtype=float))
        prio.append(pr)
        thick.append(th)
        if it > 0:
            percs.append(ref.percent(res, meth))
            cur = [None] * n if base_names is None else [None if b in cs.ignore else b for b in base_names]
            nm = gfun(cur)
            names.append([x if x is not None else (cs.default_group or "default") for x in nm])

    # cut, in stack order
    z = [r.copy() for r in raw]
    cs.cut = False
    for i in range(1, n_items):
        m = sgn * (z[i] - z[i - 1]) < thick[i]
        near = np.abs(sgn * (z[i] - z[i - 1]) - thick[i])
        if ((near < 1e-9) & (near > 0)).any() and thick[i] > 0:
            pass
        cs.cut |= bool(m.any())
        if prio[i] < prio[i - 1]:
            z[i] = np.where(m, z[i - 1] + sgn * thick[i], z[i])
        else:
            z[i - 1] = np.where(m, z[i] - sgn * thick[i], z[i - 1])
    cs.z = z
    secs = []
    for i in range(n_items - 1):
        a, b = pts.copy(), pts.copy()
        a[:, axis], b[:, axis] = z[i], z[i + 1]
        secs.append((a, b))
    cs.sweep = Sweep(cells, secs, percs, names, cs.cdata, cs.pdata)
    cs.n_items = n_items

    def base():
        return cs.base_arg.copy() if isinstance(cs.base_arg, (pv.DataSet, np.ndarray)) else list(cs.base_arg)

    def add(b, k, mon=None):
        op = cs.ops[k]
        kw = {}
        for key in ("resolution", "method", "priority", "thickness", "group", "extrapolation"):
            if op.get(key) is not None:
                kw[key] = op[key]
        if op["kind"] == "plane":
            return b.add_plane(op["arg"][0], op["arg"][1], **kw)
        return b.add(op["arg"], **kw)

    def new():
        cls = pvg.MeshStack2D if dim == 2 else pvg.MeshStack3D
        kw = {}
        if cs.default_group:
            kw["default_group"] = cs.default_group
        if cs.ignore:
            kw["ignore_groups"] = cs.ignore
        if axis != 2 or rng.random() < 0.5:
            kw["axis"] = axis
        if not bottom_up or rng.random() < 0.5:
            kw["bottom_up"] = bottom_up
        return cls(base(), **kw)

    def build():
        b = new()
        for k in range(n_items):
            add(b, k)
        return b

    cs.new, cs.add, cs.build = new, add, build

    def desc():
        return {
            "dim": dim,
            "axis": axis,
            "bottom_up": bottom_up,
            "base": cs.kind,
            "n_base_cells": n,
            "celltypes": sorted({c.type for c in cells}),
            "offset": off,
            "default": cs.default_group,
            "ignore": cs.ignore,
            "ops": [
                {k: (describe_group(v) if k == "group" else v) for k, v in op.items() if v is not None and k != "arg"}
                | {"arg": op["arg"] if not callable(op["arg"]) else "<f>", "z": raw[k][:4]}
                for k, op in enumerate(cs.ops)
            ],
        }

    cs.desc = desc
    return cs


def finish(cs, mesh):
    tol = ref.tol_for(mesh)
    if getattr(cs, "f32", False):
        tol = max(tol, 1e-7 + 4e-6 * ref.scale(cs.pts))
    cs.sweep.prepare(tol)
    return tol


# -- random extrusions ----------------------------------------------------------


def rotate_about(p, axis_vec, deg, c):
    k = np.asarray(axis_vec, dtype=float)
    k = k / np.linalg.norm(k)
    th = np.deg2rad(deg)
    r = p - c
    return c + r * np.cos(th) + np.cross(k, r) * np.sin(th) + np.outer(r @ k, k) * (1 - np.cos(th))


def bbox_center(p):
    return 0.5 * (p.min(axis=0) + p.max(axis=0))


class ExtrudeCase(StackCase):
    pass


def make_extrude(rng, pvg, kinds=None, groups=True, data=True, off=None, turn=True, wide=False):
    cs = ExtrudeCase()
    axis = int(rng.integers(3))
    off = gen.offsets(rng) if off is None else off
    cs.kind, base = gen.surface(rng, axis, off, kinds)
    if base.points.dtype == np.float32 and ref.scale(off) > 1e4:
        cs.kind, base = gen.surface(rng, axis, np.zeros(3), kinds)
    n = base.n_cells
    cs.cdata, cs.pdata, base_names = {}, {}, None
    if data and rng.random() < 0.7:
        gen.put_data(rng, base, vectors=rng.random() < 0.7)
        cs.cdata = {k: np.array(base.cell_data[k]) for k in base.cell_data.keys()}
        cs.pdata = {k: np.array(base.point_data[k]) for k in base.point_data.keys()}
    if groups and rng.random() < 0.6:
        base_names = gen.put_groups(rng, base)
    if cs.kind in ("struct", "unstr") and rng.random() < 0.3:
        base.points[:, axis] += 0.2 * np.sin(np.arange(base.n_points))
    mesh = base
    if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
        mesh = mesh.cast_to_structured_grid()
    cells, pts = ref.cells_of(mesh), ref.points_of(mesh)
    cs.f32 = mesh.points.dtype == np.float32
    cs.base_arg, cs.cells, cs.pts, cs.axis = base, cells, pts, axis
    cs.base_names = base_names
    cs.default_group = gen.choice(rng, [None, None, "dflt"])
    cs.ignore = []
    if base_names is not None and rng.random() < 0.4:
        uniq = sorted(set(base_names))
        cs.ignore = [str(x) for x in rng.permutation(uniq)[: int(rng.integers(1, len(uniq) + 1))]]

    def turned():
        return float(rng.uniform(-400, 400) if wide and rng.random() < 0.4 else rng.uniform(-60, 60))

    def scaled():
        return float(10 ** rng.uniform(-1, 1) if wide and rng.random() < 0.3 else rng.uniform(0.6, 1.5))

    cs.scale = scaled() if turn and rng.random() < 0.3 else None
    cs.angle = turned() if turn and rng.random() < 0.3 else None
    cur, secs, percs, names, cs.ops = pts, [], [], [], []
    for it in range(int(rng.integers(1, 4))):
        v = np.zeros(3)
        v[axis] = rng.uniform(0.4, 2.0) * gen.choice(rng, [1, 1, -1])
        if rng.random() < 0.4:
            v += rng.uniform(-0.4, 0.4, 3) * (np.arange(3) != axis)
        sc = scaled() if turn and rng.random() < 0.4 else None
        an = turned() if turn and rng.random() < 0.4 else None
        if turn and rng.random() < 0.1:
            an = 0.0
        if rng.random() < 0.15:
            v = np.zeros(3)
            v[axis] = int(rng.integers(1, 3))
            v = v.astype(int)
        if v.dtype.kind == "f" and abs(np.linalg.norm(v) - 1.0) < 1e-3:
            v = 1.01 * v  # pyvista takes an axis whose length is nearly one for a unit vector (rotation off by up to 1e-5)
        nxt = cur + v
        s_ = sc if sc is not None else cs.scale
        a_ = an if an is not None else cs.angle
        if s_ is not None:
            c = bbox_center(nxt)
            nxt = (nxt - c) * s_ + c
        if a_ is not None:
            nxt = rotate_about(nxt, v, a_, bbox_center(nxt))
        res, meth = gen.resolution(rng)
        g, gfun = group_spec(rng, n, base_names, allow=groups)
        cs.ops.append(dict(vector=v, resolution=res, method=meth, scale=sc, angle=an, group=g))
        secs.append((cur, nxt))
        percs.append(ref.percent(res, meth))
        cur0 = [None] * n if base_names is None else [None if b in cs.ignore else b for b in base_names]
        names.append([x if x is not None else (cs.default_group or "default") for x in gfun(cur0)])
        cur = nxt
    cs.sweep = Sweep(cells, secs, percs, names, cs.cdata, cs.pdata)
    cs.n_items = len(cs.ops)

    def new():
        kw = {}
        if cs.default_group:
            kw["default_group"] = cs.default_group
        if cs.ignore:
            kw["ignore_groups"] = cs.ignore
        if cs.scale is not None:
            kw["scale"] = cs.scale
        if cs.angle is not None:
            kw["angle"] = cs.angle
        return pvg.MeshExtrude(cs.base_arg.copy(), **kw)

    def add(b, k):
        op = cs.ops[k]
        v = op["vector"]
        kw = {x: y for x, y in op.items() if x != "vector" and y is not None}
        return b.add(v.copy() if k % 2 else v.tolist(), **kw)

    def build():
        b = new()
        for k in range(cs.n_items):
            add(b, k)
        return b

    cs.new, cs.add, cs.build = new, add, build
    cs.desc = lambda: {
        "extrude": cs.kind, "axis": axis, "n_base_cells": n, "celltypes": sorted({c.type for c in cells}), "offset": off,
        "scale": cs.scale, "angle": cs.angle, "default": cs.default_group, "ignore": cs.ignore,
        "ops": [{k: (describe_group(v) if k == "group" else v) for k, v in op.items() if v is not None} for op in cs.ops],
    }
    return cs


# -- direct sweeps: StructuredSurface, Volume ---------------------------------------


class DirectCase(StackCase):
    pass


def make_direct(rng, pvg, data=True, what=None):
    """Sweep between two lines / two surfaces; nothing collapsed."""
    cs = DirectCase()
    off = gen.offsets(rng)
    res, meth = gen.resolution(rng)
    perc = ref.percent(res, meth)
    what = what or ("surface" if gen.BIG == "long" or rng.random() < 0.4 else "volume")
    cs.cdata, cs.pdata = {}, {}
    cs.f32 = False
    if what == "surface":
        n = gen.count(rng, 2, 8, 18, 800)
        plane = gen.choice(rng, ["xy", "yx", "xz", "zx", "yz", "zy"])
        u, v = ["xyz".index(c) for c in sorted(plane)]
        a = np.zeros((n, 3)) + off
        a[:, u] += gen.ticks(rng, n - 1)
        a[:, v] += rng.uniform(-0.2, 0.2, n)
        b = a.copy()
        b[:, v] += rng.uniform(0.5, 1.5, n)
        b[:, u] += rng.uniform(-0.1, 0.1, n)
        style = gen.choice(rng, ["array", "list", "poly", "seg", "seg", "joined", "face"])
        if style in ("face", "joined") and n < 3:
            style = "poly"
        la, lb = a, b
        if style == "face":
            la = pv.PolyData(a.copy(), faces=[n, *range(n)])
            lb = pv.PolyData(b.copy(), faces=[n, *range(n)])
            a, b = np.vstack((a, a[:1])), np.vstack((b, b[:1]))
        elif style == "list":
            la, lb = a.tolist(), b.tolist()
        elif style == "joined":  # consecutive polylines
            k = int(rng.integers(1, n - 1))
            la, lb = [pv.PolyData(x.copy(), lines=[k + 1, *range(k + 1), n - k, *range(k, n)]) for x in (a, b)]
        elif style in ("poly", "seg"):
            la = gen.line_mesh(rng, a, style == "poly")
            lb = gen.line_mesh(rng, b, style == "poly")
            if data and style == "seg":
                gen.put_data(rng, la)
                cs.cdata = {k: np.array(la.cell_data[k]) for k in la.cell_data.keys()}
                cs.pdata = {k: np.array(la.point_data[k]) for k in la.point_data.keys()}
        cells = [ref.Cell(T.LINE, [k, k + 1]) for k in range(len(a) - 1)]
        kw = {"plane": plane} if plane != "xy" or rng.random() < 0.5 else {}
        cs.kind = f"surface-{style}-{plane}"
        cs.base_dim = 1

        def call():
            return pvg.StructuredSurface(la, lb, resolution=res, method=meth, **kw)

        cs.plane = plane
    else:
        axis = int(rng.integers(3))
        kind, s = gen.surface(rng, axis, off)
        if s.points.dtype == np.float32 and ref.scale(off) > 1e4:
            off = np.zeros(3)
            kind, s = gen.surface(rng, axis, off)
        if kind == "unstr" and rng.random() < 0.25:
            # the same surface as polydata
            cl = ref.cells_of(s)
            s = pv.PolyData(np.array(s.points), faces=[x for c in cl for x in (len(c.ids), *c.ring())])
            kind = "polydata"
        if data and rng.random() < 0.7:
            gen.put_data(rng, s)
            cs.cdata = {k: np.array(s.cell_data[k]) for k in s.cell_data.keys()}
            cs.pdata = {k: np.array(s.point_data[k]) for k in s.point_data.keys()}
        if kind in ("image", "rect"):
            t = s.copy()
            if kind == "image":
                o = list(t.origin)
                o[axis] += 1.25
                t.origin = o
            else:
                co = [t.x, t.y, t.z]
                co[axis] = co[axis] + 1.25
                t = pv.RectilinearGrid(*co)
            sg, tg = s.cast_to_structured_grid(), t.cast_to_structured_grid()
        else:
            t = s.copy()
            d = np.zeros(3)
            d[axis] = gen.choice(rng, [1.0, 1.0, -1.0])
            t.points = np.array(s.points) + rng.uniform(0.5, 1.5, s.n_points)[:, None] * d + rng.uniform(-0.1, 0.1, (s.n_points, 3))
            sg, tg = s, t
        cs.f32 = sg.points.dtype == np.float32
        cells, a, b = ref.cells_of(sg), ref.points_of(sg), ref.points_of(tg)
        cs.kind = "volume-" + kind
        cs.base_dim = 2

        def call():
            return pvg.Volume(s.copy(), t.copy(), resolution=res, method=meth)

    cs.call, cs.pts, cs.cells = call, a, cells
    cs.sweep = Sweep(cells, [(a, b)], [perc], None, cs.cdata, cs.pdata)
    cs.desc = lambda: {"direct": cs.kind, "n_cells": len(cells), "resolution": res, "method": meth, "offset": off, "data": sorted(cs.cdata), "p": a[:3]}
    return cs


def o_direct_data(cs, mon, mesh):
    """Data of a direct sweep; cells are identified by their geometry."""
    sw = cs.sweep
    lab, bad = sw.lab.label(ref.points_of(mesh))
    mon.check(lab is not None, "data:points", lambda: f"unexpected point {bad}")
    col_of = {}
    for (c, l), key in sw.keys.items():
        col_of.setdefault(key, set()).add(c)
    for k, v in cs.cdata.items():
        mon.check(k in mesh.cell_data, "data:kept", f"cell data '{k}' lost")
        got = np.asarray(mesh.cell_data[k])
        mon.check(got.shape == (mesh.n_cells, *v.shape[1:]), "data:shape", lambda: f"{k}: {got.shape}")
        for i, cell in enumerate(ref.cells_of(mesh)):
            cols = col_of.get(cell_key(cell, lab), set())
            mon.check(any((got[i] == v[c]).all() for c in cols), "data:direct-cell", lambda: f"cell data '{k}' of cell {i}: {got[i]}")
    sw.pdata = cs.pdata
    sw.o_point_data(mon, mesh)
