"""C28 transition items of 2D stacks join two discretisations without gap or overlap."""
import numpy as np
import pyvista as pv
import shapely

from .. import gen, ref

QUICK, THOROUGH = 2500, 12000
REQUIRED = {
    "generate", "swept:count", "swept:cell", "swept:ids", "swept:group", "tri:type", "tri:ids", "tri:group", "tri:area",
    "tri:inside", "tri:boundary", "tri:conforming", "points:merged", "groups:used", "ran:int", "ran:mesh", "ran:two",
    "ran:extent", "ran:array", "ran:down",
}
RULE = (
    "Random 2D stacks (3 axes, upwards or downwards) of constants, functions and point arrays with one or two transitions "
    "to a coarser, finer or wider base line given by number or mesh. The swept items' cells are compared one by one with "
    "the model; the triangles of each transition item have to be inside the polygon between the two lines, add up to its "
    "area, and have exactly the segments of both lines (and the two sides) as boundary. Non-trivial: distinct history."
)


def ticks(rng, lo, hi, n):
    t = np.concatenate(([0.0], np.cumsum(rng.uniform(0.4, 1.6, n))))
    return lo + (hi - lo) * t / t[-1]


def run_case(pvg, mon, rng, index, tier):
    axis = int(rng.integers(3))
    u = (axis + 1) % 3 if rng.random() < 0.7 else (axis + 2) % 3
    w = 3 - axis - u
    wval = 0.0 if rng.random() < 0.5 else float(rng.uniform(-20, 20))
    up = bool(rng.random() < 0.6)
    sign = 1.0 if up else -1.0
    lo = float(gen.choice(rng, [0.0, -3.0, 250.0, 431250.0]))
    # segments stay well above the tolerance on float32 points
    hi = lo + float(rng.uniform(2.0, 12.0)) * {None: 1.0, "long": 100.0}.get(gen.BIG, 20.0)

    def line(t):
        p = np.zeros((len(t), 3))
        p[:, u] = t
        p[:, w] = wval
        return p

    def mk(t):
        p = line(t)
        return pv.PolyData(p, lines=[len(p), *range(len(p))])

    t = ticks(rng, lo, hi, gen.count(rng, 2, 8, 150, 300))
    if u == (axis + 1) % 3 and wval == 0.0 and rng.random() < 0.5:
        base = gen.choice(rng, [list, np.array])(t)
    else:
        base = mk(t)
    default = gen.choice(rng, [None, "rock"])
    z = float(gen.choice(rng, [0.0, -8.0, 100.0]))
    z0 = z
    items, calls = [], []
    log = []
    cur = (t, np.full(len(t), z))
    calls.append(("add", z, {}))
    sections = []
    n_tr = 1 + int(rng.random() < 0.35)
    plan = []
    for k in range(n_tr):
        plan += ["item"] * int(rng.integers(0 if k == 0 else 1, 3)) + ["tr"]
    plan += ["item"] * int(rng.integers(0, 3))
    if n_tr == 2:
        mon.check(True, "ran:two")
    if not up:
        mon.check(True, "ran:down")
    level = z
    for what in plan:
        level += sign * float(rng.uniform(1.2, 3.0))
        a, b, ph = float(rng.uniform(-0.3, 0.3)), float(rng.uniform(0.2, 2.0)), float(rng.uniform(0, 6))

        def zf(x, level=level, a=a, b=b, ph=ph, lo=lo):
            return level + a * np.sin(b * (x - lo) + ph)

        group = gen.choice(rng, [None, "A", "B", "T"])
        kw = {} if group is None else {"group": str(group)}
        if what == "tr":
            lo2, hi2 = lo, hi
            r = rng.random()
            if r < 0.4:
                n = gen.count(rng, 1, 12, 150)
                t2 = np.linspace(t[0], t[-1], n + 1)
                arg = n
                mon.check(True, "ran:int")
            else:
                if rng.random() < 0.4:
                    lo2, hi2 = lo - float(rng.uniform(0, 1)), hi + float(rng.uniform(0, 1))
                    mon.check(True, "ran:extent")
                t2 = ticks(rng, lo2, hi2, gen.count(rng, 1, 12, 150))
                arg = mk(t2)
                mon.check(True, "ran:mesh")
            calls.append(("set_transition", arg, {}))
            log.append(("transition", arg if isinstance(arg, int) else t2.tolist()))
            if rng.random() < 0.3:  # ignored for a transition
                kw["resolution"] = int(rng.integers(1, 5))
            if rng.random() < 0.3:
                kw["thickness"] = 50.0
            if rng.random() < 0.3:
                kw["priority"] = int(rng.integers(-2, 3))
        else:
            t2 = t
        k = int(rng.integers(3))
        if k == 0 and what == "item":
            d = float(rng.uniform(1.2, 3.0))
            z2 = cur[1] + sign * d
            level = float(np.mean(z2))
            arg = d if rng.random() < 0.7 else -d
            log.append((what, d, kw))
        elif k == 1:
            xs = np.linspace(min(t2[0], lo) - 1.0, max(t2[-1], hi) + 1.0, 9)
            zs = zf(xs)
            z2 = np.interp(t2, xs, zs)
            arg = line(xs)
            arg[:, axis] = zs
            arg = arg[rng.permutation(len(arg))]
            mon.check(True, "ran:array")
            log.append((what, "array", zs.tolist(), kw))
        else:
            z2 = zf(t2)
            arg = (lambda f: (lambda x, y, z: f((x, y, z)[u])))(zf)
            log.append((what, "function", level, a, b, ph, kw))
        if what == "item":
            res = int(rng.integers(1, 4))
            kw["resolution"] = res
        calls.append(("add", arg, kw))
        sections.append((what, cur, (t2, z2), kw.get("resolution", 1) if what == "item" else 1, str(group) if group is not None else default or "default"))
        cur, t = (t2, z2), t2
        if what == "tr":
            lo, hi = min(lo, t2[0]), max(hi, t2[-1])
    mon.scenario(axis=axis, u=u, wval=wval, up=up, t=sections[0][1][0].tolist(), z0=z0, default=default, log=log)

    def build():
        s = pvg.MeshStack2D(base, axis=axis, bottom_up=up, **({} if default is None else {"default_group": default}))
        for name, arg, kw in calls:
            r = getattr(s, name)(arg, **kw)
            if r is not s:
                raise ValueError("not chained")
        return s

    mesh = mon.call("generate", lambda: build().generate_mesh())
    P = np.asarray(mesh.points, dtype=float)
    span = max(ref.scale(P), 1.0)
    tol = 3e-6 * min(span, 500.0) + (1e-9 * span if span > 500.0 else 0.0)
    mon.check(np.ptp(P[:, w]) <= tol and abs(P[:, w] - wval).max() <= tol, "points:plane", "mesh leaves the plane of the stack")
    Q = P[:, [u, axis]]
    cells = ref.cells_of(mesh)
    cd = {k: np.asarray(mesh.cell_data[k]) for k in ("CellGroup", "ColumnId", "LayerId", "StackItem")}
    names = dict(mesh.user_dict["CellGroup"])
    inv = {v: k for k, v in names.items()}
    mon.check(len(inv) == len(names), "groups:used", f"{names}")
    mon.check({s[4] for s in sections} == set(names) == {inv.get(int(g)) for g in cd["CellGroup"]} and set(names.values()) == set(range(len(names))),
              "groups:used", lambda: f"names {names}, used {set(cd['CellGroup'].tolist())}, expected {sorted({s[4] for s in sections})}")
    if "vtkGhostType" in mesh.cell_data:
        mon.check(not np.any(mesh.cell_data["vtkGhostType"]), "hidden", "hidden cells in a stack without collapsed cell")
    layer = 0
    used = 0
    for i, (what, (ta, za), (tb, zb), res, group) in enumerate(sections):
        ids = np.flatnonzero(cd["StackItem"] == i)
        used += len(ids)
        A, B = np.column_stack((ta, za)), np.column_stack((tb, zb))
        mon.check({inv.get(int(g)) for g in cd["CellGroup"][ids]} <= {group}, ("tri" if what == "tr" else "swept") + ":group",
                  lambda: f"item {i}: groups {[inv.get(int(g)) for g in cd['CellGroup'][ids]]}, expected {group}")
        if what == "item":
            n = len(ta) - 1
            mon.check(len(ids) == n * res, "swept:count", lambda: f"item {i}: {len(ids)} cells, expected {n}x{res}")
            seen = set()
            for c in ids:
                col, lay = int(cd["ColumnId"][c]), int(cd["LayerId"][c])
                mon.check(0 <= col < n and layer <= lay < layer + res and (col, lay) not in seen, "swept:ids",
                          lambda: f"item {i} cell {c}: column {col} layer {lay}")
                seen.add((col, lay))
                s0, s1 = (lay - layer) / res, (lay - layer + 1) / res
                exp = np.array([A[col] + s0 * (B[col] - A[col]), A[col + 1] + s0 * (B[col + 1] - A[col + 1]),
                                A[col + 1] + s1 * (B[col + 1] - A[col + 1]), A[col] + s1 * (B[col] - A[col])])
                got = Q[cells[c].ring()]
                ok = len(got) == 4 and any(np.abs(np.roll(exp[::d], r, axis=0) - got).max() <= tol for d in (1, -1) for r in range(4))
                mon.check(ok, "swept:cell", lambda: f"item {i} column {col} layer {lay}: corners {got.tolist()} expected {exp.tolist()}")
            layer += res
            continue
        mon.check(len(ids) > 0 and all(cells[c].type == int(pv.CellType.TRIANGLE) for c in ids), "tri:type",
                  lambda: f"item {i}: types {[int(cells[c].type) for c in ids]}")
        mon.check((cd["LayerId"][ids] == layer).all() and (cd["ColumnId"][ids] == -1).all(), "tri:ids",
                  lambda: f"item {i}: layers {cd['LayerId'][ids].tolist()} (expected {layer}) columns {cd['ColumnId'][ids].tolist()}")
        layer += 1
        ring = np.vstack((A, B[::-1]))
        poly = shapely.Polygon(ring)
        area = 0.0
        big = poly.buffer(50 * tol)
        edges = {}
        for c in ids:
            r = cells[c].ring()
            p = Q[r]
            area += abs(ref.signed_area2(p))
            mon.check(big.covers(shapely.Polygon(p)), "tri:inside", lambda: f"item {i}: triangle {p.tolist()} leaves the transition zone")
            for x, y in zip(r, np.roll(r, -1)):
                k = (min(x, y), max(x, y))
                edges[k] = edges.get(k, 0) + 1
        mon.check(abs(area - poly.area) <= 50 * tol * (poly.length + 1.0), "tri:area", lambda: f"item {i}: triangles cover {area:g}, zone is {poly.area:g}")
        mon.check(max(edges.values()) <= 2, "tri:conforming", lambda: f"item {i}: an edge belongs to more than two triangles")
        bnd = [k for k, n in edges.items() if n == 1]
        # segments of both lines must be edges of the triangulation; the sides may be subdivided
        want = [(A[j], A[j + 1]) for j in range(len(A) - 1)] + [(B[j], B[j + 1]) for j in range(len(B) - 1)]
        E = np.array([np.concatenate((Q[x], Q[y])) for x, y in bnd])
        hit = np.zeros(len(E), dtype=bool)
        for p, q in want:
            m = (np.abs(E - np.concatenate((p, q))).max(axis=1) <= tol) | (np.abs(E - np.concatenate((q, p))).max(axis=1) <= tol)
            mon.check(m.sum() == 1, "tri:boundary", lambda: f"item {i}: segment {p.tolist()}-{q.tolist()} is not a boundary edge of the transition")
            hit |= m
        L = np.linalg.norm(E[~hit, 2:] - E[~hit, :2], axis=1).sum() if (~hit).any() else 0.0
        side = np.linalg.norm(A[0] - B[0]) + np.linalg.norm(A[-1] - B[-1])
        mon.check(abs(L - side) <= 50 * tol, "tri:boundary", lambda: f"item {i}: sides of length {L:g}, expected {side:g}")
    mon.check(used == mesh.n_cells, "swept:count", lambda: f"{mesh.n_cells - used} cells belong to no item")
    # neighbours share points: no two points coincide
    d, _ = ref_tree(P).query(P, k=2)
    mon.check(d[:, 1].min() > 1e-8, "points:merged", lambda: f"two points are {d[:, 1].min():g} apart")


def ref_tree(p):
    from scipy.spatial import KDTree

    return KDTree(p)
