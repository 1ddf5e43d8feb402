"""C04 groups (stack and extrusion; merge and Voronoi below)."""
import numpy as np
import pyvista as pv

from .. import gen, ref, stackmodel as sm

QUICK, THOROUGH = 6400, 40000
REQUIRED = {"generate", "group:present", "group:numbers", "group:used", "group:name", "ran:stack", "ran:extrude", "ran:merge", "ran:voronoi", "merge:name", "voronoi:name"}
RULE = (
    "Random stacks, extrusions, merges and Voronoi meshes with groups on the inputs (any numbering), ignore lists, "
    "default groups and every form of group argument; the group name of every cell is compared with the one implied by "
    "the inputs. Non-trivial: distinct scenario."
)


def merge_case(pvg, mon, rng):
    default = gen.choice(rng, [None, "dflt"])
    items, ign = [], []
    kw = {}
    if default:
        kw["default_group"] = default
    parts = []
    for k in range(int(rng.integers(1, 5))):
        off = np.array([20.0 * k, 0.0, 0.0])
        kind, m = gen.surface(rng, 2, off)
        names = [None] * m.n_cells
        if rng.random() < 0.6:
            names = gen.put_groups(rng, m)
        g = gen.choice(rng, [None, None, "X", "sand"])
        parts.append((m, names, g))
    allnames = sorted({x for p in parts for x in p[1] if x})
    if allnames and rng.random() < 0.5:
        ign = [str(x) for x in rng.permutation(allnames)[: int(rng.integers(1, len(allnames) + 1))]]
        kw["ignore_groups"] = ign
    mon.scenario(merge=[(type(p[0]).__name__, p[0].n_cells, p[1], p[2]) for p in parts], ignore=ign, default=default)

    def go():
        b = pvg.MeshMerge(**kw)
        for m, _, g in parts:
            b.add(m.copy(), group=g) if g else b.add(m.copy())
        return b.generate_mesh()

    mesh = mon.call("generate", go)
    mon.check("CellGroup" in mesh.cell_data and "CellGroup" in mesh.user_dict, "group:present")
    sm.o_group_numbers(mon, mesh)
    inv = {v: k for k, v in mesh.user_dict["CellGroup"].items()}
    # input cells by centroid of corners
    exp = {}
    for m, names, g in parts:
        mm = m.cast_to_structured_grid() if isinstance(m, (pv.ImageData, pv.RectilinearGrid)) else m
        P = ref.points_of(mm)
        for c, nm in zip(ref.cells_of(mm), names):
            key = (len(c.ids), *np.round(P[c.ids].mean(axis=0), 3))
            want = nm if nm is not None and nm not in ign else (g or default or "default")
            exp.setdefault(key, []).append(want)
    P = ref.points_of(mesh)
    from scipy.spatial import KDTree

    ek = list(exp)
    tree = KDTree(np.array(ek, dtype=float) * np.array([100.0, 1, 1, 1]))
    seen = {k: list(v) for k, v in exp.items()}
    mon.check(mesh.n_cells == sum(map(len, exp.values())), "merge:count", f"{mesh.n_cells} cells")
    for i, c in enumerate(ref.cells_of(mesh)):
        q = np.array([len(c.ids) * 100.0, *P[c.ids].mean(axis=0)])
        d, j = tree.query(q)
        mon.check(d < 1e-2, "merge:cell", lambda: f"cell {i} is not an input cell")
        nm = inv.get(int(mesh.cell_data["CellGroup"][i]))
        mon.check(nm in seen[ek[j]], "merge:name", lambda: f"cell {i} is in group {nm!r}, expected {exp[ek[j]]}")
        seen[ek[j]].remove(nm)


def voronoi_case(pvg, mon, rng):
    """Background groups + added points with groups; cells located by generating point."""
    nx, ny = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    w, h = nx * 1.0, ny * 1.0
    base = gen.structured_surface(rng, 2, nx, ny, jitter=True)
    pref = gen.choice(rng, ["cell", "cell", "point"])
    names = [None] * base.n_cells
    default = gen.choice(rng, [None, "dflt"])
    if rng.random() < 0.7:
        names = gen.put_groups(rng, base)
    kw = {"preference": pref} if pref != "cell" or rng.random() < 0.5 else {}
    if default:
        kw["default_group"] = default
    ign = []
    if any(names) and rng.random() < 0.4:
        ign = [str(gen.choice(rng, sorted(set(names))))]
        kw["ignore_groups"] = ign
    P = ref.points_of(base)
    cells = ref.cells_of(base)
    if pref == "cell":
        pts = np.array([P[c.ids].mean(axis=0) for c in cells])
        exp = [nm if nm is not None and nm not in ign else (default or "default") for nm in names]
    else:
        pts = P.copy()
        exp = [default or "default"] * len(P)
    items = []
    for k in range(int(rng.integers(0, 4))):
        m = int(rng.integers(1, 4))
        # well inside the domain
        c = rng.choice(len(cells), m, replace=False) if m <= len(cells) else np.array([0])
        q = np.array([P[cells[i].ids].T @ rng.dirichlet(np.ones(4) * 3) for i in c])
        if min(np.linalg.norm(pts[:, None] - q[None], axis=2).min(), 1) < 0.05:
            continue
        if len(q) > 1:
            dd = np.linalg.norm(q[:, None] - q[None], axis=2) + np.eye(len(q))
            if dd.min() < 0.05:
                continue
        style = gen.choice(rng, ["array", "mesh", "mesh-groups"])
        g = gen.choice(rng, [None, "W", "sand", "dict"])
        arg, base_n = (q[:, :2] if rng.random() < 0.5 else q), [None] * len(q)
        if style != "array":
            arg = pv.PolyData(q)
            if style == "mesh-groups":
                base_n = gen.put_groups(rng, arg)
        cur = [None if b in ign else b for b in base_n]
        garg = g
        if g == "dict":
            garg, f = sm.group_spec(rng, len(q), base_n if base_n[0] is not None else None)
            cur = f(cur)
            if garg is None:
                g = None
        elif g:
            cur = [g] * len(q)
        items.append((arg, garg))
        pts = np.vstack((pts, q))
        exp += [x if x is not None else (default or "default") for x in cur]
    mon.scenario(voronoi=(nx, ny), pref=pref, n_items=len(items), default=default, ignore=ign, groups=[sm.describe_group(i[1]) for i in items], p=pts[-2:])

    def go():
        b = pvg.VoronoiMesh2D(base.copy(), **kw)
        for a, g in items:
            b.add(a.copy(), group=g) if g is not None else b.add(a.copy())
        return b.generate_mesh()

    mesh = mon.call("generate", go)
    mon.check("CellGroup" in mesh.cell_data and "CellGroup" in mesh.user_dict, "group:present")
    sm.o_group_numbers(mon, mesh)
    inv = {v: k for k, v in mesh.user_dict["CellGroup"].items()}
    xyz = np.column_stack([np.asarray(mesh.cell_data[k]) for k in "XYZ"])
    for i in range(mesh.n_cells):
        d = np.linalg.norm(pts - xyz[i], axis=1)
        j = int(d.argmin())
        mon.check(d[j] < 1e-6, "voronoi:point", lambda: f"generating point {xyz[i]} unknown")
        nm = inv.get(int(mesh.cell_data["CellGroup"][i]))
        mon.check(nm == exp[j], "voronoi:name", lambda: f"cell of point {xyz[i]} is in group {nm!r}, expected {exp[j]!r}")


def run_case(pvg, mon, rng, index, tier):
    r = rng.random()
    if r < 0.15:
        merge_case(pvg, mon, rng)
        mon.check(True, "ran:merge")
        return
    if r < 0.3:
        voronoi_case(pvg, mon, rng)
        mon.check(True, "ran:voronoi")
        return
    if r < 0.6:
        cs = sm.make_extrude(rng, pvg, data=False)
        item = "ExtrudeItem"
    else:
        cs = sm.make_stack(rng, pvg, data=False, simple=True)
        item = "StackItem"
    mon.scenario(**cs.desc())
    mesh = mon.call("generate", lambda: cs.build().generate_mesh())
    mon.check(True, "ran:stack" if item == "StackItem" else "ran:extrude")
    cs.sweep.o_groups(mon, mesh, item)
