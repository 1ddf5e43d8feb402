"""C22 categorical data."""
import numpy as np
import pyvista as pv

from .. import gen, meshes, ref

QUICK, THOROUGH = 12000, 80000
REQUIRED = {
    "remap", "remap:data", "remap:names", "remap:order", "remap:others", "remap:inplace", "remap:copy", "remap:own", "group:names", "group:numbers", "group:none", "group:moved",
    "ran:swap", "ran:cycle", "ran:chain", "ran:merge", "ran:by-name", "ran:by-number", "ran:both", "ran:unused-name", "ran:absent-number", "ran:no-table", "ran:point", "ran:negative", "ran:identity",
    "ran:unnamed", "ran:int8", "ran:again", "ran:empty-mapping", "ran:onto-unused",
}
RULE = (
    "Meshes of every type with integer cell or point data (int8 to int64, negative values, gaps), full, partial, over-complete or no name tables; mappings given by "
    "name, number or both that swap, rotate, chain, merge, move or keep categories, mention unused names and absent numbers, in place or not, repeatedly. "
    "The expected data and name table are computed entry by entry. Non-trivial: distinct data and mapping."
)


def digest(d):
    return {k: (str(np.asarray(v).dtype), np.asarray(v).shape, np.asarray(v).tobytes()) for k, v in d.items()}


def run_case(pvg, mon, rng, index, tier):
    kind, dim, m = meshes.anymesh(rng)
    m.clear_data()
    point = rng.random() < 0.35
    n = m.n_points if point else m.n_cells
    notes = set()
    k = gen.count(rng, 1, 7, 6)
    lo = -4 if rng.random() < 0.4 else 0
    cats = sorted(int(x) for x in rng.choice(np.arange(lo, lo + 12), k, replace=False))
    dt = gen.choice(rng, ["int64", "int64", "int32", "int8", "int16"])
    data = np.array(cats)[rng.integers(len(cats), size=n)].astype(dt)
    if dt == "int8":
        notes.add("ran:int8")
    if data.min() < 0:
        notes.add("ran:negative")
    used = sorted({int(x) for x in data})
    key = gen.choice(rng, ["CellGroup", "CellGroup", "zone", "My key"])
    table = {}
    tk = gen.choice(rng, ["full", "full", "partial", "extra", "none"])
    if tk != "none":
        vals = list(cats)
        if tk == "extra":
            vals += [int(x) for x in range(20, 20 + int(rng.integers(1, 4)))]
        if tk == "partial":
            vals = [v for v in vals if rng.random() < 0.6]
        vals = [vals[i] for i in rng.permutation(len(vals))]
        pool = ["sand", "clay", "Silt", "rock 1", "z", "a", "ünï", "1", "00", "x.y", "None", "-1"]
        names = [pool[i] for i in rng.permutation(len(pool))[: len(vals)]]
        table = dict(zip(names, vals))
    else:
        notes.add("ran:no-table")
    if any(v not in used for v in table.values()):
        notes.add("ran:unused-name")
    named = {v: k_ for k_, v in table.items()}
    if any(u not in named for u in used):
        notes.add("ran:unnamed")
    att = m.point_data if point else m.cell_data
    att[key] = data
    m.cell_data["other"] = rng.integers(0, 5, m.n_cells)
    m.point_data["pother"] = rng.normal(size=m.n_points)
    if not point:
        m.point_data["cgp"] = rng.integers(0, 5, m.n_points)
    m.user_dict["else"] = {"q": 1, "r": 0}
    if table:
        m.user_dict[key] = dict(table)
    if rng.random() < 0.2:
        meshes.hide(rng, m)

    def groups(tag, mesh, d, t):
        if point:
            return
        full = bool(t) and all(int(x) in set(t.values()) for x in d)
        if key in mesh.user_dict and not full:
            return
        g = mon.call("group:names", pvg.get_cell_group, mesh, key=key) if key != "CellGroup" or rng.random() < 0.5 else mon.call("group:names", pvg.get_cell_group, mesh)
        if full:
            inv = {v: k_ for k_, v in t.items()}
            if len(inv) == len(t):
                mon.same(np.asarray(g), [inv[int(x)] for x in d], tag, "names per cell")
        elif key not in mesh.user_dict:
            mon.same(np.asarray(g), d, "group:numbers", "numbers per cell")

    groups("group:names", m, data, table)
    mon.check(pvg.get_cell_group(m, key="absent") is None, "group:none", "groups of data that does not exist")
    mon.scenario(kind=kind, cls=type(m).__name__, data=data, table=table, point=int(point), dt=dt, key=key)
    steps = int(rng.integers(1, 4))
    cur, tab = data, dict(table)
    for step in range(steps):
        used = sorted({int(x) for x in cur})
        mk = gen.choice(rng, ["swap", "cycle", "chain", "merge", "move", "identity", "random", "empty"])
        p = [used[i] for i in rng.permutation(len(used))]
        fresh = [int(x) for x in rng.permutation(np.arange(30, 60))]
        idle = [v for v in tab.values() if v not in used]
        if idle and rng.random() < 0.4:
            # onto a number whose name is in the table but not in the data
            fresh = [int(x) for x in rng.permutation(idle)] + fresh
        if mk in ("swap", "merge", "chain") and len(p) < 2 or mk == "cycle" and len(p) < 3:
            mk = "move"
        if mk == "swap":
            mp = {p[0]: p[1], p[1]: p[0]}
        elif mk == "cycle":
            c = p[: int(rng.integers(3, len(p) + 1))]
            mp = {a: b for a, b in zip(c, c[1:] + c[:1])}
        elif mk == "chain":
            c = p[: int(rng.integers(2, len(p) + 1))] + fresh[:1]
            mp = {a: b for a, b in zip(c, c[1:])}
        elif mk == "merge":
            c = p[: int(rng.integers(2, len(p) + 1))]
            to = c[0] if rng.random() < 0.5 else fresh[0]
            mp = {a: to for a in c}
        elif mk == "move":
            mp = {a: f for a, f in zip(p[: int(rng.integers(1, len(p) + 1))], fresh)}
        elif mk == "identity":
            mp = {a: a for a in p[: int(rng.integers(1, len(p) + 1))]}
        elif mk == "empty":
            mp = {}
            notes.add("ran:empty-mapping")
        else:
            mp = {a: int(rng.choice(used + fresh[:4])) for a in p if rng.random() < 0.7}
        if mk in ("swap", "cycle", "chain", "merge", "identity"):
            notes.add("ran:" + mk)
        if rng.random() < 0.25:
            a = int(rng.integers(70, 80))
            mp[a] = int(rng.choice(used + fresh[:3]))
            notes.add("ran:absent-number")
        items = [list(mp.items())[i] for i in rng.permutation(len(mp))]
        inv = {v: k_ for k_, v in tab.items()}
        unique = len(inv) == len(tab)
        how = set()
        arg = {}
        for a, b in items:
            if a in inv and unique and rng.random() < 0.5:
                arg[inv[a]] = b
                how.add("ran:by-name")
            else:
                arg[a] = b
                how.add("ran:by-number")
        gone = [k_ for k_, v in tab.items() if v not in used and v not in mp]
        if gone and rng.random() < 0.5:
            arg[gone[0]] = int(rng.choice(used + fresh[:3]))
        notes |= how
        if len(how) == 2:
            notes.add("ran:both")
        exp = np.array([mp.get(int(x), int(x)) for x in cur]).astype(dt)
        if not unique:
            # a merged table names one entry twice: only moves by number of unnamed or once-named values are defined
            mult = {v for v in tab.values() if list(tab.values()).count(v) > 1}
            if any(a in mult for a in mp):
                break
        if set(mp.values()) & set(idle):
            notes.add("ran:onto-unused")
        etab = {k_: mp.get(v, v) for k_, v in tab.items() if v in used}
        inplace = bool(rng.random() < 0.5)
        kw = {} if (not point and rng.random() < 0.5) else {"preference": "point" if point else "cell"}
        if inplace or rng.random() < 0.3:
            kw["inplace"] = inplace
        mon.scenario(**{f"map{step}": {str(a): b for a, b in arg.items()}, f"inplace{step}": int(inplace)})
        before = digest(m.cell_data), digest(m.point_data), {k_: dict(m.user_dict[k_]) for k_ in m.user_dict.keys()}
        r = mon.call("remap", pvg.remap_categorical_data, m, key, dict(arg), **kw)
        if inplace:
            mon.check(r is None, "remap:inplace", "in-place remapping returns a mesh")
            out = m
        else:
            mon.check(r is not None and r is not m, "remap:copy", "no new mesh returned")
            now = digest(m.cell_data), digest(m.point_data), {k_: dict(m.user_dict[k_]) for k_ in m.user_dict.keys()}
            mon.check(now == before, "remap:copy", "the mesh remapped to a copy is modified")
            mon.check(type(r) is type(m) and r.n_cells == m.n_cells and r.n_points == m.n_points, "remap:copy", "the copy is another kind of mesh")
            out = r
        o = np.asarray((out.point_data if point else out.cell_data)[key])
        mon.same(o, exp, "remap:data", f"data after {arg} of {cur.tolist()[:40]}")
        mon.check(o.dtype == np.dtype(dt), "remap:data", lambda: f"type {o.dtype} instead of {dt}")
        if tab:
            got = dict(out.user_dict[key])
            mon.check(got == etab, "remap:names", lambda: f"names {got} instead of {etab} (table {tab}, mapping {arg}, used {used})")
            v = list(got.values())
            mon.check(v == sorted(v), "remap:order", lambda: f"names are not ordered by value: {got}")
        else:
            mon.check(key not in out.user_dict or not dict(out.user_dict[key]), "remap:names", "names appear from nowhere")
        # everything else is as before
        a, b = digest(out.cell_data), digest(out.point_data)
        ea, eb = dict(before[0]), dict(before[1])
        for d in (a, b, ea, eb):
            d.pop(key, None)
        mon.check(a == ea and b == eb and dict(out.user_dict["else"]) == {"q": 1, "r": 0}, "remap:others", "other data or tables are modified")
        merges = len({mp.get(v, v) for v in used}) < len(used)
        if not merges and len(set(etab.values())) == len(etab):
            groups("group:moved", out, exp, etab)
        if not inplace and rng.random() < 0.5:
            # the copy is the caller's own: writing into it does not reach the original
            pin = np.array(m.points) if isinstance(m, (pv.PolyData, pv.UnstructuredGrid, pv.StructuredGrid)) else None
            saved = out.copy(deep=True)
            for d in (out.cell_data, out.point_data):
                for k_ in d.keys():
                    if k_ != "vtkGhostType":
                        d[k_][...] = 0 if k_ != key else 99
            if pin is not None:
                out.points[...] = 7.0
            out.user_dict["else"] = {"changed": 5}
            now = digest(m.cell_data), digest(m.point_data), {k_: dict(m.user_dict[k_]) for k_ in m.user_dict.keys()}
            mon.check(now == before and (pin is None or np.array_equal(m.points, pin)), "remap:own", "writing into the remapped copy modifies the original mesh")
            out = saved
        if step:
            notes.add("ran:again")
        m, cur, tab = out, exp, etab
        if not tab and table and key in m.user_dict:
            break
    if point:
        notes.add("ran:point")
    for x in notes:
        mon.check(True, x)
