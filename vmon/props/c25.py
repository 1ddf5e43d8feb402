"""C25 purity: digests of every argument around every observed public call."""
import numpy as np
import pyvista as pv

from .. import core, replay

QUICK, THOROUGH = 4800, 40000
ALL = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c28"]
BUILD = ["c01", "c02", "c03", "c04", "c05", "c07", "c08", "c09", "c28"]
REQUIRED = {
    "pure:call", "pure:nested", "pure:mesh", "pure:array", "pure:hidden", "pure:ids", "pure:raised", "pure:wrong", "fault:injected", "pure:container", "pure:method", "pure:kept", "later:scrambled", "later:mesh", "ran:inplace",
} | {"ran:" + x for x in ALL}
RULE = (
    "The scenarios of C01-C24 run with every public call observed, nested ones included: meshes, arrays, lists and dicts passed are digested (points, cells, every data and field "
    "array, name tables, hidden flags) before and after, whether the call returns or raises. What was passed to a builder is watched during its later calls too. Scenarios are repeated with stored original ids, hidden flags and field data on the "
    "inputs, with wrong arguments, and with failures injected into the VTK filters the code calls. Builder scenarios are repeated with every passed mesh/array/list overwritten by "
    "the caller right after the call; the meshes generated must be identical. Non-trivial: distinct scenario."
)
FILTERS = [
    "cell_centers", "extract_cells", "extract_geometry", "extract_surface", "clean", "compute_normals", "compute_cell_sizes", "cast_to_unstructured_grid", "triangulate", "extract_feature_edges",
    "strip", "translate", "rotate_vector", "find_cells_intersecting_line", "find_containing_cell", "find_closest_cell", "point_data_to_cell_data", "cell_data_to_point_data", "copy", "plot",
    "merge_points", "extract_points", "project_points_to_plane", "cell_neighbors",
]


class Injected(RuntimeError):
    pass


class H:
    depth = 0
    mode = "pure"
    found = None
    stats = None
    rng = None
    decorate = 0.0
    wrong = 0.0
    fault = 0.0
    armed = -1
    count = 0
    results = None
    nogmsh = False
    kept = None  # builder -> what the caller passed to it so far


def tick():
    if H.depth > 0 and H.armed != -1:
        H.count += 1
        if H.count == H.armed:
            H.armed = -1
            raise Injected("injected failure")


def inputs(name, a, k):
    """(label, object) of what the caller owns."""
    out = [(str(i), x) for i, x in enumerate(a)] + list(k.items())
    if "." in name:
        out = out[1:]
    if k.get("inplace") is True:
        H.stats["ran:inplace"] = 1
        out = [x for x in out if not isinstance(x[1], pv.DataSet)]
    return [(n, x) for n, x in out if isinstance(x, (pv.DataSet, np.ndarray, list, tuple, dict))]


def verify(name, ins, before, how):
    for (n, x), b in zip(ins, before):
        d = replay.changed(b, replay.parts(x))
        if d:
            H.found.append(f"{name} {how} modified its argument {n} ({type(x).__name__}): {', '.join(d)[:200]}")
    for n, x in ins:
        H.stats["pure:mesh" if isinstance(x, pv.DataSet) else "pure:array" if isinstance(x, np.ndarray) else "pure:container"] = 1
        if isinstance(x, pv.DataSet):
            if "vtkGhostType" in x.cell_data:
                H.stats["pure:hidden"] = 1
            if "vtkOriginalCellIds" in x.cell_data:
                H.stats["pure:ids"] = 1


def guarded(name, fn, a, k, top, how=""):
    ins = inputs(name, a, k)
    own = "." in name and k.get("inplace") is not True
    kept = H.kept.setdefault(id(a[0]), (a[0], []))[1] if own else []
    new = list(ins)
    ins = ins + [(f"{n} (passed earlier to {m})", x) for m, n, x in kept]
    if kept:
        H.stats["pure:kept"] = H.stats.get("pure:kept", 0) + 1
    before = [replay.parts(x) for _, x in ins]
    H.depth += 1
    try:
        r = fn(*a, **k)
    except Exception as e:
        verify(name, ins, before, f"raising {type(e).__name__}{how}")
        H.stats["pure:raised"] = 1
        raise
    finally:
        H.depth -= 1
    verify(name, ins, before, f"returning{how}")
    H.stats["pure:call" if top else "pure:nested"] = H.stats.get("pure:call" if top else "pure:nested", 0) + 1
    if own:
        H.stats["pure:method"] = 1
        kept.extend((name, n, x) for n, x in new)
    return r


def decorate(x):
    r = H.rng
    if isinstance(x, pv.DataSet) and x.n_cells and x.n_points:
        if r.random() < 0.7:
            x.cell_data["vtkOriginalCellIds"] = np.arange(x.n_cells) * 7 + 3
            x.point_data["vtkOriginalPointIds"] = np.arange(x.n_points) * 5 + 2
        if r.random() < 0.4 and "vtkGhostType" not in x.cell_data and not isinstance(x, pv.PolyData):
            g = np.zeros(x.n_cells, dtype=np.uint8)
            g[r.random(x.n_cells) < 0.3] = 32
            g[0] = 0
            x.cell_data["vtkGhostType"] = g
            H.nogmsh = True
        if r.random() < 0.5:
            x.field_data["fd"] = np.arange(3.0)
            x.user_dict["note"] = {"k": 1}
    elif isinstance(x, (list, tuple)):
        for y in x:
            decorate(y)


def hook(name, fn, a, k):
    if H.mode == "off":
        return fn(*a, **k)
    if H.mode == "later":
        return later(name, fn, a, k)
    top = H.depth == 0
    if not top:
        tick()
        return guarded(name, fn, a, k, False)
    if "." not in name and H.mode == "pure":
        r = H.rng
        if H.decorate and r.random() < H.decorate:
            b, q = replay.clone(list(a)), replay.clone(dict(k))
            H.nogmsh = False
            for x in [*b, *q.values()]:
                decorate(x)
            try:
                guarded(name, fn, b, q, True, " (stored ids/hidden flags on the input)")
            except MemoryError:
                raise
            except Exception:
                pass
        if H.wrong and r.random() < H.wrong:
            b, q = replay.clone(list(a)), replay.clone(dict(k))
            spoil(b, q)
            try:
                guarded(name, fn, b, q, True, " (given a wrong argument)")
            except MemoryError:
                raise
            except Exception:
                H.stats["pure:wrong"] = 1
    if H.fault and H.mode == "pure" and not name.endswith(".__init__") and H.rng.random() < H.fault and ("." not in name or name.endswith("generate_mesh")):
        b, q = replay.clone(list(a)), replay.clone(dict(k))
        H.nogmsh = False
        if "." in name:
            b[0] = a[0]
        for x in [*b[1 if "." in name else 0:], *q.values()]:
            if H.rng.random() < 0.5:
                decorate(x)
        # how many filters does the call use?
        b2, q2 = ([b[0], *replay.clone(b[1:])] if "." in name else replay.clone(b)), replay.clone(q)
        H.count, H.armed = 0, 10**9
        try:
            guarded(name, fn, b2, q2, True)
        except MemoryError:
            raise
        except Exception:
            pass
        H.armed, n = (int(H.rng.integers(1, H.count + 1)) if H.count else -1), H.count
        H.count = 0
        try:
            guarded(name, fn, b, q, True, " (a filter it calls failed)")
        except Injected:
            H.stats["fault:injected"] = 1
        except MemoryError:
            raise
        except Exception:
            pass
        finally:
            H.armed = -1
    H.nogmsh = False
    return guarded(name, fn, a, k, True)


def spoil(b, q):
    r = H.rng
    H.nogmsh = True
    s = [i for i, x in enumerate(b) if isinstance(x, str)]
    t = [n for n, x in q.items() if isinstance(x, str)]
    m = [i for i, x in enumerate(b) if isinstance(x, pv.DataSet)]
    c = r.random()
    if c < 0.4 and (s or t):
        for i in s:
            b[i] = "nonsense"
        for n in t:
            q[n] = "nonsense"
    elif c < 0.8 and m:
        i = int(r.choice(m))
        b[i] = [pv.ImageData(dimensions=(3, 3, 3)).cast_to_unstructured_grid(), pv.ImageData(dimensions=(3, 2, 1)).cast_to_structured_grid(), pv.Line(), pv.ImageData(dimensions=(2, 3, 1))][int(r.integers(4))]
        decorate(b[i])
    else:
        q["no_such_argument"] = 1


def later(name, fn, a, k):
    """Builder inputs are overwritten by the caller right after each call."""
    if H.depth or "." not in name:
        H.depth += 1
        try:
            return fn(*a, **k)
        finally:
            H.depth -= 1
    if name.endswith(".generate_mesh"):
        H.depth += 1
        try:
            r = fn(*a, **k)
        finally:
            H.depth -= 1
        H.results.append(replay.parts(r))
        return r
    if H.scr:
        b, q = [a[0], *replay.clone(list(a[1:]))], replay.clone(dict(k))
    else:
        b, q = a, k
    H.depth += 1
    try:
        return fn(*b, **q)
    finally:
        H.depth -= 1
        if H.scr and name.split(".")[0] in ("MeshStack2D", "MeshStack3D", "VoronoiMesh2D"):
            # meshes and coordinates (resolutions and group tables are kept as given)
            for x in [*b[1:], *[v for n, v in q.items() if n not in ("resolution", "group")]]:
                if not isinstance(x, (pv.DataSet, np.ndarray)):
                    continue
                if isinstance(x, (pv.DataSet, np.ndarray)):
                    H.stats["later:scrambled"] = H.stats.get("later:scrambled", 0) + 1
                replay.scramble(x)


def setup(pvg, mon):
    core.install(pvg, mon, hook=hook)
    # Gmsh may never return on the self-touching outlines that spoiled or partially
    # hidden inputs lead to: for those variants only, meshing fails instead
    import gmsh

    generate = gmsh.model.mesh.generate

    def checked(*a, **k):
        if H.nogmsh:
            raise Injected("spoiled input not meshed")
        return generate(*a, **k)

    gmsh.model.mesh.generate = checked
    seen = set()
    for cls in (pv.UnstructuredGrid, pv.StructuredGrid, pv.PolyData, pv.ImageData, pv.RectilinearGrid):
        for base in cls.__mro__:
            for f in FILTERS:
                if f in base.__dict__ and (base, f) not in seen and callable(base.__dict__[f]):
                    seen.add((base, f))
                    setattr(base, f, wrap(base.__dict__[f]))


def wrap(g):
    import functools

    @functools.wraps(g)
    def w(*a, **k):
        tick()
        return g(*a, **k)

    return w


def run_case(pvg, mon, rng, index, tier):
    H.found, H.stats, H.rng, H.depth, H.armed, H.nogmsh, H.kept = [], {}, rng, 0, -1, False, {}
    seed = [int(x) for x in rng.integers(0, 2**31, 3)]
    if index % 5 == 4:
        name = BUILD[(index // 5) % len(BUILD)]
        mon.scenario(name=name, seed=seed, mode="later")
        H.mode, runs = "later", []
        try:
            for H.scr in (False, True):
                H.results = []
                sub, _ = replay.scenario(name, pvg, seed)
                runs.append(H.results)
        finally:
            H.mode = "off"
        mon.scenario(scn=sub.scn)
        mon.trivial = not runs[0]
        for i, (x, y) in enumerate(zip(*runs)):
            d = replay.changed(x, y)
            mon.check(not d, "later:mesh", lambda: f"mesh {i} generated differs once the caller overwrote what it had passed: {', '.join(d)[:300]}")
        mon.check(len(runs[0]) == len(runs[1]), "later:mesh", lambda: f"{len(runs[1])} meshes generated instead of {len(runs[0])} once the caller overwrote what it had passed")
    else:
        name = ALL[(index - index // 5) % len(ALL)]
        H.decorate, H.wrong, H.fault = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.3, 0.3, 0.3)][int(rng.integers(5))]
        mon.scenario(name=name, seed=seed, mode=[H.decorate, H.wrong, H.fault])
        H.mode = "pure"
        try:
            sub, r = replay.scenario(name, pvg, seed)
        finally:
            H.mode = "off"
        mon.scenario(scn=sub.scn)
        mon.check(not H.found, "pure:call", lambda: H.found[0])
        mon.check(True, "ran:" + name)
    for k, v in H.stats.items():
        mon.tags[k] += v
