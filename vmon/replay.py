"""Re-running the other properties' scenarios under argument/result hooks."""
from __future__ import annotations

import hashlib
import importlib
import json

import numpy as np
import pyvista as pv

from . import core


def _arr(h, x):
    x = np.ascontiguousarray(x)
    h.update(str(x.dtype).encode())
    h.update(str(x.shape).encode())
    h.update(x.tobytes() if x.dtype != object else repr(x.tolist()).encode())


def parts(x, depth=0):
    """name -> digest; equal iff the object is observably the same."""
    out = {}

    def put(k, *v):
        h = hashlib.blake2b(digest_size=12)
        for y in v:
            if isinstance(y, np.ndarray):
                _arr(h, y)
            else:
                h.update(repr(y).encode())
        out[k] = h.hexdigest()

    if isinstance(x, pv.DataSet):
        put("class", type(x).__name__)
        put("size", x.n_points, x.n_cells)
        if isinstance(x, pv.ImageData):
            put("grid", x.dimensions, x.origin, x.spacing, x.extent)
        elif isinstance(x, pv.RectilinearGrid):
            put("grid", np.array(x.x), np.array(x.y), np.array(x.z))
        else:
            put("points", np.array(x.points))
            if isinstance(x, pv.StructuredGrid):
                put("grid", x.dimensions)
            elif isinstance(x, pv.UnstructuredGrid):
                if x.n_cells:
                    put("cells", np.array(x.cells), np.array(x.celltypes))
            elif isinstance(x, pv.PolyData):
                put("cells", np.array(x.verts), np.array(x.lines), np.array(x.faces), np.array(x.strips))
        for nm, d in (("cell", x.cell_data), ("point", x.point_data)):
            for k in sorted(d.keys()):
                put(f"{nm} data {k}", np.array(d[k]))
        for k in sorted(x.field_data.keys()):
            v = x.field_data[k]
            if k == "_PYVISTA_USER_DICT":
                # reading a mesh's user dict (re)writes its serialised form
                t = v if isinstance(v, str) else "".join(np.asarray(v).astype(str).ravel().tolist())
                try:
                    d = json.loads(t)
                except ValueError:
                    d = {"raw": t}
                if d:
                    put("user dict", json.dumps(d))
                continue
            put(f"field data {k}", np.array(v) if np.asarray(v).dtype.kind in "iufb" else str(v))
        return out
    if isinstance(x, np.ndarray):
        put("array", x)
        return out
    if isinstance(x, (list, tuple, set, frozenset)) and depth < 4:
        put("type", type(x).__name__, len(x))
        for i, y in enumerate(x):
            for k, v in parts(y, depth + 1).items():
                out[f"[{i}] {k}"] = v
        return out
    if isinstance(x, dict) and depth < 4:
        put("keys", [repr(k) for k in x])
        for kk, y in x.items():
            for k, v in parts(y, depth + 1).items():
                out[f"[{kk!r}] {k}"] = v
        return out
    if isinstance(x, (str, int, float, bool, np.generic)) or x is None:
        put("value", x)
    return out


def changed(a, b):
    return [k for k in {**a, **b} if a.get(k) != b.get(k)]


def clone(x, depth=0):
    if isinstance(x, pv.DataSet):
        return x.copy(deep=True)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)) and depth < 4:
        return type(x)(clone(y, depth + 1) for y in x) if type(x) in (list, tuple) else x
    if type(x) is dict and depth < 4:
        return {k: clone(y, depth + 1) for k, y in x.items()}
    return x


def scramble(x, depth=0):
    """What a caller may do later with what it passed."""
    if isinstance(x, pv.DataSet):
        try:
            for d in (x.cell_data, x.point_data):
                for k in list(d.keys()):
                    v = d[k]
                    if np.asarray(v).dtype.kind in "iuf":
                        v[...] = v[::-1].copy() + 1
            if isinstance(x, pv.ImageData):
                x.origin = (91.0, 92.0, 93.0)
                x.spacing = (9.0, 8.0, 7.0)
            elif isinstance(x, pv.RectilinearGrid):
                x.x = np.asarray(x.x) * 3 + 50
            elif x.n_points:
                p = x.points
                p[...] = p[::-1].copy() * 3 + 50
            for k in list(x.user_dict.keys()):
                x.user_dict[k] = {"scrambled": 0}
            x.clear_data()
        except (ValueError, TypeError, AttributeError):
            pass
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "iuf" and x.flags.writeable:
            x[...] = 77
    elif isinstance(x, list) and depth < 4:
        for y in x:
            scramble(y, depth + 1)
        x[:] = []
    elif isinstance(x, dict) and depth < 4:
        for y in x.values():
            scramble(y, depth + 1)
        x.clear()
    elif isinstance(x, tuple) and depth < 4:
        for y in x:
            scramble(y, depth + 1)


def scenario(name, pvg, seed, tier="quick"):
    """Run one case of another property; its own verdict does not matter here.
    -> (scenario description, outcome)"""
    mod = importlib.import_module(f"vmon.props.{name}")
    sub = core.Monitor()
    rng = np.random.default_rng(seed)
    try:
        mod.run_case(pvg, sub, rng, 0, tier)
        r = "ran"
    except core.Skip:
        r = "skip"
    except core.Violation as e:
        r = "other:" + e.tag
    except MemoryError:
        raise
    except Exception as e:
        r = "other:" + type(e).__name__
    return sub, r
