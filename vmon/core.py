"""Monitor core: oracles' verdicts, API event recorder, case bookkeeping."""
from __future__ import annotations

import collections
import functools
import hashlib
import inspect
import json
import os

import numpy as np


class Violation(Exception):
    def __init__(self, tag, msg):
        super().__init__(f"[{tag}] {msg}")
        self.tag = tag
        self.msg = msg


class Skip(Exception):
    """Generated case is outside of the property's precondition."""


def jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {"array": list(x.shape), "head": jsonable(x.ravel()[:12])}
        return jsonable(x.tolist())
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:80]]
    return repr(x)[:120]


class Monitor:
    """One per worker; `begin` resets the per-case part."""

    def __init__(self):
        self.tags = collections.Counter()  # oracle evaluations, per tag
        self.refusals = collections.Counter()
        self.events = collections.Counter()  # calls observed, per public name
        self.notes = collections.Counter()
        self.begin()

    def begin(self):
        self.scn = {}
        self.trivial = False

    def drain(self):
        res = {}
        for name in ("tags", "events", "refusals", "notes"):
            c = getattr(self, name)
            res[name] = dict(c)
            c.clear()
        return res

    # -- what the case is -------------------------------------------------
    def scenario(self, **kw):
        self.scn.update(kw)

    def key(self):
        s = json.dumps(jsonable(self.scn), sort_keys=True)
        return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()

    # -- oracle -----------------------------------------------------------
    def check(self, ok, tag, msg=""):
        self.tags[tag] += 1
        if not bool(ok):
            raise Violation(tag, msg() if callable(msg) else str(msg))

    def close(self, a, b, tag, tol, msg=""):
        """|a - b| <= tol elementwise, same shape, NaN matches NaN."""
        self.tags[tag] += 1
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(tag, f"{msg}: shape {a.shape} instead of {b.shape}")
        if a.size == 0:
            return
        nan = np.isnan(a) & np.isnan(b)
        d = np.where(nan, 0.0, np.abs(a - b))
        bad = ~(d <= tol)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(
                tag,
                f"{msg}: {int(bad.sum())}/{a.size} values differ, e.g. at {i} got {a[i]!r} expected {b[i]!r} (tolerance {tol:g})",
            )

    def same(self, a, b, tag, msg=""):
        self.tags[tag] += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not (a == b).all():
            raise Violation(tag, f"{msg}: got {str(a.tolist())[:300]} expected {str(b.tolist())[:300]}")

    def call(self, tag, fn, *a, **k):
        """Call under test that must succeed."""
        self.tags[tag] += 1
        try:
            return fn(*a, **k)
        except (Violation, Skip, MemoryError):
            raise
        except Exception as e:
            raise Violation(tag, f"legitimate call failed: {type(e).__name__}: {e}")

    def refuses(self, tag, fn, *a, **k):
        """Call under test that must raise (any ordinary exception)."""
        self.tags[tag] += 1
        try:
            r = fn(*a, **k)
        except (Violation, Skip, MemoryError):
            raise
        except Exception as e:
            self.refusals[type(e).__name__] += 1
            return e
        raise Violation(tag, f"impossible request accepted, returned {type(r).__name__}")

    def event(self, name):
        self.events[name] += 1


# --------------------------------------------------------------------------
# API event recorder: every public name of the package is wrapped, nested
# calls included (the package looks its own public names up at call time).


def install(pvg, mon, hook=None):
    """Wrap public functions and builder methods. hook(name, fn, args, kwargs)
    replaces the call when given (purity monitor)."""

    def wrap(name, fn):
        @functools.wraps(fn)
        def wrapper(*a, **k):
            mon.event(name)
            if hook is None:
                return fn(*a, **k)
            return hook(name, fn, a, k)

        wrapper.__vmon__ = True
        return wrapper

    names = []
    for name in dir(pvg):
        if name.startswith("_"):
            continue
        obj = getattr(pvg, name)
        if inspect.ismodule(obj):
            continue
        if inspect.isclass(obj):
            cls = obj
        elif getattr(obj, "__wrapped__", None) is not None and inspect.isclass(
            obj.__wrapped__
        ):
            cls = obj.__wrapped__
        else:
            cls = None
        if cls is not None:
            if not hasattr(cls, "generate_mesh"):
                continue
            for m in sorted(set(dir(cls))):
                if m == "__init__" or (not m.startswith("_")):
                    f = inspect.getattr_static(cls, m, None)
                    if inspect.isfunction(f) and not hasattr(f, "__vmon__"):
                        setattr(cls, m, wrap(f"{name}.{m}", f))
                        names.append(f"{name}.{m}")
        elif callable(obj) and not hasattr(obj, "__vmon__"):
            setattr(pvg, name, wrap(name, obj))
            names.append(name)
    return names


def load_pvgridder(repo):
    import sys

    sys.path.insert(0, repo)
    import pyvista  # noqa: F401  (third-party bytecode caches may be used)

    # the code under test is always compiled from the working tree
    sys.dont_write_bytecode = True
    old, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-vmon-pycache"
    try:
        import pvgridder
    finally:
        sys.pycache_prefix = old

    f = os.path.realpath(pvgridder.__file__)
    if not f.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"pvgridder imported from {f}, not from {repo}")
    return pvgridder
