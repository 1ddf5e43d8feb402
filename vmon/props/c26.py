"""C26 repeatability: results compared between two calls, two histories, two processes."""
import importlib
import json
import os
import subprocess
import sys

import numpy as np
import pyvista as pv

from .. import core, replay

BIG = False  # scenarios are rebuilt in another process
QUICK, THOROUGH = 3200, 40000
ALL = ["c%02d" % i for i in range(1, 25)] + ["c28"]
BUILD = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c28"]
REQUIRED = {"twice:mesh", "twice:function", "history:mesh", "history:interleaved", "process:mesh", "process:result"} | {"ran:" + x for x in ALL}
RULE = (
    "Three comparisons, all bit for bit (points, cells, every data array, name tables, in order). Twice: while the scenarios of C01-C24 run, every top-level call is made a second time "
    "on copies of its arguments, the first result having been overwritten, and every generate_mesh is called again on the same builder. History: builder scenarios are repeated with a "
    "generation (whose result is then overwritten) after every addition; the meshes of the scenario must not change. Process: the scenario is repeated by another process with "
    "another hash seed, which ran other scenarios before; all results must be equal. Non-trivial: distinct scenario."
)


class H:
    mode = "off"
    depth = 0
    stats = None
    found = None
    log = None


def digest(x):
    if isinstance(x, BaseException):
        return {"raised": type(x).__name__}
    if isinstance(x, (set, frozenset)):
        x = sorted(x, key=repr)
    return replay.parts(x)


def inner(fn, a, k):
    H.depth += 1
    try:
        return fn(*a, **k)
    finally:
        H.depth -= 1


def outcome(fn, a, k):
    try:
        return inner(fn, a, k)
    except MemoryError:
        raise
    except Exception as e:
        return e


def hook(name, fn, a, k):
    if H.mode == "off" or H.depth:
        return fn(*a, **k)
    if H.mode == "twice":
        if "." in name:
            r = inner(fn, a, k)
            if name.endswith(".generate_mesh"):
                b = digest(r)
                again = outcome(fn, a, k)
                d = replay.changed(b, digest(again))
                H.stats["twice:mesh"] = H.stats.get("twice:mesh", 0) + 1
                if d:
                    H.found.append(("twice:mesh", f"{name} called a second time gives another mesh ({type(again).__name__}): {', '.join(d)[:300]}"))
                d = replay.changed(b, digest(r))
                if d:
                    H.found.append(("twice:mesh", f"{name} called a second time changed the mesh it had returned before: {', '.join(d)[:300]}"))
                # caller modifies its mesh, then generates again
                if isinstance(again, pv.DataSet):
                    replay.scramble(again)
                    d = replay.changed(b, digest(outcome(fn, a, k)))
                    if d:
                        H.found.append(("twice:mesh", f"{name} gives another mesh after the caller modified the one returned: {', '.join(d)[:300]}"))
            return r
        if "interactive" in name:
            return inner(fn, a, k)
        first = outcome(fn, replay.clone(list(a)), replay.clone(dict(k)))
        b = digest(first)
        if not isinstance(first, BaseException):
            replay.scramble(first)
        r = outcome(fn, a, k)
        d = replay.changed(b, digest(r))
        H.stats["twice:function"] = H.stats.get("twice:function", 0) + 1
        if d:
            H.found.append(("twice:function", f"{name} called a second time with the same arguments gives another result: {', '.join(d)[:300]}"))
        if isinstance(r, BaseException):
            raise r
        return r
    if H.mode in ("history", "interleaved"):
        r = inner(fn, a, k)
        if "." in name and not name.endswith(".__init__"):
            if name.endswith(".generate_mesh"):
                H.log.append(digest(r))
            elif H.mode == "interleaved" and hasattr(type(a[0]), "generate_mesh"):
                g = getattr(type(a[0]), "generate_mesh")
                x = outcome(g, (a[0],), {})
                if isinstance(x, pv.DataSet):
                    replay.scramble(x)
                    H.stats["history:interleaved"] = H.stats.get("history:interleaved", 0) + 1
        return r
    # log
    b = {}
    for i, x in enumerate(a[1:] if "." in name else a):
        b.update({f"{i} {kk}": v for kk, v in digest(x).items()})
    for n, x in k.items():
        b.update({f"{n} {kk}": v for kk, v in digest(x).items()})
    r = outcome(fn, a, k)
    H.log.append((name, b, digest(r)))
    if isinstance(r, BaseException):
        raise r
    return r


def record(pvg, name, seed):
    H.mode, H.log, H.depth = "log", [], 0
    try:
        sub, _ = replay.scenario(name, pvg, seed)
    finally:
        H.mode = "off"
    return sub, H.log


class Peer:
    """Another process, another hash seed."""

    def __init__(self, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        self.p = subprocess.Popen([sys.executable, "-c", "from vmon.props import c26; c26.serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

    def ask(self, name, seed):
        self.p.stdin.write(json.dumps([name, seed]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise OSError("helper process ended")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.kill()
        self.p.wait()


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    pvg = core.load_pvgridder(os.environ.get("VMON_REPO", "/repo"))
    core.install(pvg, core.Monitor(), hook=hook)
    for line in sys.stdin:
        name, seed = json.loads(line)
        _, log = record(pvg, name, seed)
        out.write(json.dumps(log) + "\n")
        out.flush()
    os._exit(0)


class S:
    peer = None
    served = 0


def setup(pvg, mon):
    core.install(pvg, mon, hook=hook)


def run_case(pvg, mon, rng, index, tier):
    H.stats, H.found, H.depth = {}, [], 0
    seed = [int(x) for x in rng.integers(0, 2**31, 3)]
    kind = (index // 8) % 4
    if kind == 0:
        name = ALL[int(rng.integers(len(ALL)))]
        mon.scenario(name=name, seed=seed, mode="twice")
        H.mode = "twice"
        try:
            sub, _ = replay.scenario(name, pvg, seed)
        finally:
            H.mode = "off"
        mon.scenario(scn=sub.scn)
        for tag, msg in H.found[:1]:
            mon.check(False, tag, msg)
        mon.check(True, "ran:" + name)
    elif kind == 1:
        name = BUILD[int(rng.integers(len(BUILD)))]
        mon.scenario(name=name, seed=seed, mode="history")
        runs = []
        for H.mode in ("history", "interleaved"):
            H.log = []
            m = H.mode
            try:
                sub, _ = replay.scenario(name, pvg, seed)
            finally:
                H.mode = "off"
            runs.append(H.log)
            H.mode = m
        H.mode = "off"
        mon.scenario(scn=sub.scn)
        mon.trivial = not runs[0]
        mon.check(len(runs[0]) == len(runs[1]), "history:mesh", lambda: f"{len(runs[1])} meshes generated instead of {len(runs[0])} when generating after every addition")
        for i, (x, y) in enumerate(zip(*runs)):
            d = replay.changed(x, y)
            mon.check(not d, "history:mesh", lambda: f"mesh {i} generated differs when generating after every addition: {', '.join(d)[:300]}")
    else:
        name = ALL[int(rng.integers(len(ALL)))]
        mon.scenario(name=name, seed=seed, mode="process")
        if S.peer is None or S.served >= 400:
            if S.peer is not None:
                S.peer.close()
            S.peer = Peer(1 + int(rng.integers(2**31)))
            S.served = 0
        S.served += 1
        theirs = None
        sub, ours = record(pvg, name, seed)
        theirs = S.peer.ask(name, seed)
        mon.scenario(scn=sub.scn)
        mon.check(True, "ran:" + name)
        mon.trivial = not ours
        for i, (x, y) in enumerate(zip(ours, theirs)):
            if x[0] != y[0] or replay.changed(x[1], y[1]):
                mon.notes["generator-diverged"] += 1
                break
            d = replay.changed(x[2], y[2])
            mon.check(not d, "process:mesh" if x[0].endswith("generate_mesh") else "process:result", lambda: f"result of {x[0]} differs in another process: {', '.join(d)[:300]}")
        else:
            mon.check(len(ours) == len(theirs), "process:result", "number of calls differs in another process")
    for k, v in H.stats.items():
        mon.tags[k] += v
