"""C13 generated, decimated and reconstructed lines."""
import numpy as np
import pyvista as pv

from .. import gen, ref
from ..core import Skip
from .c12 import segs_of

QUICK, THOROUGH = 16000, 120000
REQUIRED = {
    "regular", "regular:count", "regular:spacing", "regular:ends", "regular:order", "curved", "curved:origin", "curved:length", "curved:turn", "curved:plane",
    "decimate", "decimate:ends", "decimate:points", "decimate:distance", "decimate:reduces", "decimate:count",
    "reconstruct", "reconstruct:visits", "reconstruct:start", "reconstruct:length", "reconstruct:2opt", "reconstruct:lines",
    "ran:regular-res", "ran:curved-straight", "ran:curved-slight", "ran:decimate-closed", "ran:decimate-multi", "ran:reconstruct-close", "ran:reconstruct-start", "ran:reconstruct-mesh", "ran:reconstruct-2d",
}
RULE = (
    "Random polylines and point sets at several scales and offsets: arc-length positions of regular lines, turning angles of curved "
    "lines, distance of dropped points to the decimated line, and every single-stretch reversal of reconstructed lines are evaluated. "
    "Non-trivial: distinct input."
)


def regular(pvg, mon, rng):
    off, s = gen.offsets(rng), float(10.0 ** rng.uniform(-1, 3))
    n = gen.count(rng, 2, 9, 400, 1500)
    p = np.cumsum(rng.normal(size=(n, 3)), axis=0) * s + off
    if rng.random() < 0.1 and n > 3:
        p[2] = p[1]
    res = gen.choice(rng, [None, 1, 2, 3, 7, 20])
    arg = p if rng.random() < 0.5 else p.tolist()
    mon.scenario(f="regular", p=p, res=res)
    m = mon.call("regular", pvg.RegularLine, arg, **({} if res is None else {"resolution": res}))
    q = ref.points_of(m)
    k = (res or n) + 1
    mon.check(len(q) == k, "regular:count", lambda: f"{len(q)} points instead of {k}")
    L = segs_of(m)
    mon.check([i for c in L for i in c][:1] == [0] and sorted({i for c in L for i in c}) == list(range(k)) and all(b == a + 1 for c in L for a, b in zip(c, c[1:])), "regular:order", lambda: f"lines {L}")
    d = np.linalg.norm(np.diff(p, axis=0), axis=1)
    cum = np.concatenate(([0.0], np.cumsum(d)))
    tol = 1e-9 * cum[-1] + 1e-10 * ref.scale(p)
    exp = np.empty((k, 3))
    for i in range(k):
        x = cum[-1] * i / (k - 1)
        j = min(int(np.searchsorted(cum, x, side="right")) - 1, n - 2)
        while d[j] == 0:
            j += 1 if j < n - 2 else -1
        exp[i] = p[j] + (p[j + 1] - p[j]) * (x - cum[j]) / d[j]
    mon.close(q[[0, -1]], p[[0, -1]], "regular:ends", tol, "ends of the regular line")
    mon.close(q, exp, "regular:spacing", tol, "points at equal arc lengths")
    if res:
        mon.check(True, "ran:regular-res")


def curved(pvg, mon, rng):
    o = gen.offsets(rng) + rng.uniform(-2, 2, 3)
    L = float(10.0 ** rng.uniform(-1, 3))
    a = rng.normal(size=3) * rng.uniform(0.1, 5)
    b = rng.normal(size=3) * rng.uniform(0.1, 5)
    k = int(rng.integers(7))
    if k == 0:
        b = None
    elif k == 3:  # hardly turning
        b = np.cross(a, rng.normal(size=3))
        t = 10.0 ** rng.uniform(-3, -1)
        b = (a * np.cos(t) + b / np.linalg.norm(b) * np.linalg.norm(a) * np.sin(t)) * rng.uniform(0.2, 3)
    elif k == 1:
        b = a * 2.0
    elif k == 2:
        a, b = np.array([0.0, 0.0, -1.0]), np.array([1.0, 0.0, 0.0])
    n = gen.count(rng, 1, 15, 500, 1500)
    u = a / np.linalg.norm(a)
    v = u if b is None else b / np.linalg.norm(b)
    th = float(np.arctan2(np.linalg.norm(np.cross(u, v)), u @ v))
    if th > 2.9:
        raise Skip("opposite directions")
    kw = {}
    if b is not None:
        kw["end"] = b if rng.random() < 0.5 else b.tolist()
    if n > 1 or rng.random() < 0.5:
        kw["resolution"] = n
    mon.scenario(f="curved", o=o, L=L, a=a, b=b, n=n)
    m = mon.call("curved", pvg.CurvedLine, o if rng.random() < 0.5 else o.tolist(), L, a, **kw)
    q = ref.points_of(m)
    tol = 1e-9 * L + 1e-10 * ref.scale(q)
    mon.check(len(q) == n + 1, "curved:length", lambda: f"{len(q)} points instead of {n + 1}")
    mon.close(q[0], o, "curved:origin", tol, "origin")
    s = np.diff(q, axis=0)
    mon.close(np.linalg.norm(s, axis=1), np.full(n, L / n), "curved:length", tol, "segment lengths")
    ids = [i for c in segs_of(m) for i in c]
    mon.check(sorted(set(ids)) == list(range(n + 1)) and all(y == x + 1 for c in segs_of(m) for x, y in zip(c, c[1:])), "curved:length", lambda: f"lines {segs_of(m)}")
    w = s / np.linalg.norm(s, axis=1)[:, None]
    at = 1e-6 + 1e-9 * ref.scale(q) / (L / n)
    if th < 1e-7:
        mon.close(w, np.tile(u, (n, 1)), "curved:turn", at, "direction of a straight line")
        mon.check(True, "ran:curved-straight")
        return
    if th < 0.03:
        mon.check(True, "ran:curved-slight")
    e = v - (v @ u) * u
    e /= np.linalg.norm(e)
    mon.close(np.abs(w - np.outer(w @ u, u) - np.outer(w @ e, e)).max(), 0.0, "curved:plane", at, "segments in the plane of the two directions")
    mon.close(np.arctan2(w @ e, w @ u), (np.arange(n) + 0.5) * th / n, "curved:turn", at, "direction angle of the segments")


def seg_dist(p, a, b):
    u = b - a
    n2 = u @ u
    t = np.clip((p - a) @ u / n2, 0, 1) if n2 > 0 else np.zeros(len(p))
    return np.linalg.norm(p - a - np.multiply.outer(t, u), axis=1)


def decimate(pvg, mon, rng):
    off = gen.offsets(rng)
    P, seqs = [], []
    tol = gen.choice(rng, [None, 0.0, 1e-3, 0.05, 0.3, 1.0])
    straight = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(4))
        n = gen.count(rng, 2, 16, 400, 800)
        if gen.BIG == "long" or rng.random() < 0.05:  # damped zigzag: nearly every point matters
            t = np.arange(n)
            p = np.column_stack((t, (-1.0) ** t * (n - t), np.zeros(n))) * 0.3
        elif k == 0:  # wiggle of about the tolerance around a segment
            t = np.sort(rng.uniform(0, 5, n))
            p = np.column_stack((t, rng.uniform(-1, 1, n) * (tol or 0.1) * 1.2, rng.uniform(-1, 1, n) * 0.1 * (tol or 0.1)))
        elif k == 1:  # straight runs
            c = rng.uniform(-3, 3, (int(rng.integers(2, 5)), 3))
            p = np.vstack([np.vstack([c[i] + (c[i + 1] - c[i]) * x / 4 for x in range(4)]) for i in range(len(c) - 1)] + [c[-1:]])
        elif k == 2:
            p = np.cumsum(rng.normal(size=(n, 3)), axis=0)
        else:  # back and forth
            p = np.column_stack((rng.uniform(0, 5, n), rng.uniform(-0.2, 0.2, n), np.zeros(n)))
        if rng.random() < 0.2 and len(p) > 3:
            # a loop within the tolerance of a point vanishes
            closed = np.linalg.norm(p - p[0], axis=1).max() > 1.5 * (tol or 0)
        else:
            closed = False
        ids = list(range(len(P), len(P) + len(p)))
        P += (p + off).tolist()
        if closed:
            ids.append(ids[0])
            mon.check(True, "ran:decimate-closed")
        seqs.append(ids)
    P = np.array(P)
    kw = {"lines": [x for s in seqs for x in (len(s), *s)]}
    if rng.random() < 0.2:
        kw["verts"] = [1, 0]
    m = pv.PolyData(P, **kw)
    mon.scenario(f="decimate", p=P, seqs=[len(s) for s in seqs], tol=tol)
    r = mon.call("decimate", pvg.decimate_rdp, m, **({} if tol is None else {"tolerance": tol}))
    t = 1e-8 if tol is None else tol
    eps = 1e-9 * ref.scale(P) + 1e-12
    out = segs_of(r)
    Q = ref.points_of(r)
    mon.check(len(out) == len(seqs), "decimate:count", lambda: f"{len(out)} lines out of {len(seqs)}")
    for o, s in zip(out, seqs):
        A, B = Q[o], P[s]
        mon.check(np.array_equal(A[0], B[0]) and np.array_equal(A[-1], B[-1]), "decimate:ends", lambda: f"ends {A[[0, -1]].tolist()} instead of {B[[0, -1]].tolist()}")
        idx, j = [], 0
        for a in A[:-1]:
            while j < len(B) - 1 and not np.array_equal(a, B[j]):
                j += 1
            mon.check(j < len(B) - 1, "decimate:points", lambda: f"point {a.tolist()} is not an original point, or out of order")
            idx.append(j)
            j += 1
        idx.append(len(B) - 1)
        for a, b in zip(idx[:-1], idx[1:]):
            if b > a + 1:
                d = seg_dist(B[a + 1 : b], B[a], B[b]).max()
                mon.check(d <= t + eps, "decimate:distance", lambda: f"dropped point {d:g} away from the line, tolerance {t:g}")
        if len(B) > 2 and seg_dist(B[1:-1], B[0], B[-1]).max() < t * (1 - 1e-6) - eps:
            mon.check(len(A) == 2, "decimate:reduces", lambda: f"{len(A)} points kept of a line within the tolerance of a segment")
    if len(seqs) > 1:
        mon.check(True, "ran:decimate-multi")


def reconstruct(pvg, mon, rng):
    n = gen.count(rng, 3, 12, 30)
    d = int(gen.choice(rng, [2, 3, 3]))
    k = int(rng.integers(3))
    if k == 0:
        p = rng.uniform(-5, 5, (n, d))
    elif k == 1:
        t = np.linspace(0, 5, n)
        p = np.column_stack([t, np.sin(t), 0.3 * t][:d])
        p = p[rng.permutation(n)]
    else:
        t = np.linspace(0, 2 * np.pi, n + 1)[:-1]
        p = np.column_stack([np.cos(t), np.sin(t), np.zeros(n)][:d])
        p = p[rng.permutation(n)]
    if rng.random() < 0.3:
        p = p + gen.offsets(rng)[:d]
    form = gen.choice(rng, ["array", "array", "poly", "ugrid"])
    if form != "array" and d == 2:
        form = "array"
    arg = p
    if form == "poly":
        arg = pv.PolyData(p)
        mon.check(True, "ran:reconstruct-mesh")
    elif form == "ugrid":
        arg = pv.PolyData(p).cast_to_unstructured_grid()
        mon.check(True, "ran:reconstruct-mesh")
    start, close = int(rng.integers(n)), bool(rng.random() < 0.4)
    kw = {}
    if start or rng.random() < 0.5:
        kw["start"] = start
    if close or rng.random() < 0.5:
        kw["close"] = close
    mon.scenario(f="reconstruct", p=p, start=start, close=close, form=form)
    r = mon.call("reconstruct", pvg.reconstruct_line, arg, **kw)
    p3 = p if d == 3 else np.column_stack((p, np.zeros(n)))
    Q = ref.points_of(r)
    out = segs_of(r)
    walk = [out[0][0]]
    ok = True
    for c in out:
        ok &= c[0] == walk[-1]
        walk += c[1:]
    mon.check(ok, "reconstruct:lines", lambda: f"lines {out} do not follow one another")
    if close:
        mon.check(np.array_equal(Q[walk[0]], Q[walk[-1]]) and len(walk) == n + 1, "reconstruct:lines", lambda: f"line of {len(walk)} points is not closed")
        walk = walk[:-1]
        mon.check(True, "ran:reconstruct-close")
    W = Q[walk]
    mon.check(len(W) == n and sorted(map(tuple, W)) == sorted(map(tuple, p3)), "reconstruct:visits", lambda: f"{len(W)} points visited out of {n}")
    mon.check(np.array_equal(W[0], p3[start]), "reconstruct:start", lambda: f"starts from {W[0].tolist()} instead of {p3[start].tolist()}")

    def length(x):
        y = np.vstack((x, x[:1])) if close else x
        return float(np.linalg.norm(np.diff(y, axis=0), axis=1).sum())

    l0 = length(np.roll(p3, -start, axis=0))
    l1 = length(W)
    eps = 1e-7 * l0 + 1e-12 * ref.scale(p3)
    mon.check(l1 <= l0 + eps, "reconstruct:length", lambda: f"length {l1:g} from an order of length {l0:g}")
    for i in range(1, n - 1):
        for j in range(i + 2, n + 1):
            x = W.copy()
            x[i:j] = x[i:j][::-1]
            mon.check(length(x) >= l1 - eps, "reconstruct:2opt", lambda: f"reversing points {i}..{j - 1} shortens the line from {l1:.9g} to {length(x):.9g}")
    if start:
        mon.check(True, "ran:reconstruct-start")
    if d == 2:
        mon.check(True, "ran:reconstruct-2d")


def run_case(pvg, mon, rng, index, tier):
    [regular, curved, decimate, reconstruct][index % 4](pvg, mon, rng)
