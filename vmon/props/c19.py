"""C19 averaging points."""
import numpy as np
import pyvista as pv

from .. import gen, ref

QUICK, THOROUGH = 12000, 80000
REQUIRED = {
    "average", "average:cloud", "average:ids", "average:kept", "average:corners", "average:mean", "average:lost", "ran:chain", "ran:merged-clusters", "ran:dropped", "ran:reduced", "ran:wrap", "ran:zero-tolerance",
    "ran:untouched", "ran:float32", "ran:unused-points", "ran:pinched",
}
RULE = (
    "Polygon meshes whose points are jittered copies, chains of steps shorter than the tolerance, collapsed edges and whole polygons within a "
    "tolerance, isolated points, point clouds; clusters recomputed by union-find over all pairs. Non-trivial: distinct mesh and tolerance."
)


def clusters(P, tol):
    n = len(P)
    lab = list(range(n))

    def find(i):
        while lab[i] != i:
            lab[i] = lab[lab[i]]
            i = lab[i]
        return i

    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    if tol > 0 and (np.abs(D - tol) < 1e-5 * tol).any():
        return None
    for i, j in zip(*np.nonzero(np.triu(D <= tol, 1))):
        lab[find(int(i))] = find(int(j))
    return [find(i) for i in range(n)]


def run_case(pvg, mon, rng, index, tier):
    f32 = rng.random() < 0.25
    sc = 10.0 ** rng.uniform(-2, 3)
    tol = 0.0 if rng.random() < 0.12 else float(rng.uniform(0.01, 0.3)) * sc
    nu, nv = gen.count(rng, 2, 6), gen.count(rng, 2, 6)
    U, V = np.meshgrid(np.arange(nu + 1.0), np.arange(nv + 1.0), indexing="ij")
    G = np.column_stack((U.ravel(), V.ravel(), np.zeros(U.size)))
    G[:, :2] += rng.uniform(-0.15, 0.15, (len(G), 2))
    if rng.random() < 0.3:
        G[:, 2] = np.sin(G[:, 0])
    G = G * sc
    rings = []
    for i in range(nu):
        for j in range(nv):
            r = [i * (nv + 1) + j, (i + 1) * (nv + 1) + j, (i + 1) * (nv + 1) + j + 1, i * (nv + 1) + j + 1]
            if rng.random() < 0.3:
                rings += [[r[0], r[1], r[2]], [r[0], r[2], r[3]]]
            elif rng.random() < 0.1 and rings:
                continue
            else:
                rings.append(r)
    P = [tuple(p) for p in G]
    step = lambda f=1.0: rng.normal(size=3) * np.array([1, 1, 0.3])
    out = []
    for r in rings:
        q = []
        for v in r:
            k = rng.random()
            if k < 0.35:
                d = step()
                d = d / np.linalg.norm(d) * tol * rng.uniform(0.05, 0.9)
                P.append(tuple(np.array(P[v]) + d))
                q.append(len(P) - 1)
            elif k < 0.45:
                # a chain of corners with steps below the tolerance
                p, d = np.array(P[v]), step()
                d = d / np.linalg.norm(d)
                q.append(v)
                for _ in range(int(rng.integers(1, 4))):
                    p = p + d * tol * rng.uniform(0.4, 0.95)
                    P.append(tuple(p))
                    q.append(len(P) - 1)
            elif k < 0.5 and tol > 0:
                # a corner just too far to be merged
                d = step()
                P.append(tuple(np.array(P[v]) + d / np.linalg.norm(d) * tol * rng.uniform(1.1, 1.6)))
                q += [v, len(P) - 1]
            else:
                q.append(v)
        out.append(list(np.roll(q, int(rng.integers(len(q))))))
    if rng.random() < 0.3:
        # a whole polygon within the tolerance
        c = rng.uniform(0, min(nu, nv), 3) * sc * [1, 1, 0]
        k = int(rng.integers(3, 6))
        ids = list(range(len(P), len(P) + k))
        P += [tuple(c + rng.uniform(-0.4, 0.4, 3) * tol) for _ in range(k)]
        out.insert(int(rng.integers(len(out) + 1)), ids)
    if rng.random() < 0.3 and tol > 0:
        # two opposite corners merged: pinched polygon
        c = np.array([nu + 2.0, nv + 2.0, 0.0]) * sc
        k = len(P)
        P += [tuple(c), tuple(c + [sc, 0, 0]), tuple(c + [0.3 * tol, 0.3 * tol, 0]), tuple(c + [0, sc, 0])]
        out.insert(int(rng.integers(len(out) + 1)), list(range(k, k + 4)))
    P = np.array(P)
    off = gen.offsets(rng)
    if ref.scale(off) <= 1e4 and not f32:
        P = P + off
    elif not f32 and sc > 1:
        P = P + off
    if rng.random() < 0.3:
        perm = rng.permutation(len(P))
        inv = np.argsort(perm)
        P = P[perm]
        out = [[int(inv[x]) for x in r] for r in out]
    if f32:
        P = P.astype(np.float32)
    cloud = rng.random() < 0.12
    m = pv.PolyData(P) if cloud else pv.PolyData(P, faces=[int(x) for r in out for x in (len(r), *r)])
    X = np.asarray(m.points).astype(float)
    lab = clusters(X, tol)
    if lab is None:
        mon.trivial = True
        return
    members = {}
    for i, c in enumerate(lab):
        members.setdefault(c, []).append(i)
    mean = {c: X[v].mean(axis=0) for c, v in members.items()}
    if cloud:  # a mesh without faces
        mon.scenario(n=len(P), cloud=True, tol=tol, sc=sc, f32=f32, p=X[:3], clusters=len(members))
        R = ref.points_of(mon.call("average", pvg.average_points, m, tolerance=tol))
        eps = (3e-6 if f32 else 1e-9) * ref.scale(X) + 1e-12 * sc
        exp = np.array(list(mean.values()))
        d = np.linalg.norm(R[:, None] - exp[None], axis=2)
        mon.check(len(R) == len(exp) and d.min(axis=0).max() <= eps and d.min(axis=1).max() <= eps, "average:cloud",
                  lambda: f"{len(R)} points for {len(exp)} clusters, off by up to {max(d.min(axis=0).max(), d.min(axis=1).max()):g}")
        return
    want, notes = {}, set()
    for i, r in enumerate(out):
        q = [lab[x] for x in r]
        w = [x for k, x in enumerate(q) if k == 0 or x != q[k - 1]]
        while len(w) > 1 and w[0] == w[-1]:
            w.pop()
            notes.add("ran:wrap")
        if len(w) < len(q):
            notes.add("ran:reduced")
        if len(w) != len(set(w)):
            notes.add("ran:pinched")
        want[i] = w
    kw = {} if tol == 0.0 and rng.random() < 0.5 else {"tolerance": tol}
    mon.scenario(n=len(P), faces=len(out), tol=tol, sc=sc, f32=f32, p=X[:3], clusters=len(members))
    res = mon.call("average", pvg.average_points, m, **kw)
    mon.check("vtkOriginalCellIds" in res.cell_data, "average:ids", "original indices are not recorded")
    ids = [int(x) for x in np.atleast_1d(np.asarray(res.cell_data["vtkOriginalCellIds"]))] if res.n_cells else []
    cells = ref.cells_of(res)
    mon.check(len(ids) == len(cells) and ids == sorted(set(ids)), "average:ids", lambda: f"original indices {ids} for {len(cells)} polygons")
    for i, w in want.items():
        if len(set(w)) >= 3:
            mon.check(i in ids, "average:lost", lambda: f"polygon {i} with corners {w} has disappeared")
        elif len(w) < 3:
            mon.check(i not in ids, "average:kept", lambda: f"polygon {i} is reduced to {w} but kept")
            notes.add("ran:dropped")
    R = ref.points_of(res)
    eps = (3e-6 if f32 else 1e-9) * ref.scale(X) + 1e-12 * sc
    for c, i in zip(cells, ids):
        w = want[i]
        got = R[c.ids]
        mon.check(len(got) == len(w), "average:corners", lambda: f"polygon {i} has {len(got)} corners instead of {len(w)}")
        exp = np.array([mean[x] for x in w])
        ok = any(np.abs(np.roll(exp, -k, axis=0) - got).max() <= eps for k in range(len(w)))
        mon.check(ok, "average:mean", lambda: f"polygon {i}: corners {got.tolist()} instead of {exp.tolist()}"[:600])
        for x, g in zip(w, got):
            if len(members[x]) == 1:
                notes.add("ran:untouched")
    if any(len(v) > 2 and np.linalg.norm(X[v][:, None] - X[v][None], axis=2).max() > tol for v in members.values()):
        notes.add("ran:chain")
    if any(len(v) > 4 for v in members.values()):
        notes.add("ran:merged-clusters")
    if tol == 0.0:
        notes.add("ran:zero-tolerance")
    if f32:
        notes.add("ran:float32")
    if len({x for r in out for x in r}) < len(P):
        notes.add("ran:unused-points")
    for x in notes:
        mon.check(True, x)
