"""Independent reference geometry used by the oracles (numpy + raw VTK arrays only)."""
from __future__ import annotations

import numpy as np
import pyvista as pv

T = pv.CellType

FACES = {
    int(T.TETRA): [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)],
    int(T.PYRAMID): [(0, 1, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    int(T.WEDGE): [(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    int(T.HEXAHEDRON): [
        (0, 1, 2, 3),
        (4, 5, 6, 7),
        (0, 1, 5, 4),
        (1, 2, 6, 5),
        (2, 3, 7, 6),
        (3, 0, 4, 7),
    ],
    int(T.VOXEL): [
        (0, 1, 3, 2),
        (4, 5, 7, 6),
        (0, 1, 5, 4),
        (1, 3, 7, 5),
        (3, 2, 6, 7),
        (2, 0, 4, 6),
    ],
}

DIM = {}
for _d, _names in {
    0: "VERTEX POLY_VERTEX",
    1: "LINE POLY_LINE QUADRATIC_EDGE CUBIC_LINE LAGRANGE_CURVE BEZIER_CURVE",
    2: "TRIANGLE TRIANGLE_STRIP POLYGON PIXEL QUAD QUADRATIC_TRIANGLE QUADRATIC_QUAD BIQUADRATIC_QUAD "
    "QUADRATIC_LINEAR_QUAD BIQUADRATIC_TRIANGLE QUADRATIC_POLYGON LAGRANGE_TRIANGLE LAGRANGE_QUADRILATERAL",
    3: "TETRA VOXEL HEXAHEDRON WEDGE PYRAMID PENTAGONAL_PRISM HEXAGONAL_PRISM QUADRATIC_TETRA "
    "QUADRATIC_HEXAHEDRON QUADRATIC_WEDGE QUADRATIC_PYRAMID TRIQUADRATIC_HEXAHEDRON QUADRATIC_LINEAR_WEDGE "
    "BIQUADRATIC_QUADRATIC_WEDGE BIQUADRATIC_QUADRATIC_HEXAHEDRON TRIQUADRATIC_PYRAMID POLYHEDRON CONVEX_POINT_SET "
    "LAGRANGE_TETRAHEDRON LAGRANGE_HEXAHEDRON LAGRANGE_WEDGE",
}.items():
    for _n in _names.split():
        DIM[int(T[_n])] = _d
DIM[0] = -1


def scale(*pts):
    m = 0.0
    for p in pts:
        p = np.asarray(p, dtype=float)
        if p.size:
            m = max(m, float(np.nanmax(np.abs(p))))
    return m


def tol_for(mesh_or_pts, rel64=1e-11, abs64=1e-7):
    p = mesh_or_pts.points if hasattr(mesh_or_pts, "points") else np.asarray(mesh_or_pts)
    s = scale(p)
    if p.dtype == np.float32:
        return abs64 + 4e-6 * s
    return abs64 + rel64 * s


class Cell:
    __slots__ = ("type", "ids", "faces")

    def __init__(self, type_, ids, faces=None):
        self.type = int(type_)
        self.ids = np.asarray(ids, dtype=int)
        self.faces = faces

    def ring(self):
        """2D cells: corner ids in cyclic order."""
        return self.ids[[0, 1, 3, 2]] if self.type == int(T.PIXEL) else self.ids

    def face_list(self):
        if self.faces is not None:
            return [np.asarray(f, dtype=int) for f in self.faces]
        return [self.ids[list(f)] for f in FACES[self.type]]


def structured_cells(dims):
    dims = tuple(int(d) for d in dims)
    act = [k for k in range(3) if dims[k] > 1]
    n = [max(1, d - 1) for d in dims]
    stride = (1, dims[0], dims[0] * dims[1])
    out = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                o = i * stride[0] + j * stride[1] + k * stride[2]
                s = [stride[a] for a in act]
                if len(act) == 3:
                    a, b, c = s
                    ids = [o, o + a, o + a + b, o + b]
                    ids += [x + c for x in ids]
                    out.append(Cell(T.HEXAHEDRON, ids))
                elif len(act) == 2:
                    a, b = s
                    out.append(Cell(T.QUAD, [o, o + a, o + a + b, o + b]))
                elif len(act) == 1:
                    out.append(Cell(T.LINE, [o, o + s[0]]))
                else:
                    out.append(Cell(T.VERTEX, [o]))
    return out


def cells_of(mesh):
    """Cells of a mesh from raw VTK data: hidden flags play no part."""
    if isinstance(mesh, (pv.StructuredGrid, pv.ImageData, pv.RectilinearGrid)):
        return structured_cells(mesh.dimensions)
    import vtk

    out = []
    if isinstance(mesh, pv.UnstructuredGrid):
        off = np.asarray(mesh.offset)
        con = np.asarray(mesh.cell_connectivity)
        types = np.asarray(mesh.celltypes)
        for i in range(mesh.n_cells):
            ids = con[off[i] : off[i + 1]]
            faces = None
            if types[i] == T.POLYHEDRON:
                lst = vtk.vtkIdList()
                mesh.GetFaceStream(i, lst)
                a = [lst.GetId(k) for k in range(lst.GetNumberOfIds())]
                faces, p = [], 1
                for _ in range(a[0]):
                    faces.append(a[p + 1 : p + 1 + a[p]])
                    p += 1 + a[p]
            out.append(Cell(types[i], ids, faces))
        return out
    lst = vtk.vtkIdList()
    for i in range(mesh.n_cells):
        mesh.GetCellPoints(i, lst)
        out.append(Cell(mesh.GetCellType(i), [lst.GetId(k) for k in range(lst.GetNumberOfIds())]))
    return out


def points_of(mesh):
    return np.array(mesh.points, dtype=float)


# -- polygons ---------------------------------------------------------------


def area_vec(p):
    p = np.asarray(p, dtype=float)
    r = p - p[0]
    return 0.5 * np.cross(r, np.roll(r, -1, axis=0)).sum(axis=0)


def signed_area2(p):
    p = np.asarray(p, dtype=float)
    r = p - p[0]
    q = np.roll(r, -1, axis=0)
    return 0.5 * float((r[:, 0] * q[:, 1] - q[:, 0] * r[:, 1]).sum())


def polyhedron_volume(points, faces):
    """Divergence theorem with fan triangulation (orientation given by faces)."""
    o = points[faces[0][0]]
    v = 0.0
    for f in faces:
        p = points[f] - o
        for a, b in zip(p[1:-1], p[2:]):
            v += float(np.dot(p[0], np.cross(a, b))) / 6.0
    return v


def edges_of_ring(ids):
    ids = list(ids)
    return frozenset(frozenset(e) for e in zip(ids, ids[1:] + ids[:1]))


# -- subdivisions -------------------------------------------------------------


def percent(resolution, method):
    """Relative positions documented for a resolution/method pair."""
    if resolution is None:
        resolution = 1
    if np.ndim(resolution) == 1:
        return np.sort(np.asarray(resolution, dtype=float))
    n = max(1, int(resolution))
    t = [k / n for k in range(n + 1)]
    if not method or method == "constant":
        return np.array(t)
    # log_r: log10 of equally spaced values in [1, 10]: large to small steps
    r = np.array([np.log(1.0 + 9.0 * x) / np.log(10.0) for x in t])
    if method == "log_r":
        return r
    return (1.0 - r)[::-1]


def interp_rows(a, b, t):
    return a * (1.0 - t) + b * t


# -- point sets -----------------------------------------------------------------


def match_points(actual, expected, tol):
    """Assign every actual point to its nearest expected one; None if too far."""
    d = np.linalg.norm(actual[:, None, :] - expected[None, :, :], axis=2)
    j = d.argmin(axis=1)
    if (d[np.arange(len(j)), j] > tol).any():
        return None, float(d[np.arange(len(j)), j].max())
    return j, 0.0


def data_fingerprint(d):
    return {k: np.array(v) for k, v in d.items()}
