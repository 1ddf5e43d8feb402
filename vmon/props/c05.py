"""C05 sweeps are exact linear interpolation; extrusion histories."""
import numpy as np

from .. import gen, ref, stackmodel as sm

QUICK, THOROUGH = 6400, 40000
REQUIRED = {"generate", "cells:count", "cells:points", "cells:geometry", "celltype", "ran:scale", "ran:angle", "ran:turned", "ran:surface", "ran:volume", "structured"}
RULE = (
    "Random extrusion histories (any section kind and plane, translation, scaling, rotation, defaults, subdivisions) and "
    "direct sweeps between two lines or surfaces; cells, points and cell types compared with linear interpolation of the "
    "transformed sections. Non-trivial: distinct scenario."
)


def run_case(pvg, mon, rng, index, tier):
    if rng.random() < 0.45 or gen.BIG == "long":
        cs = sm.make_direct(rng, pvg, data=rng.random() < 0.3)
        mon.scenario(**cs.desc())
        mesh = mon.call("generate", cs.call)
        mon.check(True, "ran:surface" if cs.base_dim == 1 else "ran:volume")
    else:
        cs = sm.make_extrude(rng, pvg, groups=False, data=rng.random() < 0.3, wide=True)
        mon.scenario(**cs.desc())
        mesh = mon.call("generate", lambda: cs.build().generate_mesh())
        cs.base_dim = 2
        if cs.scale is not None or any(o["scale"] is not None for o in cs.ops):
            mon.check(True, "ran:scale")
        if cs.angle is not None or any(o["angle"] is not None for o in cs.ops):
            mon.check(True, "ran:angle")
        if any(abs(a) > 180 for a in [cs.angle or 0.0, *(o["angle"] or 0.0 for o in cs.ops)]):
            mon.check(True, "ran:turned")
    sm.finish(cs, mesh)
    cs.sweep.o_cells(mon, mesh)
    import pyvista as pv

    structured = cs.base_dim == 1 or any(k in cs.kind for k in ("struct", "image", "rect"))
    mon.check(isinstance(mesh, pv.StructuredGrid) == structured, "structured", f"{type(mesh).__name__}")
    if not structured:
        got = np.bincount([c.type for c in ref.cells_of(mesh)], minlength=50)
        want = np.bincount([sm.EXTRUDED[c.type] for c in cs.cells], minlength=50) * cs.sweep.n_layers
        mon.same(got, want, "celltype", "numbers of cells per type")
