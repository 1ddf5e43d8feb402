"""C01 stacked interfaces lie exactly where the history of additions puts them."""
from .. import stackmodel as sm

QUICK, THOROUGH = 7200, 40000
REQUIRED = {"generate", "cells:count", "cells:points", "cells:geometry", "cells:levels", "ran:cut", "ran:topdown", "ran:2d", "ran:plane", "ran:dataset"}
RULE = (
    "Random stack histories (base polyline / structured / unstructured in any plane and coordinate range, axis, "
    "direction, 2-5 constants, functions, planes, point arrays and datasets with subdivisions, priorities and "
    "thicknesses); every cell and point of the generated mesh is compared with an executable model of the history. "
    "Non-trivial: at least two items, distinct scenario."
)


def run_case(pvg, mon, rng, index, tier):
    cs = sm.make_stack(rng, pvg, groups=False, data=rng.random() < 0.3, thin=rng.random() < 0.2)
    mon.scenario(**cs.desc())
    mesh = mon.call("generate", lambda: cs.build().generate_mesh())
    sm.finish(cs, mesh)
    cs.sweep.o_cells(mon, mesh)
    if cs.cut:
        mon.check(True, "ran:cut")
    if not cs.bottom_up:
        mon.check(True, "ran:topdown")
    if cs.dim == 2:
        mon.check(True, "ran:2d")
    for op in cs.ops:
        if op["kind"] == "plane":
            mon.check(True, "ran:plane")
        if op["kind"] in ("cloud", "dataset"):
            mon.check(True, "ran:dataset")
