"""C03 column, layer, item numbers and inherited data of swept cells."""
from .. import stackmodel as sm

QUICK, THOROUGH = 6400, 40000
REQUIRED = {
    "generate", "ids:present", "ids:geometry", "ids:item", "ids:complete", "ids:range", "ids:unique",
    "data:cell", "data:cell-vector", "data:point", "data:point-vector", "data:direct-cell", "ran:structured-x", "ran:extrude",
}
RULE = (
    "Random stacks, extrusions and direct sweeps over bases carrying scalar and vector data; each cell of the result is "
    "located by its geometry in the model of the history and its column, layer, item numbers and data are compared with "
    "those of that model cell. Non-trivial: distinct scenario with at least one array or number compared."
)


def run_case(pvg, mon, rng, index, tier):
    r = rng.random()
    if r < 0.25:
        cs = sm.make_direct(rng, pvg)
        mon.scenario(**cs.desc())
        mesh = mon.call("generate", cs.call)
        sm.finish(cs, mesh)
        sm.o_direct_data(cs, mon, mesh)
        return
    if r < 0.6:
        cs = sm.make_extrude(rng, pvg, groups=False)
        mon.check(True, "ran:extrude")
        item = "ExtrudeItem"
    else:
        cs = sm.make_stack(rng, pvg, groups=False, thin=False)
        item = "StackItem"
    mon.scenario(**cs.desc())
    if cs.kind in ("struct", "image", "rect") and cs.axis == 0:
        mon.check(True, "ran:structured-x")
    mesh = mon.call("generate", lambda: cs.build().generate_mesh())
    sm.finish(cs, mesh)
    cs.sweep.o_ids(mon, mesh, item)
    cs.sweep.o_data(mon, mesh, cs.kind == "unstr")
