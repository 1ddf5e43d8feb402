"""Mutation campaign: which small changes of the package do the checks not notice?
   mutate.py list                      count mutants per file
   mutate.py run OUT.jsonl [n] [seed]  run a random sample of n mutants, 4 at a time
Scratch copies only; nothing in /repo changes."""
import ast, concurrent.futures as cf, glob, json, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["core/_base.py", "core/_helpers.py", "core/extrude.py", "core/geometric_objects.py", "core/merge.py", "core/stack.py", "core/voronoi.py", "utils/_misc.py", "utils/_properties.py", "utils/_connectivity.py", "utils/_interactive.py"]
FIRST = {
 "core/_base.py": ["C01", "C04", "C27", "C02", "C03", "C28", "C25", "C29"], "core/_helpers.py": ["C05", "C02", "C10", "C06", "C03", "C27", "C01"], "core/extrude.py": ["C05", "C03", "C04", "C27"],
 "core/geometric_objects.py": ["C10", "C11", "C13", "C27"], "core/merge.py": ["C07", "C04", "C27"], "core/stack.py": ["C01", "C28", "C02", "C06", "C27"], "core/voronoi.py": ["C09", "C08", "C04", "C27"],
 "utils/_properties.py": ["C15", "C25", "C14"], "utils/_connectivity.py": ["C14", "C27"], "utils/_interactive.py": ["C24"],
}
FUN = {"average_points": ["C19"], "decimate_rdp": ["C13"], "extract_boundary_polygons": ["C17", "C18"], "extract_cell_geometry": ["C14", "C20"], "extract_cells": ["C16", "C25"], "extract_cells_by_dimension": ["C16"],
 "fuse_cells": ["C18"], "intersect_polyline": ["C21"], "merge": ["C07"], "merge_lines": ["C12"], "offset_polygon": ["C23"], "ray_cast": ["C20", "C27"], "reconstruct_line": ["C13"], "remap_categorical_data": ["C22"],
 "split_lines": ["C12"], "quadraticize": ["C23"], "CurvedLine": ["C13"], "RegularLine": ["C13"], "Polygon": ["C11", "C27"], "get_cell_group": ["C22"], "get_dimension": ["C15", "C16"]}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitOr: "&", ast.BitAnd: "|", ast.FloorDiv: "*", ast.Mod: "//"}


def mutants(rel):
    path = f"/repo/pvgridder/{rel}"
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def text(n):
        return b[pos(n):pos(n, True)].decode()

    out = []

    def rep(n, new, fn, what):
        out.append(dict(file=rel, fun=fn, line=n.lineno, a=pos(n), b=pos(n, True), new=new, what=what, old=text(n)[:160]))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if any("overload" in ast.dump(d) for d in getattr(n, "decorator_list", [])):
                return
            f2 = n.name if fn == "" or isinstance(n, ast.ClassDef) else fn if fn and fn[0].islower() and "." not in fn else f"{fn}.{n.name}"
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if isinstance(d, ast.Constant) and d.value is not None:
                        walk(d, f2)
            for c in n.body:
                walk(c, f2)
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                walk(n.value, fn)
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for s in CMP.get(type(n.ops[0]), []):
                    rep(n, f"({text(n.left)} {s} {text(n.comparators[0])})", fn, "cmp")
            elif isinstance(n, ast.Compare):
                for k in range(len(n.ops)):
                    ops = [{ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}.get(type(o)) for o in n.ops]
                    if None in ops:
                        continue
                    ops[k] = {"<": "<=", "<=": "<", ">": ">=", ">=": ">"}[ops[k]]
                    xs = [n.left, *n.comparators]
                    rep(n, "(" + text(xs[0]) + "".join(f" {o} {text(x)}" for o, x in zip(ops, xs[1:])) + ")", fn, "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                rep(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", fn, "binop")
            elif isinstance(n, ast.BoolOp):
                o = "or" if isinstance(n.op, ast.And) else "and"
                rep(n, "(" + f" {o} ".join(f"({text(v)})" for v in n.values) + ")", fn, "boolop")
                for k in range(len(n.values)):
                    o2 = "and" if isinstance(n.op, ast.And) else "or"
                    vs = [f"({text(v)})" for i, v in enumerate(n.values) if i != k]
                    rep(n, "(" + f" {o2} ".join(vs) + ")", fn, "boolop-drop")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                rep(n, f"({text(n.operand)})", fn, "unary")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
                v = n.value
                for w in ([not v] if type(v) is bool else [v + 1] + ([v - 1] if v > 0 else []) if type(v) is int else ([v * 2, v * 1e4] if 0 < v < 1e-3 else [v * 0.5 if v else 1.0])):
                    rep(n, repr(w), fn, "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in ("cell", "point", "F", "C", "stable", "constant", "xy", "xz", "yx", "yz", "upper", "lower", "triangle", "quad", "polygon"):
                rep(n, repr({"cell": "point", "point": "cell", "F": "C", "C": "F", "stable": "quicksort"}.get(n.value, n.value + "_")), fn, "str")
            elif isinstance(n, (ast.If, ast.IfExp)):
                rep(n.test, f"(not ({text(n.test)}))", fn, "if-not")
                if isinstance(n, ast.IfExp):
                    rep(n, f"({text(n.body)})", fn, "ifexp-true")
                    rep(n, f"({text(n.orelse)})", fn, "ifexp-false")
                else:
                    rep(n.test, "False", fn, "if-false")
                    rep(n.test, "True", fn, "if-true")
            elif isinstance(n, ast.Call):
                f = text(n.func)
                if f in ("abs", "np.abs", "np.sort", "np.unique", "np.flatnonzero", "list", "sorted", "np.asarray", "np.asanyarray", "np.array") and len(n.args) == 1 and f not in ("np.unique", "np.flatnonzero"):
                    rep(n, f"({text(n.args[0])})", fn, "call-drop")
                if f.endswith(".copy") and not n.args:
                    rep(n, f[:-5], fn, "copy-drop")
                if f in ("max", "min", "np.maximum", "np.minimum", "all", "any", "np.all", "np.any"):
                    g = {"max": "min", "min": "max", "np.maximum": "np.minimum", "np.minimum": "np.maximum", "all": "any", "any": "all", "np.all": "np.any", "np.any": "np.all"}[f]
                    rep(n.func, g, fn, "minmax")
                if f.rsplit(".", 1)[-1] in ("all", "any", "max", "min") and "." in f and not f.startswith("np."):
                    h, t = f.rsplit(".", 1)
                    rep(n.func, h + "." + {"all": "any", "any": "all", "max": "min", "min": "max"}[t], fn, "minmax")
                for kw in n.keywords:
                    if kw.arg and f not in ("cast",):
                        x = [text(y) for y in n.args] + [("**" + text(k.value)) if k.arg is None else f"{k.arg}={text(k.value)}" for k in n.keywords if k is not kw]
                        rep(n, f"{f}({', '.join(x)})", fn, "kw-drop")
            elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple))):
                rep(n, "pass", fn, "stmt-drop")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                rep(n, "pass", fn, "reassign-drop")
            elif isinstance(n, (ast.Continue, ast.Break)):
                rep(n, "pass", fn, "stmt-drop")
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            walk(n, "")
    for m in out:
        s = (b[:m["a"]] + m["new"].encode() + b[m["b"]:]).decode()
        try:
            compile(s, rel, "exec")
        except SyntaxError:
            m["bad"] = True
    return [m for m in out if not m.get("bad")]


ALLC = ["C%02d" % i for i in range(1, 28)]


def order(m):
    f = m["fun"].split(".")
    x = []
    for k in f:
        x += FUN.get(k, [])
    x += FIRST.get(m["file"], [])
    if m["file"] == "utils/_misc.py":
        x += ["C25", "C08"]
    if not x:
        x = ["C14", "C16"]
    return list(dict.fromkeys(x))


def run(m):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        subprocess.run(f"git -C /repo archive HEAD pvgridder | tar x -C {d}", shell=True, check=True)
        p = f"{d}/pvgridder/{m['file']}"
        b = open(p, "rb").read()
        open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
        env = dict(os.environ, VMON_REPO=d, VMON_EVIDENCE=d + "/ev", VMON_WORKERS="2", VERIF_SEED="1")
        first = order(m)
        rest = [c for c in m.get("rest", []) if c not in first]
        q = lambda c: str(int(__import__("re").search(r"QUICK, THOROUGH = (\d+)", open(f"{V}/vmon/props/{c.lower()}.py").read())[1]) // 4)
        for stage, cs, n in (("quick", first, q),) + ((("rest", rest, None),) if rest else ()):
            for c in cs:
                e = dict(env)
                if n:
                    e["VMON_CASES"] = n(c)
                r = subprocess.run([f"{V}/check.sh", c, "quick"], env=e, capture_output=True, text=True, errors="replace", timeout=1500)
                if r.returncode == 1:
                    t = [l for l in r.stdout.splitlines() if l.startswith("  case")]
                    return dict(m, killed=c, how=t[0][:200] if t else "")
                if r.returncode != 0:
                    return dict(m, killed=c, how="exit %d %s" % (r.returncode, r.stdout[-200:]), noanswer=True)
        return dict(m, killed=None, tried=first + rest)
    except subprocess.TimeoutExpired:
        return dict(m, killed="timeout")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tests(m):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
        p = f"{d}/pvgridder/{m['file']}"
        b = open(p, "rb").read()
        open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
        env = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        env.pop("DISPLAY", None)
        r = subprocess.run(["timeout", "300", "xvfb-run", "-a", "/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--tb=no", "-W", "ignore", "--deselect", "tests/test_connectivity.py", "tests"], cwd=d, env=env, capture_output=True, text=True)
        return r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    allm = [m for f in FILES for m in mutants(f)]
    if sys.argv[1] == "list":
        import collections
        print(len(allm), collections.Counter(m["file"] for m in allm), collections.Counter(m["what"] for m in allm))
    else:
        out = sys.argv[2]
        done = {(x["file"], x["a"], x["b"], x["new"]) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
        n = int(sys.argv[3]) if len(sys.argv) > 3 else len(allm)
        random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0).shuffle(allm)
        only = sys.argv[5] if len(sys.argv) > 5 else None
        todo = [m for m in allm if (m["file"], m["a"], m["b"], m["new"]) not in done and (not only or only in m["file"] + ":" + m["fun"])][:n]
        with cf.ThreadPoolExecutor(4) as ex, open(out, "a") as f:
            for r in ex.map(run, todo):
                f.write(json.dumps(r) + "\n")
                f.flush()
