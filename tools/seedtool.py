"""Plant a bug: make the patch in a scratch copy, validate tests and demo, keep it under seeded/.
   seedtool.py SPEC.py [ids...]     SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
   seedtool.py --matrix [ids...]    run every kept bug's own check (and report exit codes)"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
SH = '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n'

def scratch():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
    return d

def tests(d):
    env = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    env.pop("DISPLAY", None)
    r = subprocess.run(["timeout", "600", "xvfb-run", "-a", PY, "-m", "pytest", "-q", "-n", "2", "-p", "no:cacheprovider", "--tb=no", "-W", "ignore", "tests"], cwd=d, env=env, capture_output=True, text=True)
    return [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) and "topographic-terrain" not in l], r.stdout.splitlines()[-1:]

def demo(d, folder):
    r = subprocess.run(["bash", f"{folder}/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]

def check(d, prop, seed="1"):
    env = dict(os.environ, VMON_REPO=d, VERIF_SEED=seed, VMON_EVIDENCE=d + "/ev")
    r = subprocess.run([f"{V}/check.sh", prop, "quick"], env=env, capture_output=True, text=True)
    return r.returncode, "\n".join(r.stdout.splitlines()[:2])[:260]

def make(b):
    d, f = scratch(), f"{V}/seeded/{b['id']}"
    try:
        for file, old, new in b["edits"]:
            p = f"{d}/{file}"
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"EDIT NOT UNIQUE ({s.count(old)}) in {file}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        c = scratch()
        try:
            subprocess.run(["git", "init", "-q"], cwd=c)
            diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", c + "/pvgridder", d + "/pvgridder"], capture_output=True, text=True).stdout
            diff = diff.replace(c.lstrip("/") + "/", "a/").replace(d.lstrip("/") + "/", "b/").replace(c + "/", "a/").replace(d + "/", "b/")
            os.makedirs(f, exist_ok=True)
            open(f"{f}/patch.diff", "w").write(diff)
            open(f"{f}/demo.sh", "w").write(SH)
            open(f"{f}/demo.py", "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{f}/meta.json", "w"), indent=1)
            ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{f}/patch.diff"], capture_output=True, text=True)
            failed, last = tests(d)
            r0, r1 = demo(c, f), demo(d, f)
            ok = ap.returncode == 0 and not failed and r0[0] == 0 and r1[0] != 0
            chk = check(d, b["prop"])
            msg = f"{'KEPT' if ok else 'INVALID'} apply={ap.returncode} tests={failed[:3]}{last} demo clean={r0[0]} patched={r1[0]} check={chk[0]}"
            if not ok:
                msg += f"\n   clean: {r0[1] if r0[0] else ''}\n   {ap.stderr}"
                shutil.rmtree(f)
            return b["id"], msg + f"\n   demo: {r1[1][-150:]}\n   {chk[1]}"
        finally:
            shutil.rmtree(c)
    finally:
        shutil.rmtree(d)

def matrix(i, seed="1"):
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    d = scratch()
    try:
        subprocess.run(["git", "apply", f"--directory=", f"{V}/seeded/{i}/patch.diff"], cwd=d, check=True)
        rc, out = check(d, meta["property"], seed)
        return i, meta["property"], rc, out
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--matrix":
        ids = a[1:] or sorted(os.listdir(f"{V}/seeded"))
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(matrix, ids):
                print(r[0], r[1], "CAUGHT" if r[2] == 1 else f"MISSED rc={r[2]}", "|", r[3].splitlines()[-1][:150] if r[3] else "", flush=True)
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not a[1:] or b["id"] in a[1:]]
        with cf.ThreadPoolExecutor(3) as ex:
            for i, m in ex.map(make, bugs):
                print(i, m, flush=True)
