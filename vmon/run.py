"""Driver.  python -m vmon.run --property C01 --tier quick
   replay:  python -m vmon.run --replay evidence/replay/C01-....json"""
from __future__ import annotations

import argparse
import collections
import importlib
import json
import os
import queue
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")
CASE_TIMEOUT = 150.0
EVID = os.environ.get("VMON_EVIDENCE", os.path.join(VERIF, "evidence"))


def prop_module(pid):
    return importlib.import_module(f"vmon.props.{pid.lower()}")


def case_seed(seed, pid, index):
    return [int(seed) & 0xFFFFFFFF, int(pid[1:]), int(index)]


# -- worker ----------------------------------------------------------------


def worker(pid, seed, tier, indices):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VMON_DEBUG"):
        os.dup2(devnull, 2)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    from vmon import core, gen

    np.seterr(all="ignore")
    mon = core.Monitor()
    try:
        pvg = core.load_pvgridder(REPO)
        import pyvista as pv

        pv.vtk_verbosity("off")
        mod = prop_module(pid)
        if hasattr(mod, "setup"):
            mod.setup(pvg, mon)
        else:
            core.install(pvg, mon)
    except Exception as e:
        import traceback

        out.write(json.dumps({"t": "fatal", "e": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}) + "\n")
        out.flush()
        os._exit(3)
    for i in indices:
        out.write(json.dumps({"t": "start", "i": i}) + "\n")
        mon.begin()
        rng = np.random.default_rng(case_seed(seed, pid, i))
        res = {"t": "done", "i": i}
        gen.BIG = gen.regime(i) if getattr(mod, "BIG", True) else None
        try:
            mod.run_case(pvg, mon, rng, i, tier)
            res["ok"] = True
        except core.Skip as e:
            res["ok"] = True
            res["skip"] = str(e)[:80]
        except core.Violation as e:
            res["ok"] = False
            res["tag"], res["msg"] = e.tag, e.msg[:1500]
        except (MemoryError, OSError, ImportError) as e:
            res["ok"] = None
            res["msg"] = f"{type(e).__name__}: {e}"
        except Exception as e:
            import traceback

            res["ok"] = False
            res["tag"] = "result-unusable"
            res["msg"] = f"{type(e).__name__}: {e} :: {traceback.format_exc()[-900:]}"
        res["stats"] = mon.drain()
        res["key"] = mon.key()
        res["trivial"] = mon.trivial
        if not res["ok"] or i < 4:
            res["scn"] = core.jsonable(mon.scn)
        out.write(json.dumps(res) + "\n")
    out.write(json.dumps({"t": "end"}) + "\n")
    out.flush()
    os._exit(0)  # skip VTK/gmsh teardown


def spawn(pid, seed, tier, indices):
    env = dict(os.environ)
    env.update(
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        VTK_SMP_MAX_THREADS="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=VERIF,
        PYTHONFAULTHANDLER="0",
        MPLBACKEND="Agg",
        VMON_REPO=REPO,
    )
    env.pop("DISPLAY", None)
    p = subprocess.Popen(
        [sys.executable, "-m", "vmon.run", "--worker", pid, "--seed", str(seed), "--tier", tier],
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=None if os.environ.get("VMON_DEBUG") else subprocess.DEVNULL,
        cwd=VERIF,
        env=env,
        text=True,
        start_new_session=True,
    )
    p.stdin.write(json.dumps(list(indices)))
    p.stdin.close()
    p.stdin = None
    return p


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class Pool:
    def __init__(self, pid, seed, tier, n_cases, n_workers, cap):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.deadline = time.time() + cap
        self.q = queue.Queue()
        self.results = {}
        self.tags = collections.Counter()
        self.events = collections.Counter()
        self.refusals = collections.Counter()
        self.notes = collections.Counter()
        self.fatal = None
        self.suspects = []  # (index, why)
        self.capped = False
        self.todo = {k: list(range(k, n_cases, n_workers)) for k in range(n_workers)}

    def launch(self, k):
        p = spawn(self.pid, self.seed, self.tier, self.todo[k])

        def read():
            for line in p.stdout:
                try:
                    self.q.put((k, p, json.loads(line)))
                except ValueError:
                    pass
            p.wait()
            self.q.put((k, p, {"t": "exit", "rc": p.returncode}))

        threading.Thread(target=read, daemon=True).start()
        return p

    def run(self, stop_on_violation=True):
        procs = {k: self.launch(k) for k, v in self.todo.items() if v}
        cur = {k: (None, time.time()) for k in procs}
        ended = set()
        nviol = 0
        while procs:
            now = time.time()
            if now > self.deadline or nviol >= 3:
                self.capped = now > self.deadline
                for p in procs.values():
                    kill(p)
                break
            try:
                k, p, m = self.q.get(timeout=1.0)
            except queue.Empty:
                m = None
            if m is not None and procs.get(k) is p:
                t = m["t"]
                if t == "start":
                    cur[k] = (m["i"], now)
                elif t == "done":
                    for name, v in m.pop("stats").items():
                        getattr(self, name).update(v)
                    self.results[m["i"]] = m
                    self.todo[k].remove(m["i"])
                    cur[k] = (None, now)
                    if m["ok"] is False:
                        nviol += 1
                elif t == "end":
                    ended.add(k)
                elif t == "fatal":
                    self.fatal = m
                    for p in procs.values():
                        kill(p)
                    return
                elif t == "exit":
                    procs.pop(k)
                    if k not in ended:
                        i = cur[k][0]
                        if i is not None:
                            self.suspects.append((i, f"worker died with status {m['rc']}"))
                            self.todo[k].remove(i)
                        else:
                            self.notes["worker-died-between-cases"] += 1
                            if self.notes["worker-died-between-cases"] > 20:
                                self.fatal = {"e": "workers keep dying"}
                                return
                        if self.todo[k]:
                            procs[k] = self.launch(k)
                            cur[k] = (None, now)
            for k, p in list(procs.items()):
                i, t0 = cur[k]
                if i is not None and now - t0 > CASE_TIMEOUT:
                    kill(p)
                    procs.pop(k)
                    self.suspects.append((i, f"no result within {CASE_TIMEOUT:.0f} s"))
                    self.todo[k].remove(i)
                    if self.todo[k]:
                        procs[k] = self.launch(k)
                        cur[k] = (None, now)
            if len(self.suspects) >= 6:
                for p in procs.values():
                    kill(p)
                break


def run_isolated(pid, seed, tier, index, timeout=CASE_TIMEOUT):
    """-> result dict or {"ok": False, ...} on crash/hang"""
    p = spawn(pid, seed, tier, [index])
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return {"ok": False, "tag": "hang", "msg": f"no result within {timeout:.0f} s", "i": index}
    for line in out.splitlines():
        m = json.loads(line)
        if m["t"] == "done":
            return m
        if m["t"] == "fatal":
            return {"ok": None, "msg": m["e"], "i": index}
    return {"ok": False, "tag": "crash", "msg": f"process died with status {p.returncode}", "i": index}


# -- known findings ----------------------------------------------------------


def known_findings(pid):
    """lines:  known: property=C01 tag=<tag> key=<scenario key> <text>"""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 4 and w[0] == "known:" and w[1] == f"property={pid}":
                res[(w[2].split("=", 1)[1], w[3].split("=", 1)[1])] = " ".join(w[4:])
    return res


# -- parent -------------------------------------------------------------------


def check(pid, tier, seed):
    t0 = time.time()
    mod = prop_module(pid)
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    n = int(os.environ.get("VMON_CASES", n))
    nw = max(1, min(int(os.environ.get("VMON_WORKERS", 8)), os.cpu_count() or 1, n))
    cap = float(os.environ.get("VMON_CAP", 420 if tier == "quick" else 3000))
    pool = Pool(pid, seed, tier, n, nw, cap)
    pool.run()
    if pool.fatal:
        print(f"ERROR property={pid}: could not run the workload: {pool.fatal.get('e')}", flush=True)
        print(pool.fatal.get("tb", ""), flush=True)
        return 2

    known = known_findings(pid)
    viols, finds, inconclusive = [], [], []
    for i, m in sorted(pool.results.items()):
        if m["ok"] is None:
            inconclusive.append(m)
        elif m["ok"] is False:
            if (m["tag"], m["key"]) in known:
                finds.append((m, known[(m["tag"], m["key"])]))
            else:
                viols.append(m)
    for i, why in pool.suspects:
        if viols or time.time() - t0 > 1.4 * cap:  # one confirmed violation is enough
            pool.notes["not repeated: " + why] += 1
            continue
        r = run_isolated(pid, seed, tier, i)
        if r["ok"] is False:
            r["msg"] = f"{why}; in isolation: {r.get('msg')}"
            viols.append(r)
        else:
            pool.notes["unreproduced: " + why] += 1
            r["ok"] = bool(r["ok"])
            pool.results[i] = r

    done = [m for m in pool.results.values() if m["ok"]]
    keys = {m["key"] for m in done if not m.get("trivial") and not m.get("skip")}
    skips = collections.Counter(m["skip"] for m in done if m.get("skip"))
    samples = [m["scn"] for i, m in sorted(pool.results.items()) if m.get("scn")][:4]
    missing = sorted(set(mod.REQUIRED) - {t for t, c in pool.tags.items() if c})
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(pool.results),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples or [{}],
            "planned_cases": n,
            "time_capped": pool.capped,
            "outside_precondition": dict(skips),
            "oracle_evaluations_by_tag": dict(sorted(pool.tags.items())),
            "observed_api_calls": dict(sorted(pool.events.items())),
            "observed_refusals": dict(sorted(pool.refusals.items())),
            "notes": dict(pool.notes),
            "workers": nw,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for m, text in finds:
        print(f"KNOWN-FINDING: property={pid} {text}")
    for m in viols[:3]:
        path = os.path.join(os.path.relpath(EVID, VERIF), "replay", f"{pid}-{tier}-{seed}-{m['i']}.json")
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump(
                {
                    "property": pid,
                    "tier": tier,
                    "seed": seed,
                    "index": m["i"],
                    "tag": m.get("tag"),
                    "message": m.get("msg"),
                    "scenario": m.get("scn"),
                    "key": m.get("key"),
                },
                f,
                indent=1,
            )
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  case {m['i']} [{m.get('tag')}] {str(m.get('msg'))[:700]}")
    if viols:
        return 1
    print(
        f"{pid} {tier} seed={seed}: {len(pool.results)}/{n} cases, {len(keys)} distinct non-trivial, "
        f"{sum(pool.tags.values())} oracle evaluations, {sum(pool.events.values())} API calls observed, {wall:.1f} s"
    )
    if inconclusive:
        print(f"ERROR property={pid}: {len(inconclusive)} cases could not be run: {inconclusive[0].get('msg')}")
        return 2
    if missing:
        print(f"ERROR property={pid}: oracles never exercised: {missing}")
        return 2
    if not pool.results:
        print(f"ERROR property={pid}: no case was run")
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--worker")
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    if a.worker:
        worker(a.worker, seed, tier, json.loads(sys.stdin.read()))
        return 0
    if a.replay:
        d = json.load(open(a.replay))
        r = run_isolated(d["property"], d["seed"], d["tier"], d["index"])
        print(json.dumps(r, indent=1))
        if r["ok"] is False:
            print(f"VIOLATION property={d['property']} replay={a.replay}")
            return 1
        return 0 if r["ok"] else 2
    return check(a.property, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
