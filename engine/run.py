"""Decide one property:  python -m engine.run P01 --tier quick"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import engine  # noqa: E402,F401

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["PYTHONHASHSEED"] = "0"


# ------------------------------------------------------------------ symbolic instance
def run_instance(modname, inst, seed):
    """Explore one harness instance; returns a JSON-able result."""
    import z3

    from engine import env, explore
    from engine import sym as Y
    from engine.ctx import SymCtx
    from engine.real import blame

    mod = importlib.import_module(f"harness.{modname}")
    fn = getattr(mod, inst["fn"])
    stats = explore.Stats()
    funcs = set()
    env.start_coverage(funcs)
    res = dict(name=inst["name"], decided=0, incon=[], cands=[], wits=[], reached=0, exc_paths=0, checks=0)
    t0 = time.time()
    deadline = min(t0 + inst.get("budget", 240), inst.get("end", float("inf")))
    max_w = inst.get("witnesses", 2)

    def one(path):
        ctx = SymCtx(path, stats, inst.get("timeout_ms", 10000), seed + stats.paths)
        env.FakeSHM.blocks.clear()
        env.fresh_data_dir()
        env.FakeExecutor.order = None
        Y.HOOKS.clear()
        try:
            fn(ctx, **inst["params"])
        except Y.PathAbort:
            pass  # what failed before an assumption failed all the same
        except Y.Unsupported as e:
            where = "".join(traceback.format_tb(e.__traceback__)[-3:])[-500:]
            res["incon"].append(f"not encodable: {e} | {where}")
            w, feas = ctx.witness()
            if w is None and feas:
                w = ctx.guess()
            if w is not None and len(res["cands"]) < 6:
                res["cands"].append(dict(msg=f"(concolic) {e}", inputs=w, weak=True))
        except Y.NonFinite as e:
            w, feas = ctx.witness()
            if w is None and feas:
                w = ctx.guess()
            if w is not None:
                res["incon"].append(f"non finite value: {e}")
                res["cands"].append(dict(msg=f"non finite value ({e})", inputs=w, weak=True))
        except RecursionError as e:
            res["incon"].append(f"recursion: {e}")
        except (Exception, SystemExit) as e:  # noqa: BLE001
            res["exc_paths"] += 1
            b = blame(e.__traceback__, e)
            w, feas = ctx.witness()
            if w is None and feas:
                w = ctx.guess()
            tb = "".join(traceback.format_tb(e.__traceback__)[-4:])[-900:]
            if w is not None:
                # a TypeError/AttributeError may come from the symbolic stand-ins: the replay decides
                res["incon"].append(f"exception on a path: {type(e).__name__}: {e} [{b}] | {tb}")
                if len(res["cands"]) < 8:
                    res["cands"].append(dict(msg=f"unexpected {type(e).__name__}: {e}"[:200], inputs=w, weak=True))
        finally:
            ctx.unpatch()
        res["decided"] += ctx.decided
        res["checks"] += ctx.nchecks
        res["incon"].extend(ctx.incon)
        groups = {}
        for msg, inp in ctx.candidates:
            if len(res["cands"]) < 16:
                g = groups.setdefault(msg, f"{stats.paths}:{msg}")
                res["cands"].append(dict(msg=msg, inputs=inp, weak=msg.endswith("(guess)"), group=g))
        if ctx.reached:
            res["reached"] += 1
            if len(res["wits"]) < max_w and not ctx.candidates:
                w, feas = ctx.witness()
                if w is not None and feas:
                    from engine.ctx import Evaluator

                    ev = Evaluator(Y, ctx.vars, w)
                    obs = {}
                    for k, vals in ctx.observed.items():
                        try:
                            obs[k] = [[ev.value(v).real, ev.value(v).imag] for v in vals]
                        except Exception:  # noqa: BLE001
                            pass
                    res["wits"].append(dict(inputs=w, observed=obs))

    explore.BRANCH_MS = inst.get("branch_ms", 3000)
    left = explore.explore(one, stats, inst.get("max_paths", 600), deadline)
    if left:
        res["incon"].append(f"{len(left)} path prefixes unexplored (budget)")
    res["stats"] = stats.as_dict()
    res["funcs"] = sorted(funcs)
    res["wall"] = time.time() - t0
    return res


def child(modname, inst, seed, fd):
    os.environ["VERIF_INST"] = inst["name"]
    try:
        res = run_instance(modname, inst, seed)
    except BaseException as e:  # noqa: BLE001
        res = dict(name=inst["name"], decided=0, incon=[f"engine error: {type(e).__name__}: {e}\n"
                                                          + traceback.format_exc()[-1500:]],
                   cands=[], wits=[], reached=0, exc_paths=0, checks=0, stats={}, funcs=[], wall=0)
    with os.fdopen(fd, "w") as f:
        f.write(json.dumps(res, default=str))
    os._exit(0)


def run_all(modname, insts, seed, nproc, limit):
    import select

    pend = sorted(range(len(insts)), key=lambda i: -insts[i].get("weight", 1))
    running = {}
    out = [None] * len(insts)
    while pend or running:
        while pend and len(running) < nproc:
            i = pend.pop(0)
            if limit and time.time() > limit:
                out[i] = dict(name=insts[i]["name"], decided=0, incon=["not run: out of time"], cands=[], wits=[], reached=0,
                              exc_paths=0, checks=0, stats={}, funcs=[], wall=0)
                continue
            if limit:
                insts[i]["end"] = limit
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(modname, insts[i], seed, w)
            os.close(w)
            running[r] = [i, pid, b"", min(time.time() + insts[i].get("kill", insts[i].get("budget", 240) + 120),
                                           limit + 60 if limit else float("inf"))]
        if not running:
            continue
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for r in rl:
            chunk = os.read(r, 1 << 20)
            if chunk:
                running[r][2] += chunk
                continue
            i, pid, data, _ = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[i] = json.loads(data)
            except ValueError:
                out[i] = dict(name=insts[i]["name"], decided=0, incon=["engine process died"], cands=[], wits=[],
                              reached=0, exc_paths=0, checks=0, stats={}, funcs=[], wall=0)
        now = time.time()
        for r in list(running):
            i, pid, data, end = running[r]
            if now > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                running.pop(r)
                out[i] = dict(name=insts[i]["name"], decided=0, incon=["killed: over the time limit"], cands=[],
                              wits=[], reached=0, exc_paths=0, checks=0, stats={}, funcs=[], wall=0)
    return out


class RealServer:
    def __init__(self):
        env = dict(os.environ)
        env.pop("NUMBA_DISABLE_JIT", None)
        self.p = subprocess.Popen(
            [sys.executable, "-m", "engine.real"], cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True,
        )

    def ready(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay server failed to start")

    def job(self, **j):
        self.p.stdin.write(json.dumps(j) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"exc": "replay server died", "blame": "harness", "failures": []}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:  # noqa: BLE001
            self.p.kill()


def replay_parallel(jobs, n=4, limit=240):
    """Run the jobs on n replay servers (counterexamples first)."""
    if not jobs:
        return []
    end = time.time() + limit
    n = min(n, len(jobs))
    res = [None] * len(jobs)
    idx = iter(sorted(range(len(jobs)), key=lambda i: jobs[i].get("kind") != "cand"))
    lock = threading.Lock()

    def work():
        s = RealServer()
        try:
            s.ready()
            while True:
                with lock:
                    i = next(idx, None)
                if i is None:
                    return
                if time.time() > end:
                    res[i] = {"skip": True, "failures": []}
                    continue
                res[i] = s.job(**jobs[i])
        except Exception as e:  # noqa: BLE001
            for k in range(len(jobs)):
                if res[k] is None:
                    res[k] = {"exc": f"replay failed: {e}", "blame": "harness", "failures": []}
        finally:
            s.close()

    ts = [threading.Thread(target=work) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    e = json.loads(line)
                    if e.get("status") == "known":
                        out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname = a.prop.lower()
    if a.replay:
        with open(a.replay) as f:
            j = json.load(f)
        r = replay_parallel([j], 1)[0]
        print(json.dumps({k: r.get(k) for k in ("failures", "exc", "blame", "tb", "skip")}, indent=1))
        sys.exit(1 if r.get("failures") or (r.get("exc") and r.get("blame") == "code") else 0)
    t0 = time.time()
    from engine import env

    env.scratch_env()
    code = 2
    try:
        env.install()
        code = decide(a, modname, seed, t0)
    finally:
        d = env.DATA_DIR
        if d and os.path.basename(d).startswith("sleplet_verif_"):
            shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(a, modname, seed, t0):
    mod = importlib.import_module(f"harness.{modname}")
    insts = mod.instances(a.tier)
    if a.only:
        insts = [i for i in insts if re.search(a.only, i["name"])]
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    results = run_all(modname, insts, seed, nproc, t0 + (480 if a.tier == "quick" else 3000))
    # ---- replays: counterexample candidates, then witnesses
    jobs = []
    for inst, r in zip(insts, results):
        for c in r["cands"]:
            jobs.append(dict(module=modname, fn=inst["fn"], params=inst["params"], inputs=c["inputs"],
                             kind="cand", msg=c["msg"], inst=inst["name"], weak=c.get("weak", False),
                             group=inst["name"] + c.get("group", "")))
        for w in r["wits"]:
            jobs.append(dict(module=modname, fn=inst["fn"], params=inst["params"], inputs=w["inputs"], kind="wit",
                             inst=inst["name"], observed=w["observed"]))
    t1 = time.time()
    reps = replay_parallel([{k: v for k, v in j.items() if k != "observed"} for j in jobs])
    t2 = time.time()
    known = load_known()
    violations, incon, knowns, mism = [], [], [], []
    nw_ok = 0
    replayed = set()
    for j, r in zip(jobs, reps):
        if j["kind"] == "cand" and not r.get("skip") and (r.get("failures") or (r.get("exc") and r.get("blame") == "code")):
            replayed.add(j["group"])
    for j, r in zip(jobs, reps):
        bad = list(r.get("failures") or [])
        if r.get("exc") and r.get("blame") == "code":
            bad.append("unexpected exception " + r["exc"])
        if bad and not r.get("skip"):
            k = next((e for e in known if e["property"] == a.prop and re.search(e["instance"], j["inst"])
                      and all(re.search(e["match"], b) for b in bad)), None)
            (knowns if k else violations).append((j, bad, r, k))
            continue
        if j["kind"] == "cand":
            if j["group"] in replayed:
                continue
            if not j["weak"]:
                incon.append(f"{j['inst']}: counterexample did not replay: {j['msg']}"
                             + (f" [{r.get('exc')}]" if r.get("exc") else "") + (" [skip]" if r.get("skip") else ""))
            elif r.get("exc"):
                incon.append(f"{j['inst']}: replay error {r.get('exc')}")
        else:
            if r.get("exc"):
                incon.append(f"{j['inst']}: witness replay error {r.get('exc')} {r.get('tb', '')[-300:]}")
                continue
            if r.get("skip"):
                continue
            ok = True
            for key, vals in j["observed"].items():
                got = (r.get("observed") or {}).get(key)
                if got is None or len(got) != len(vals):
                    continue
                for x, y in zip(vals, got):
                    if abs(x[0] - y[0]) > 1e-5 * (1 + abs(x[0])) or abs(x[1] - y[1]) > 1e-5 * (1 + abs(x[1])):
                        ok = False
            if ok:
                nw_ok += 1
            else:
                mism.append(f"{j['inst']}: symbolic and real values differ on a witness")
    for r in results:
        for m in r["incon"]:
            incon.append(f"{r['name']}: {m}")
    if not violations:
        incon.extend(mism)
    decided = sum(r["decided"] for r in results)
    agg = {}
    for r in results:
        for k, v in (r["stats"] or {}).items():
            agg[k] = agg.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["funcs"]})
    vac = [r["name"] for r in results if not r["reached"] and not r["cands"] and not r["incon"]]
    for v in vac:
        incon.append(f"{v}: no path reaches the end of the harness (vacuous)")
    # ---- report
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    nviol = 0
    for j, bad, r, _ in violations:
        if j["inst"] in seen:
            continue
        seen.add(j["inst"])
        nviol += 1
        if nviol > 10:
            continue
        path = os.path.join(rdir, f"{a.prop}-{nviol}.json")
        with open(path, "w") as f:
            json.dump({k: v for k, v in j.items() if k != "observed"} | {"failures": bad, "tb": r.get("tb")}, f, indent=1)
        print(f"VIOLATION property={a.prop} replay={path} instance={j['inst']} :: {'; '.join(bad)[:300]}")
    ks = set()
    for j, bad, r, k in knowns:
        key = k.get("what")
        if key not in ks:
            ks.add(key)
            print(f"KNOWN-FINDING: property={a.prop} {key}")
    shown = 0
    for m in incon:
        if shown < 15 or a.v:
            print("INCONCLUSIVE", m[: 3000 if a.v else 600])
        shown += 1
    wall = time.time() - t0
    print(
        f"{a.prop} {a.tier}: {len(insts)} instances, {agg.get('paths', 0)} paths, {decided} assertions decided, "
        f"{agg.get('queries', 0)} queries ({agg.get('unsat', 0)} unsat, {agg.get('sat', 0)} sat, "
        f"{agg.get('unknown', 0)} unknown), {agg.get('branch_queries', 0)} feasibility queries, "
        f"{agg.get('solver_s', 0):.1f}s solver, {nw_ok} witnesses replayed, {nviol} violations, "
        f"{len(incon)} inconclusive, {wall:.1f}s"
    )
    if a.v:
        for r in results:
            print(f"   {r['name']}: {r['wall']:.1f}s decided={r['decided']} paths={r['stats'].get('paths')} reached={r['reached']}")
    if not a.no_evidence:
        meta = getattr(mod, "META", {})
        ev = {
            "property": a.prop,
            "tier": a.tier,
            "seed": seed,
            "level": meta.get("level", "other"),
            "coverage": {
                "explanation": meta.get("coverage", "symbolic execution of the functions listed, all inputs within the bounds"),
                "functions_encoded": funcs,
                "bounds": meta.get("bounds", ""),
                "outside": meta.get("outside", ""),
                "instances": [r["name"] for r in results],
                "paths": agg.get("paths", 0),
                "assertions_decided": decided,
                "queries": agg.get("queries", 0),
                "unsat": agg.get("unsat", 0),
                "sat": agg.get("sat", 0),
                "unknown": agg.get("unknown", 0),
                "trivial_by_normal_form": agg.get("trivial", 0),
                "feasibility_queries": agg.get("branch_queries", 0),
                "solver_s": round(agg.get("solver_s", 0), 2),
                "replay_s": round(t2 - t1, 2),
                "witnesses_replayed_on_real_code": nw_ok,
                "inconclusive": incon[:40],
                "exhaustive_within_bounds": not incon,
            },
            "assumptions": meta.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": nviol,
        }
        with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if nviol:
        return 1
    if decided == 0 or mism:
        return 2
    # decided something: the undecided rest is reported as INCONCLUSIVE above
    return 0


if __name__ == "__main__":
    main()
