"""python -m mc.main PROPERTY [quick|thorough] | --replay FILE"""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MC_WORKERS", os.cpu_count() or 8))


def _scenarios(prop, tier):
    mod = importlib.import_module("mc.props." + prop.lower())
    return mod.scenarios(tier)


def _get(prop, tier, name):
    for s in _scenarios(prop, tier):
        if s.name == name:
            return s
    raise KeyError(name)


def _init_worker(where):
    import mc.env  # noqa: F401  (imports dreimac)
    from mc import engine

    engine.start_watchdog(where)


_CACHE = {}


def _scn(prop, tier, name):
    k = (prop, tier, name)
    if k not in _CACHE:
        _CACHE[k] = _get(prop, tier, name)
    return _CACHE[k]


def _expand(prop, tier, name):
    from mc import engine

    s = _scn(prop, tier, name)
    engine.CURRENT["scenario"] = name
    return engine.expand(s.driver, s.bound, s.want)


def _explore(prop, tier, name, root, deadline, known):
    from mc import engine

    s = _scn(prop, tier, name)
    engine.CURRENT["scenario"] = name
    return engine.explore(s.driver, root, s.bound, deadline=deadline, known=known)


def _set_mode(mode):
    if mode == "interp":
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    else:
        os.environ.pop("NUMBA_DISABLE_JIT", None)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["MPLBACKEND"] = "Agg"


def known_findings():
    f = os.path.join(ROOT, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


def run(prop, tier):
    import numpy as np

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("MC_BUDGET", "720" if tier == "quick" else "20000"))
    deadline = t0 + budget
    findings = [f for f in known_findings()["findings"] if f["property"] == prop]
    known = {f["key"] for f in findings}
    scen = _scenarios_light(prop, tier)
    total = dict(executions=0, pruned=0, steps=0, choices=0)
    states, outcomes = [], []
    samples, per, notes, complete = [], [], {}, True
    violation, seen_known = None, {}
    errors = []
    watch = tempfile.mkdtemp(prefix="mc-watch-")
    for mode in ("interp", "jit"):
        todo = [s for s in scen if s[1] == mode]
        if not todo or violation or errors:
            continue
        _set_mode(mode)
        ctx = mp.get_context("spawn")
        pool = cf.ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init_worker, initargs=(watch,))
        try:
            exp = {pool.submit(_expand, prop, tier, name): name for name, _, _ in todo}
            acc = {
                name: dict(executions=0, pruned=0, steps=0, choices=0, states=[], outcomes=[],
                           complete=True, depth=0, tasks=0, cpu=time.time())
                for name, _, _ in todo
            }
            pend = {}
            for fut in cf.as_completed(exp):
                name = exp[fut]
                for root in fut.result():
                    pend[pool.submit(_explore, prop, tier, name, root, deadline, known)] = name
                    acc[name]["tasks"] += 1
            for fut in cf.as_completed(pend):
                name = pend[fut]
                r, a = fut.result(), acc[name]
                for k in ("executions", "pruned", "steps", "choices"):
                    a[k] += r[k]
                a["states"].append(r["states"])
                a["outcomes"].append(r["outcomes"])
                a["complete"] &= r["complete"]
                a["depth"] = max(a["depth"], r["maxdepth"])
                for k, n in r["notes"].items():
                    notes[k] = notes.get(k, 0) + n
                if r["samples"] and len([s for s in samples if s.startswith(name)]) < 2:
                    samples.append(name + ": " + r["samples"][0])
                for v in r["known"]:
                    seen_known.setdefault(v["key"], v)
                if r["violations"]:
                    violation = dict(r["violations"][0], scenario=name, mode=mode)
                    break
            for name, _, optional in todo:
                a = acc[name]
                st = np.unique(np.concatenate(a["states"])) if a["states"] else np.zeros(0, np.uint64)
                oc = np.unique(np.concatenate(a["outcomes"])) if a["outcomes"] else np.zeros(0, np.uint64)
                states.append(st)
                outcomes.append(oc)
                for k in total:
                    total[k] += a[k]
                complete &= a["complete"]
                per.append(dict(scenario=name, mode=mode, executions=a["executions"], pruned=a["pruned"],
                                states=int(len(st)), transitions=a["steps"], distinct_outcomes=int(len(oc)),
                                choices=a["choices"], max_choices_per_execution=a["depth"],
                                complete=bool(a["complete"])))
                if not violation and a["complete"] and a["executions"] == 0 and not optional:
                    errors.append("scenario %s explored nothing" % name)
        except Exception:
            hangs = sorted(os.listdir(watch))
            if hangs:
                violation = dict(json.load(open(os.path.join(watch, hangs[0]))), mode=mode)
            else:
                errors.append(traceback.format_exc())
        finally:
            procs = list((getattr(pool, "_processes", None) or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                p.terminate()
    shutil.rmtree(watch, ignore_errors=True)
    n_states = int(len(np.unique(np.concatenate(states)))) if states else 0
    n_out = int(len(np.unique(np.concatenate(outcomes)))) if outcomes else 0
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=n_states, transitions=total["steps"],
            traces_validated_against_impl=total["executions"],
            distinct_outcomes=n_out, choice_points=total["choices"], pruned=total["pruned"],
            exhaustive=bool(complete and not violation and not errors),
            scenarios=per, oracle_notes=notes, samples=samples[:12],
        ),
        assumptions=list(getattr(importlib.import_module("mc.props." + prop.lower()), "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in per:
        print("  %-34s %-6s executions=%d pruned=%d states=%d steps=%d outcomes=%d%s" % (
            p["scenario"], p["mode"], p["executions"], p["pruned"], p["states"], p["transitions"],
            p["distinct_outcomes"], "" if p["complete"] else " (not complete)"))
    print("%s %s: states=%d transitions=%d executions=%d outcomes=%d wall=%.1fs notes=%s" % (
        prop, tier, n_states, total["steps"], total["executions"], n_out, wall, notes))
    if violation:
        path = _save_violation(prop, tier, violation)
        print("violated: %s\n  choices: %s" % (violation["message"], violation["desc"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR in the check:\n" + "\n".join(errors))
        return 2
    for f in findings:
        if f["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    return 0


def _scenarios_light(prop, tier):
    """Names and modes only; scenario modules import dreimac lazily, so this is cheap."""
    return [(s.name, s.mode, s.optional) for s in _scenarios(prop, tier)]


def _save_violation(prop, tier, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib

    h = hashlib.blake2b(repr((v["scenario"], v["choices"])).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    rec = dict(property=prop, tier=tier, scenario=v["scenario"], mode=v["mode"], choices=v["choices"],
               message=v["message"], description=v["desc"], key=v["key"], root=v["root"], index=v["index"],
               how="cd /verif && ./check --replay " + path)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    import subprocess

    oks = []
    for hist in () if v.get("hang") else ([], ["--history"]):
        try:
            c = subprocess.run([sys.executable, "-m", "mc.main", "--replay", path] + hist, cwd=ROOT,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            oks.append(c.returncode == 1)
        except subprocess.TimeoutExpired:
            oks.append(None)
        if oks[-1]:
            break
    rec["reproduced_alone"] = oks[0] if oks else "not tried: the call does not return"
    if len(oks) > 1:
        rec["reproduced_with_preceding_executions"] = oks[1]
        rec["how"] += " --history"
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def replay(path, history=False):
    rec = json.load(open(path))
    _set_mode(rec["mode"])
    import mc.env  # noqa: F401
    from mc import engine

    s = _get(rec["property"], rec["tier"], rec["scenario"])
    if history:
        out = engine.explore(s.driver, rec["root"], s.bound, limit=rec["index"] + 1)
        for v in out["violations"]:
            print("violated: %s\n  choices: %s" % (v["message"], v["desc"]))
            return 1
        print("not violated")
        return 0
    c, status, v = engine.run_once(s.driver, rec["choices"], s.bound)
    print("choices: " + " ".join(c.desc))
    if v is not None:
        print("violated: " + v.msg)
        return 1
    print("not violated (%s)" % status)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2], "--history" in sys.argv))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(sys.argv[1], tier))
