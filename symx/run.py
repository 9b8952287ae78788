"""Decide one property.

usage: run.py MODULE [quick|thorough] [--case SUBSTR] [--replay FILE] [-v]
"""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VENV = os.environ.get("SYMX_VENV_PY", "/opt/venv/bin/python")


def enc(v):
    if isinstance(v, Fraction):
        return f"{v.numerator}/{v.denominator}"
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    return v


def work(module, case, tier, conn):
    """Explore one case symbolically (in its own process)."""
    t0 = time.time()
    res = {"case": case["name"], "violations": [], "inconclusive": [], "error": None, "samples": [],
           "truncated": False, "functions": [], "known": {}, "stats": {}, "reached": 0}
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import warnings

        warnings.simplefilter("ignore")
        sys.setrecursionlimit(20000)
        from symx import core, ctx as cx

        hmod = importlib.import_module("checks." + module)
        cfg = dict(getattr(hmod, "CONFIG", {}))
        cfg.update(case.get("config", {}))
        scale = 3 if tier == "thorough" else 1
        eng = core.Engine(
            qtimeout=cfg.get("qtimeout", 3000) * scale, vtimeout=cfg.get("vtimeout", 20000) * scale,
            deadline=t0 + case.get("deadline", cfg.get("deadline", 200 * (10 if tier == "thorough" else 1))),
            max_paths=case.get("max_paths"), exact_sqrt=cfg.get("exact_sqrt", False), opaque_linalg=cfg.get("opaque_linalg", False), expand=cfg.get("expand", False), logic=cfg.get("logic"),
            rounded=cfg.get("rounded", False))
        core.ENG = eng
        funcs = set()
        cx.trace_functions(funcs)
        c = cx.SymCtx(eng, case, hmod)

        def path():
            c.begin()
            try:
                try:
                    hmod.run(c, **case.get("args", {}))
                except Exception as e:  # noqa: BLE001
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb][-5:]
                    own = [f.filename for f in tb if loader_file(f.filename) or "/checks/" in f.filename]
                    if not own or not loader_file(own[-1]):
                        raise core.EngineError("harness error: " + "".join(traceback.format_exception(e))[-1500:])
                    c.reached += 1
                    m = eng.path_model()
                    if m is None:
                        c.inconclusive.append(f"raised {type(e).__name__} on a path whose feasibility is unknown")
                        return
                    import z3

                    c.violations.append({"msg": f"raised {type(e).__name__}", "detail": f"{e} {where}",
                                         "cands": eng.nice_models(z3.BoolVal(True), m)})
                    raise cx.CaseStop()
                c.sample()
            except cx.CaseStop:
                raise core.StopExplore()
            finally:
                c.end()

        res["truncated"] = eng.explore(path)
        res["violations"] = [{**v, "cands": [enc(x) for x in v["cands"]]} for v in c.violations]
        res["inconclusive"] = c.inconclusive
        res["samples"] = [{"inputs": enc(s["inputs"]), "obs": s["obs"]} for s in c.samples]
        res["functions"] = sorted(funcs)
        res["known"] = c.known_hits
        res["reached"] = c.reached
        res["outcomes"] = c.outcomes
        res["stats"] = dict(eng.st.__dict__)
    except BaseException as e:  # noqa: BLE001
        res["error"] = f"{type(e).__name__}: {e}"
        if not type(e).__name__ == "MemoryError":
            res["trace"] = "".join(traceback.format_exception(e))[-3000:]
        try:
            res["stats"] = dict(eng.st.__dict__)
        except Exception:  # noqa: BLE001
            pass
    res["wall_s"] = time.time() - t0
    try:
        conn.send(json.dumps(res, default=str))
        conn.close()
    finally:
        os._exit(0)


def loader_file(fn):
    return "/openptv_python/" in fn


def explore_all(module, cases, tier, jobs, limit):
    mpc = mp.get_context("fork")
    todo = sorted(cases, key=lambda c: -c.get("cost", 1))
    running, results = [], []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=work, args=(module, c, tier, b))
            p.start()
            b.close()
            running.append((p, a, c, time.time()))
        still = []
        for p, a, c, ts in running:
            if a.poll():
                try:
                    results.append(json.loads(a.recv()))
                except EOFError:
                    results.append({"case": c["name"], "error": "worker died", "violations": [], "inconclusive": [],
                                    "samples": [], "truncated": True, "functions": [], "known": {}, "stats": {}, "reached": 0})
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            if not p.is_alive() and not a.poll():
                results.append({"case": c["name"], "error": "worker died", "violations": [], "inconclusive": [],
                                "samples": [], "truncated": True, "functions": [], "known": {}, "stats": {}, "reached": 0})
                continue
            if time.time() - t0 > limit:
                p.kill()
                results.append({"case": c["name"], "error": None, "violations": [], "inconclusive": ["time limit"],
                                "samples": [], "truncated": True, "functions": [], "known": {}, "stats": {}, "reached": 0})
                continue
            still.append((p, a, c, ts))
        running = still
        if time.time() - t0 > limit:
            for c in todo:
                results.append({"case": c["name"], "error": None, "violations": [], "inconclusive": ["time limit"],
                                "samples": [], "truncated": True, "functions": [], "known": {}, "stats": {}, "reached": 0})
            todo = []
        time.sleep(0.02)
    return results


def concrete(module, jobs, timeout=600, jit=True):
    """Run jobs on the real code; -> list of results (None where it did not get there)."""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="symx-")
    try:
        jf, rf = os.path.join(d, "jobs.json"), os.path.join(d, "res.json")
        repo = os.environ.get("SYMX_REPO", "/repo")
        with open(jf, "w") as f:
            json.dump({"module": module, "jobs": jobs, "repo": repo}, f)
        env = dict(os.environ)
        env.update(NUMBA_CACHE_DIR=os.path.join(d, "nbc"), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo,
                   NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="1")
        if not jit:
            env["NUMBA_DISABLE_JIT"] = "1"
        try:
            p = subprocess.run([VENV, os.path.join(HERE, "symx", "concrete.py"), jf, rf], env=env, timeout=timeout,
                               capture_output=True, text=True, cwd=d)
            tail = (p.stdout + p.stderr)[-2000:]
        except subprocess.TimeoutExpired:
            tail = "timeout"
        res = []
        if os.path.exists(rf):
            with open(rf) as f:
                res = json.load(f)
        if len(res) < len(jobs):
            print("concrete run incomplete:", tail, file=sys.stderr)
        return res + [None] * (len(jobs) - len(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same(a, b, tol=1e-6):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def load_known(prop):
    fn = os.path.join(HERE, "known_findings.txt")
    known = {}
    if os.path.exists(fn):
        with open(fn) as f:
            for ln in f:
                ln = ln.strip()
                if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                    continue
                # known: property=<id> finding=<fid> <what fails>
                parts = ln.split(None, 3)
                if parts[0] == "known:" and parts[1] == f"property={prop}":
                    known[parts[2].split("=", 1)[1]] = parts[3]
    return known


def main():
    argv = sys.argv[1:]
    module = argv.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    sub = None
    verbose = strict = False
    jobs = int(os.environ.get("SYMX_JOBS", "8"))
    replay = None
    while argv:
        a = argv.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--case":
            sub = argv.pop(0)
        elif a == "--replay":
            replay = argv.pop(0)
        elif a == "--strict":
            strict = True
        elif a == "-v":
            verbose = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hmod = importlib.import_module("checks." + module)
    prop = hmod.PROP
    t0 = time.time()
    if replay:
        with open(replay) as f:
            r = json.load(f)
        out = concrete(module, [{"case": r["case"], "inputs": r["inputs"]}])
        print(json.dumps(out, indent=1))
        sys.exit(1 if out and out[0] and out[0]["outcome"] in ("failed", "raised") else 0)

    cases = hmod.cases(tier)
    if sub:
        cases = [c for c in cases if sub in c["name"]]
    bycase = {c["name"]: c for c in cases}
    assert len(bycase) == len(cases), "duplicate case names"
    limit = getattr(hmod, "LIMIT", {}).get(tier, 420 if tier == "quick" else 6 * 3600)
    results = explore_all(module, cases, tier, jobs, limit)
    known = load_known(prop)

    # ---- replay of candidate violations and of sampled path models on the real code
    jl, tags = [], []
    cap = getattr(hmod, "VALIDATE", {"quick": 24, "thorough": 120})[tier]
    for r in results:
        for vi, v in enumerate(r["violations"]):
            for ci in v["cands"]:
                jl.append({"case": bycase[r["case"]], "inputs": ci})
                tags.append(("v", r["case"], vi))
    ns = 0
    rnd = 0
    pools = [list(r["samples"]) for r in results]
    names = [r["case"] for r in results]
    while ns < cap and any(pools):
        for nm, p in zip(names, pools):
            if p and ns < cap:
                s = p.pop(0)
                jl.append({"case": bycase[nm], "inputs": s["inputs"]})
                tags.append(("s", nm, s))
                ns += 1
        rnd += 1
    out = concrete(module, jl, timeout=1000 if tier == "thorough" else 300, jit=getattr(hmod, "JIT", True))

    confirmed, unconfirmed, validated, mismatches, invalid = [], {}, 0, [], 0
    samples_out = []
    for tag, job, o in zip(tags, jl, out):
        if tag[0] == "v":
            r = next(x for x in results if x["case"] == tag[1])
            v = r["violations"][tag[2]]
            key = (tag[1], tag[2])
            if o and o["outcome"] in ("failed", "raised"):
                if not any(c[0] == key for c in confirmed):
                    confirmed.append((key, v, job, o))
                unconfirmed.pop(key, None)
            elif not any(c[0] == key for c in confirmed):
                unconfirmed[key] = (v, job, o)
        else:
            s = tag[2]
            if not o:
                continue
            if o["outcome"] == "invalid":
                invalid += 1
                continue
            good = o["outcome"] == "held" and len(o["obs"]) == len(s["obs"]) and all(
                n1 == n2 and same(a, b) for (n1, a), (n2, b) in zip(s["obs"], o["obs"]))
            if o["outcome"] in ("failed", "raised"):
                # the real code breaks the property on a sampled input
                key = (tag[1], "sample")
                v = {"msg": o["msg"], "detail": "found while validating a path model"}
                if not any(c[0] == key for c in confirmed):
                    confirmed.append((key, v, job, o))
            if good:
                validated += 1
                if len(samples_out) < 5:
                    samples_out.append({"case": tag[1], "inputs": s["inputs"], "observed": o["obs"][:6]})
            elif o["outcome"] == "held":
                mismatches.append({"case": tag[1], "inputs": s["inputs"], "model": s["obs"], "real": o["obs"]})

    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    errors = [(r["case"], r["error"], r.get("trace", "")) for r in results if r["error"]]
    inconcl = [(r["case"], m) for r in results for m in r["inconclusive"]]
    trunc = [r["case"] for r in results if r["truncated"]]
    unreached = [r["case"] for r in results if not r["error"] and not r["reached"] and not r["truncated"]]
    hits = {}
    for r in results:
        hits.update(r["known"])

    rdir = os.path.join(HERE, "replays")
    nviol = 0
    status = 0
    for key, v, job, o in confirmed:
        os.makedirs(rdir, exist_ok=True)
        nviol += 1
        fn = os.path.join(rdir, f"{prop}-{nviol}.json")
        with open(fn, "w") as f:
            json.dump({"property": prop, "module": module, "case": job["case"], "inputs": job["inputs"],
                       "solver_says": v["msg"], "detail": v.get("detail"), "real_code": o,
                       "how": f"python3-vt symx/run.py {module} --replay <this file>"}, f, indent=1)
        print(f"  case {key[0]}: {v['msg']} {v.get('detail') or ''}\n  real code: {o['outcome']} {o.get('msg')} "
              f"{o.get('detail', '')} {o.get('where', '')}\n  inputs: {json.dumps(job['inputs'])[:600]}")
        print(f"VIOLATION property={prop} replay={fn}")
        status = 1
    for kid in sorted(hits):
        if kid in known:
            print(f"KNOWN-FINDING: property={prop} {known[kid]}")
        else:
            # a finding the file does not list is a violation
            os.makedirs(rdir, exist_ok=True)
            nviol += 1
            fn = os.path.join(rdir, f"{prop}-{nviol}.json")
            with open(fn, "w") as f:
                json.dump({"property": prop, "module": module, "finding": kid, "what": hits[kid]}, f, indent=1)
            print(f"VIOLATION property={prop} replay={fn}")
            status = 1
    for key, (v, job, o) in unconfirmed.items():
        print(f"  NOT REPRODUCED case {key[0]}: {v['msg']} {v.get('detail', '')}; real code: {o}\n  inputs {json.dumps(job['inputs'])[:500]}")
    for c, e, tr in errors:
        print(f"  ENGINE ERROR case {c}: {e}\n{tr if verbose else tr[-700:]}")
    if inconcl:
        cnt = {}
        for c, m in inconcl:
            cnt[(c, m)] = cnt.get((c, m), 0) + 1
        for (c, m), n in sorted(cnt.items()):
            print(f"  INCONCLUSIVE case {c}: {m} (x{n})")
    for c in trunc:
        print(f"  TRUNCATED case {c}: explored within its time budget only")
    for c in unreached:
        print(f"  UNREACHED case {c}: no assertion was reached")
    for m in mismatches[:5]:
        print(f"  MODEL MISMATCH case {m['case']}: model {m['model']} real {m['real']} inputs {json.dumps(m['inputs'])[:400]}")
    if verbose:
        for r in sorted(results, key=lambda r: -r.get("wall_s", 0))[:12]:
            s = r["stats"]
            print(f"  {r['case']:40s} {r.get('wall_s', 0):7.1f}s paths {s.get('paths')} aborted {s.get('aborted')} "
                  f"checks {s.get('checks')} queries {s.get('queries')} solver {s.get('solver_s', 0):.1f}s "
                  f"unk {s.get('unknown_branch')} samples {len(r['samples'])}")

    functions = sorted({f for r in results for f in r["functions"]})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(st.get("paths", 0)) + int(st.get("branches", 0)),
            "transitions": int(st.get("branches", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples_out or [{"case": c["name"]} for c in cases[:3]],
            "symbolic_paths": int(st.get("paths", 0)),
            "infeasible_paths": int(st.get("aborted", 0)),
            "assertions_checked": int(st.get("checks", 0)),
            "assertions_discharged": int(st.get("discharged", 0)),
            "solver_queries": int(st.get("queries", 0)),
            "solver_seconds": round(float(st.get("solver_s", 0)), 2),
            "functions_encoded": functions,
            "cases": [{"name": r["case"], "paths": r["stats"].get("paths", 0), "assertions": r["stats"].get("checks", 0),
                       "queries": r["stats"].get("queries", 0), "truncated": r["truncated"],
                       "inconclusive": len(r["inconclusive"]), "error": r["error"]} for r in results],
            "bounds": getattr(hmod, "BOUNDS", ""),
            "cases_not_decided": sorted({c for c, _, _ in errors} | set(unreached) | {k[0] for k in unconfirmed}),
            "outside_the_claim": getattr(hmod, "OUTSIDE", ""),
            "model_mismatches": len(mismatches),
            "sample_inputs_outside_float_domain": invalid,
            "exhaustive": False,
            "explanation": "symbolic execution of the current source of the listed functions; states = paths plus decision "
                           "points, transitions = decisions on symbolic conditions; each assertion is decided by z3 over all "
                           "values of a path; sampled path models are re-run on the real package and compared",
        },
        "assumptions": list(getattr(hmod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    total = max(1, int(st.get("checks", 0)))
    print(f"{prop} {tier}: {len(cases)} cases, {st.get('paths', 0)} paths, {st.get('checks', 0)} assertions "
          f"({st.get('discharged', 0)} discharged), {st.get('queries', 0)} queries, solver {st.get('solver_s', 0):.1f}s, "
          f"{validated} path models validated, wall {wall:.1f}s")
    if status == 0:
        # what could not be encoded or confirmed was not explored; a run that explored little is no answer
        lost = {c for c, _, _ in errors} | set(unreached) | {k[0] for k in unconfirmed}
        if len(lost) * 2 > len(cases) or strict and lost:
            status = 2
        elif len(inconcl) > 0.25 * total or total < 1 or not st.get("paths"):
            status = 2
        elif len(mismatches) > max(2, 0.5 * ns) or strict and mismatches:
            status = 2
    if status == 0:
        print(f"HELD property={prop}")
    sys.exit(status)


if __name__ == "__main__":
    main()
