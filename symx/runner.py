"""check.py backend: runs all cases of a property, in parallel, writes evidence."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
EVID = os.environ.get("SYMX_EVIDENCE", os.path.join(VERIF, "evidence"))


def setup_imports():
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(VERIF, "stubs"))
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings("ignore")
    import torch
    torch.set_num_threads(1)


def run_property(prop, tier, seed):
    t0 = time.time()
    setup_imports()
    import multiprocessing as mp
    from . import engine as E
    limit = float(os.environ.get("SYMX_LIMIT", "780" if tier == "quick" else "7200"))
    deadline = t0 + limit
    mod = importlib.import_module("props." + prop)
    cases = [c for c in mod.cases(tier)]
    only = os.environ.get("SYMX_ONLY")
    if only:
        cases = [c for c in cases if only in c.name]
    replay_dir = os.path.join(EVID, "replay")
    jobs = int(os.environ.get("SYMX_JOBS", str(min(8, os.cpu_count() or 4))))
    results = []
    if jobs <= 1:
        E.start_function_trace()
        for c in cases:
            results.append(_guard(E, c, seed, deadline, replay_dir, prop))
    else:
        # import everything once, then fork per case
        ctx = mp.get_context("fork")
        pend = sorted(cases, key=lambda c: -c.budget)
        running = []
        stop = False
        while pend or running:
            while pend and len(running) < jobs and not stop:
                c = pend.pop(0)
                r, w = ctx.Pipe(False)
                pr = ctx.Process(target=_child, args=(w, c, seed, deadline, replay_dir, prop))
                pr.start()
                w.close()
                running.append((pr, r, c, time.time()))
            still = []
            for pr, r, c, st in running:
                if r.poll(0.02):
                    try:
                        results.append(r.recv())
                    except EOFError:
                        results.append(_err(c, "worker died"))
                    pr.join()
                elif not pr.is_alive():
                    if r.poll(0.1):
                        try:
                            results.append(r.recv())
                        except EOFError:
                            results.append(_err(c, "worker died"))
                    else:
                        results.append(_err(c, "worker died (exit %s)" % pr.exitcode))
                elif time.time() > min(deadline, st + c.budget * 1.5) + 60:
                    pr.kill()
                    pr.join()
                    results.append(_err(c, "time limit"))
                else:
                    still.append((pr, r, c, st))
            running = still
            if any(x["status"] == "violation" for x in results) and not os.environ.get("SYMX_ALL"):
                # one reproduced violation decides the property
                for pr, r, c, st in running:
                    pr.kill()
                    pr.join()
                running = []
                break
    return finish(prop, tier, seed, results, mod, t0, len(cases))


def _err(c, msg):
    return {"case": c.name, "status": "error", "errors": [msg], "violations": [], "paths": 0, "obligations": 0, "proved": 0,
            "solver": {}, "functions": [], "bounds": c.bounds, "diff_points": 0, "reach": 0, "wall_s": 0, "infeasible_paths": 0}


def _guard(E, c, seed, deadline, replay_dir, prop):
    try:
        return E.run_case(c, seed, deadline, replay_dir, prop)
    except Exception as e:   # noqa
        return _err(c, "engine: " + traceback.format_exc()[-1500:])


def _child(w, c, seed, deadline, replay_dir, prop):
    from . import engine as E
    try:
        E.start_function_trace()
        r = _guard(E, c, seed, deadline, replay_dir, prop)
    except BaseException as e:   # noqa
        r = _err(c, "engine: %r" % (e,))
    w.send(r)
    w.close()
    os._exit(0)


def replay_file(prop, path):
    """re-run a reported counterexample on the real code; exit 1 if it still fails"""
    from fractions import Fraction
    setup_imports()
    from . import engine as E
    d = json.load(open(path))
    mod = importlib.import_module("props." + prop)
    case = next(c for t in ("quick", "thorough") for c in mod.cases(t) if c.name == d["case"])
    env = {k: (v if isinstance(v, bool) else Fraction(v)) for k, v in d["inputs"].items()}
    import torch
    st, c = E.replay(case, env, torch.float64 if "64" in d.get("dtype", "") else torch.float32)
    print(st, c.failures[:10], getattr(c, "tb", ""))
    return 1 if st in ("fail", "raise") else 0


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": []}


def finish(prop, tier, seed, results, mod, t0, ncases):
    viol = [v for r in results for v in r["violations"]]
    errs = [(r["case"], e) for r in results for e in r["errors"]]
    tot = lambda k: sum(r.get(k, 0) for r in results)
    solver = {}
    for r in results:
        for k, v in r.get("solver", {}).items():
            solver[k] = max(solver.get(k, 0), v) if k == "max_s" else solver.get(k, 0) + v
    funcs = sorted({f for r in results for f in r.get("functions", []) if not f.endswith(("<module>", "<listcomp>", "<genexpr>", "<lambda>"))})
    ops = sorted({o for r in results for o in r.get("ops", {})})
    known = [k for k in known_findings().get("findings", []) if k["property"] == prop]
    real_viol = []
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k["case"] == r["case"] and k.get("label", v["label"]) == v["label"]), None)
            if k is None:
                real_viol.append((r["case"], v))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": ("gradslam's real functions executed symbolically on torch tensors of solver terms "
                            "(all values of the symbolic inputs, shapes fixed per case); every obligation on every feasible path "
                            "is decided by z3 (or by the polynomial normal form the encoder computes: 'closed_by_normal_form'); "
                            "counterexamples are replayed on the real code before being reported. " + (getattr(mod, "EXPLAIN", "") or "")),
            "cases": ncases,
            "cases_completed": len([r for r in results if r["status"] == "ok"]),
            "paths": tot("paths"),
            "infeasible_paths": tot("infeasible_paths"),
            "obligations": tot("obligations"),
            "obligations_decided": tot("proved"),
            "queries": solver.get("queries", 0),
            "queries_unsat": solver.get("unsat", 0),
            "queries_sat": solver.get("sat", 0),
            "queries_unknown": solver.get("unknown", 0),
            "closed_by_normal_form": solver.get("norm", 0),
            "solver_time_s": round(solver.get("solver_s", 0.0), 3),
            "longest_query_s": round(solver.get("max_s", 0.0), 3),
            "reachability_witnesses": tot("reach"),
            "encoding_vs_real_points": tot("diff_points"),
            "encoding_vs_real_max_dev": max([r.get("encoding_max_dev", 0.0) for r in results] or [0.0]),
            "functions_encoded": funcs,
            "aten_ops_encoded": ops,
            "bounds": {r["case"]: r.get("bounds", {}) for r in results},
            "samples": [{"case": r["case"], "path_witness": r["sample"]} for r in results if "sample" in r][:4],
            "per_case": [{k: r.get(k) for k in ("case", "status", "paths", "obligations", "proved", "wall_s", "within_tolerance")} for r in results],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "tensor elements are mathematical reals (float rounding and overflow are outside the claim)",
            "shapes, batch sizes and history lengths are those listed under bounds",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real_viol),
    }
    if errs:
        ev["coverage"]["errors"] = ["%s: %s" % e for e in errs][:20]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k.get("kind", "finding") == "finding":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for case, v in real_viol:
        print("case %s: %s  %s %s %s" % (case, v["label"], v["why"], v.get("detail"), v.get("exception")))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%s %s: cases=%d paths=%d obligations=%d decided=%d queries=%d solver=%.1fs wall=%.1fs" % (
        prop, tier, ncases, tot("paths"), tot("obligations"), tot("proved"), solver.get("queries", 0),
        solver.get("solver_s", 0.0), time.time() - t0))
    if real_viol:
        return 1
    if errs:
        for c, e in errs[:20]:
            print("ERROR case %s: %s" % (c, e[:3000]))
        return 3
    return 0
