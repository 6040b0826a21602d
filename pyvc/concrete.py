"""Contracts evaluated on the code that actually runs (bounded, labelled so): /opt/venv python, module imported from FMK_REPO.

usage: python -m pyvc.concrete SPEC.json OUT.json      SPEC: {contracts:[keys], modules:[..], bounded:[..], seed, budget, tier, focus:[keys]}
"""
import copy
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np

REPO = os.environ.get("FMK_REPO", "/repo")


def load_function(c):
    mod = importlib.import_module(c.rel[:-3].replace("/", "."))
    o = mod
    for p in c.func.split("."):
        o = getattr(o, p)
    return getattr(o, "py_func", o) if os.environ.get("NUMBA_DISABLE_JIT") == "1" else o


def js(v):
    if isinstance(v, np.ndarray):
        return {"array": [js(x) for x in v.tolist()], "dtype": str(v.dtype)}
    if isinstance(v, (list, tuple)):
        return [js(x) for x in v]
    if isinstance(v, (np.generic,)):
        return js(v.item())
    if isinstance(v, float):
        return v if math.isfinite(v) else repr(v)
    if isinstance(v, (int, str, bool, type(None))):
        return v
    if isinstance(v, dict):
        return {str(k): js(x) for k, x in v.items()}
    return repr(v)[:2000]


def eq(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a is b or a == b or (a != a and b != b)


def check_one(c, fn, args, g):
    """None when outside the precondition, else (ok, clause, result)"""
    from pyvc import dsl, trace
    dsl.reset()
    env = c.ghosts({a: copy.deepcopy(b) for (a, _), b in zip(c.params, args)})
    for r in c.requires:
        if not trace.eval_expr(r, env, g):
            return None
    expect = [e for e, cond in c.raises if trace.eval_expr(cond, env, g)]
    live = copy.deepcopy(list(args))
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = fn(*live)
    except Exception as e:
        nm = type(e).__name__
        if nm in expect:
            return True, "", None
        if expect:
            return False, f"raises {expect[0]} (got {nm}: {e})", None
        return False, f"no exception expected, got {nm}: {e}", None
    if expect:
        return False, f"must raise {expect[0]}", res
    env["result"] = res
    for (a, _), b in zip(c.params, live):
        env["new_" + a] = b
    for cl in c.all_ensures():
        try:
            ok = trace.eval_expr(cl, env, g)
        except (IndexError, ZeroDivisionError, KeyError) as e:
            ok = False
            cl = cl + f"   [{type(e).__name__}: {e}]"
        if not ok:
            return False, cl, res
    for (a, _), b in zip(c.params, live):
        if a not in c.modifies and not eq(env[a], b):
            return False, f"argument {a} is modified", res
    return True, "", res


def literals(c):
    """integer literals of the function under test, and sizes just around them"""
    import ast
    out = set()
    try:
        t = ast.parse(open(os.path.join(REPO, c.rel)).read())
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == c.func.split(".")[-1]:
                for m in ast.walk(n):
                    if isinstance(m, ast.Constant) and isinstance(m.value, int) and not isinstance(m.value, bool) and 16 < m.value < 3000:
                        out |= {m.value, m.value + 2, m.value + m.value // 2}
    except (OSError, SyntaxError):
        pass
    return sorted(out)


def run_contract(c, seed, budget, tier, hard=False):
    from pyvc import trace
    out = {"name": c.key, "runs": 0, "skipped": 0, "fail": None, "distinct": 0, "sample": None, "error": None}
    if c.gen is None:
        return out
    try:
        fn = load_function(c)
    except Exception as e:
        out["error"] = f"import: {type(e).__name__}: {e}"
        return out
    g = trace.spec_globals()
    rng = random.Random(seed * 7919 + 13)
    t0 = time.time()
    seen = set()
    lits = literals(c) if hard else []
    big = 40 if tier == "quick" else 120
    k = 0
    fails = []
    while time.time() - t0 < budget and k < (3000 if tier == "quick" and not hard else 20000):
        n = 1 + k % 16 if k % 10 or k < 40 else rng.randint(16, big)
        if hard and k % 7 == 0:         # sizes suggested by the literals of the code under test
            n = rng.choice([rng.randint(40, 130), rng.randint(130, 320), *lits])
        k += 1
        try:
            args = c.gen(rng, n)
        except (IndexError, ValueError, ZeroDivisionError):
            continue
        if args is None:
            continue
        try:
            r = check_one(c, fn, args, g)
        except Exception as e:
            out["error"] = f"contract evaluation: {type(e).__name__}: {e} " + traceback.format_exc()[-400:]
            return out
        if r is None:
            out["skipped"] += 1
            continue
        out["runs"] += 1
        key = json.dumps(js(args), sort_keys=True)
        if key not in seen:
            seen.add(key)
            if out["sample"] is None and n >= 5:
                out["sample"] = {"args": js(args), "result": js(r[2])}
        if not r[0]:
            size = len(key)
            fails.append((size, args, r[1], r[2]))
            if len(fails) >= 6:
                break
    if fails:
        size, args, cl, res = min(fails, key=lambda z: z[0])
        out["fail"] = {"contract": c.key, "clause": cl, "args": dict(zip(c.pnames, [js(a) for a in args])), "result": js(res)}
    out["distinct"] = len(seen)
    return out


def run_bounded(b, seed, budget, tier):
    out = {"name": b.name, "runs": 0, "fail": None, "distinct": 0, "sample": None, "error": None, "findings": [], "bound": b.bound, "covers": b.covers}
    rng = random.Random(seed * 7919 + 17)
    t0 = time.time()
    seen = set()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            for case, ok, detail in b.run(rng, budget, tier):
                out["runs"] += 1
                if case not in seen:
                    seen.add(case)
                if out["sample"] is None:
                    out["sample"] = {"case": str(case)[:300], "detail": str(detail)[:300]}
                if not ok:
                    out["findings"].append({"case": str(case), "detail": js(detail)})
                    if len(out["findings"]) > 40:
                        break
                if time.time() - t0 > budget:
                    break
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb)
        if inrepo:
            out["findings"].append({"case": f"exception:{type(e).__name__}", "detail": traceback.format_exc()[-1500:]})
        else:
            out["error"] = f"{type(e).__name__}: {e} " + traceback.format_exc()[-900:]
    out["distinct"] = len(seen)
    return out


def work(job):
    kind, name, seed, budget, tier, hard = job
    from pyvc import decl
    if kind == "contract":
        return kind, run_contract(decl.REGISTRY[name], seed, budget, tier, hard)
    return kind, run_bounded(decl.BOUNDED[name], seed, budget, tier)


def main(spec, outp):
    spec = json.load(open(spec))
    sys.path.insert(0, REPO)
    for m in spec["modules"]:
        importlib.import_module(m)
    jobs = [("contract", k, spec["seed"], spec["budget"], spec["tier"], spec.get("hard", False)) for k in spec["contracts"]]
    jobs += [("bounded", k, spec["seed"], spec["bbudget"], spec["tier"], False) for k in spec["bounded"]]
    import multiprocessing as mp
    if spec.get("warm"):
        importlib.import_module("finmlkit")
    with mp.get_context("fork").Pool(min(spec.get("procs", 4), max(1, len(jobs)))) as pool:
        rs = pool.map(work, jobs, chunksize=1)
    json.dump({"contracts": [r for k, r in rs if k == "contract"], "bounded": [r for k, r in rs if k == "bounded"]}, open(outp, "w"))


def unjs(v):
    if isinstance(v, dict) and "array" in v:
        return np.array([unjs(x) for x in v["array"]], dtype=v["dtype"])
    if isinstance(v, list):
        return tuple(unjs(x) for x in v)
    if v in ("nan", "inf", "-inf"):
        return float(v)
    return v


def replay(path):
    from props import PROPS
    from pyvc import decl, trace
    d = json.load(open(path))
    P = PROPS[d["property"]]
    sys.path.insert(0, REPO)
    for m in P["modules"] + P.get("bmodules", []):
        importlib.import_module(m)
    rc = 0
    for f in d["failing_inputs"]:
        if "args" in f:
            c = decl.REGISTRY[f["contract"]]
            r = check_one(c, load_function(c), [unjs(f["args"][p]) for p in c.pnames], trace.spec_globals())
            print("replay", f["contract"], "->", "outside the precondition" if r is None else "holds" if r[0] else "VIOLATED: " + r[1])
            rc |= 0 if r is None or r[0] else 1
        else:
            r = run_bounded(decl.BOUNDED[f["check"]], 1, 60, "quick")
            hit = [x for x in r["findings"] if x["case"] == f.get("case")]
            print("replay", f["check"], f.get("case"), "->", "VIOLATED" if hit else "not reproduced", hit[:1])
            rc |= bool(hit)
    sys.exit(rc)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    main(sys.argv[1], sys.argv[2])
