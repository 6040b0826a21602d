#!/usr/bin/env python3
"""check.py <PID>: decide one property on /repo's current source.

1. deductive part: every obligation of every contract of the property (python3-vt: z3, cvc5);
2. the same contracts, and the bounded stand-ins, evaluated on the running code (/opt/venv): this validates the assumed
   library contracts and yields failing inputs; it is bounded and never counted as proved.
Exit 0 / 1 (VIOLATION line) as the interface says; 2 when the machinery itself is broken."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("status") == "open":
                    out.append(d)
    return out


def env(scratch, **kw):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, NUMBA_CACHE_DIR=os.path.join(scratch, "nb"),
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", HOME=scratch, PYTHONHASHSEED="0", VERIF_SCRATCH=scratch)
    e.update(kw)
    return e


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="fmkchk_")
    try:
        rc = run(pid, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def py(e):
    return ["/opt/venv/bin/python", "-m", "pyvc.concrete"]


def run(pid, tier, seed, t0, scratch):
    P = PROPS[pid]
    quick = tier == "quick"
    mods = P["modules"]
    prove_spec = dict(modules=mods, contracts=P.get("contracts", []), seed=seed, limit=P.get("limit", 240) if quick else 1500,
                      timeout=8000 if quick else 30000, procs=7)
    conc_spec = dict(modules=mods + P.get("bmodules", []), contracts=[k for k in ([] if P.get("no_runtime") else P.get("contracts", [])) + P.get("runtime", []) if not k.startswith("lemma:")], bounded=P.get("bounded", []), seed=seed,
                     budget=P.get("budget", 5) if quick else 60, bbudget=P.get("bbudget", 15) if quick else 120, tier=tier, procs=4)
    f = lambda n: os.path.join(scratch, n)
    json.dump(prove_spec, open(f("p.json"), "w"))
    json.dump(conc_spec, open(f("c.json"), "w"))
    procs = []
    if prove_spec["contracts"]:
        procs.append(("prove", subprocess.Popen(["python3-vt", "-m", "pyvc.run", f("p.json"), f("po.json")], cwd=HERE, env=env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    procs.append(("concrete", subprocess.Popen(py(0) + [f("c.json"), f("co.json")], cwd=scratch, env=env(scratch, NUMBA_DISABLE_JIT="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    if not quick:
        s2 = dict(conc_spec, seed=seed + 1000, budget=60, bbudget=60, procs=3)
        json.dump(s2, open(f("c2.json"), "w"))
        procs.append(("jit", subprocess.Popen(py(0) + [f("c2.json"), f("co2.json")], cwd=scratch, env=env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    logs = {}
    broken = None
    for nm, p in procs:
        try:
            logs[nm] = p.communicate(timeout=820 if quick else 3 * 3600)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            logs[nm] = "timeout"
        if p.returncode != 0:
            broken = f"{nm}: exit {p.returncode}: {logs[nm][-1500:]}"
    load = lambda n: json.load(open(f(n))) if os.path.exists(f(n)) else {"contracts": [], "bounded": []}
    po, co, cj = load("po.json"), load("co.json"), load("co2.json")
    if broken and not (broken.startswith("concrete") or broken.startswith("jit")):
        print("ERROR", broken)
        return 2
    conc_err = broken          # e.g. the module under test cannot even be imported
    # ---- violations
    viol, find = [], []
    kf = [k for k in known() if k["property"] == pid]
    seen_kf = set()
    for r in co["contracts"] + cj["contracts"]:
        if r["fail"]:
            viol.append(("input", r["name"], r["fail"]))
        elif r["error"]:
            conc_err = conc_err or f"{r['name']}: {r['error']}"
    for r in co["bounded"] + cj["bounded"]:
        for x in r["findings"]:
            m = [k for k in kf if k["check"] == r["name"] and k["case"] == x["case"]]
            if m:
                if m[0]["case"] not in seen_kf:
                    seen_kf.add(m[0]["case"])
                    find.append(m[0])
            else:
                viol.append(("input", r["name"], x))
        if r["error"]:
            conc_err = conc_err or f"{r['name']}: {r['error']}"
    unproved = [(r, o) for r in po["contracts"] for o in r["failed"]]
    outside = [r for r in po["contracts"] if r["error"]]
    nob = sum(r["obligations"] for r in po["contracts"])
    for r in po["contracts"]:
        if not r["error"] and r["obligations"] == 0:
            print("ERROR no obligations generated for", r["key"])
            return 2
    if (unproved or outside) and not any(v[0] == "input" for v in viol):
        # look harder for a failing input of the functions whose proof failed
        keys = sorted({r["key"] for r, _ in unproved} | {r["key"] for r in outside})
        hs = dict(conc_spec, contracts=[k for k in keys if k in conc_spec["contracts"]], bounded=P.get("bounded", []), seed=seed + 77, budget=40, bbudget=40, hard=True, procs=7)
        json.dump(hs, open(f("h.json"), "w"))
        # and give the solver more time: on a loaded machine a proof can fail for want of it
        json.dump(dict(prove_spec, contracts=keys, limit=330 if quick else 3000), open(f("r.json"), "w"))
        again = subprocess.Popen(["python3-vt", "-m", "pyvc.run", f("r.json"), f("ro.json")], cwd=HERE, env=env(scratch, PYVC_SLOW="4"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            subprocess.run(py(0) + [f("h.json"), f("ho.json")], cwd=scratch, env=env(scratch, NUMBA_DISABLE_JIT="1"), capture_output=True, timeout=300)
        except subprocess.TimeoutExpired:
            pass
        ho = load("ho.json")
        for r in ho["contracts"]:
            if r["fail"]:
                viol.append(("input", r["name"], r["fail"]))
        for r in ho["bounded"]:
            for x in r["findings"]:
                if not any(k["check"] == r["name"] and k["case"] == x["case"] for k in kf):
                    viol.append(("input", r["name"], x))
        try:
            again.wait(timeout=0.1 if any(v[0] == "input" for v in viol) else 360 if quick else 3100)
        except subprocess.TimeoutExpired:
            os.killpg(again.pid, signal.SIGKILL)
            again.wait()
        for r in load("ro.json")["contracts"]:
            if not r["error"] and not r["failed"] and r["obligations"]:
                r["second_attempt"] = True
                po["contracts"] = [r if x["key"] == r["key"] else x for x in po["contracts"]]
        unproved = [(r, o) for r in po["contracts"] for o in r["failed"]]
        outside = [r for r in po["contracts"] if r["error"]]
        nob = sum(r["obligations"] for r in po["contracts"])
    if conc_err and not viol:
        viol.append(("error", "running the code", {"clause": "the contracts cannot be evaluated on the running code", "detail": conc_err[:3000]}))
    for r, o in unproved:
        viol.append(("proof", r["key"], o))
    for r in outside:
        viol.append(("proof", r["key"], {"name": "extraction", "text": r["error"], "why": "outside the verified subset or engine limit"}))
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    for k in find:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rc = 0
    if viol:
        rc = 1
        path = os.path.join("evidence", "replay", f"{pid}.json")
        inp = [v for v in viol if v[0] == "input"]
        json.dump({"property": pid, "failing_inputs": [{"check": v[1], **v[2]} for v in inp][:5],
                   "failed_obligations": [{"contract": v[1], **v[2]} for v in viol if v[0] == "proof"][:40],
                   "errors": [{"check": v[1], **v[2]} for v in viol if v[0] == "error"],
                   "replay": "python3 /verif/replay.py <this file> evaluates the contract on the failing input against /repo"}, open(os.path.join(HERE, path), "w"), indent=1)
        for v in viol[:12]:
            d = v[2]
            print(" ", v[0], v[1], "|", d.get("name", ""), "|", str(d.get("clause") or d.get("text") or d.get("case"))[:260], "|", str(d.get("args") or d.get("detail") or d.get("why") or "")[:400])
        print(f"VIOLATION property={pid} replay=/verif/{path}" + ("" if inp else " no-failing-input-found"))
    evidence(pid, P, tier, seed, po, co, cj, viol, find, t0)
    print(f"{pid} {tier}: obligations {nob}, discharged {sum(r['discharged'] for r in po['contracts'])}; runtime contract evaluations {sum(r['runs'] for r in co['contracts'])}, "
          f"bounded cases {sum(r['runs'] for r in co['bounded'])}; {time.time() - t0:.1f} s")
    return rc


def evidence(pid, P, tier, seed, po, co, cj, viol, find, t0):
    cs = po["contracts"]
    lib = sorted({x for r in cs for x in r.get("lib", [])})
    asm = ["machine integers treated as mathematical, except where an explicit fits-intN obligation is listed (int8/int16/int32 stores)",
           "float64/float32 arithmetic treated as exact real arithmetic extended with NaN/inf; rounding is not modelled",
           "numba compiles the extracted Python text faithfully (decorators, type annotations and docstrings are dropped by the extraction)",
           "the engine in /verif/pyvc (extraction, verification-condition generation) and z3/cvc5"]
    level = P["level"]
    fns = [r["key"] for r in cs]
    rt = co["contracts"] + cj["contracts"]
    bd = co["bounded"] + cj["bounded"]
    cov = {}
    if cs:
        cov.update(obligations=sum(r["obligations"] for r in cs), discharged=sum(r["discharged"] for r in cs),
                   checker_cmd=f"python3 /verif/check.py {pid}  (python3-vt -m pyvc.run; z3, cvc5)",
                   trusted_base=["assumed library contract: " + x for x in lib] + asm,
                   functions_under_contract=[{"function": r["key"], "obligations": r["obligations"], "discharged": r["discharged"], "kinds": r.get("kinds"), "backends": r.get("backends"),
                                              "solver_s": round(r.get("solver_s", 0), 2), "queries": r.get("queries"), "invariants_inferred_and_proved": r.get("invariants"),
                                              "helpers_inlined": r.get("inlined"), "precondition_satisfiable": r.get("vacuity"), "error": r.get("error"), "note": r.get("note")} for r in cs],
                   solver_s=round(sum(r.get("solver_s", 0) for r in cs), 2))
    cov["evaluations"] = sum(r["runs"] for r in rt + bd)
    cov["distinct_nontrivial"] = sum(r["distinct"] for r in rt + bd)
    cov["rule"] = "inputs drawn by each contract's generator inside its precondition (distinct by full input), plus the cases of the bounded stand-ins (distinct by case id)"
    cov["samples"] = [{"check": r["name"], **r["sample"]} for r in rt + bd if r.get("sample")][:4] or ["none"]
    cov["bounded_not_proved"] = [{"check": r["name"], "runs": r["runs"], "bound": r.get("bound"), "covers": r.get("covers")} for r in bd]
    if level == "other":
        cov["explanation"] = P.get("explanation", "")
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": asm + P.get("assumptions", []) + ["trusted: " + x for x in lib], "wall_s": round(time.time() - t0, 2), "violations": len(viol)},
              open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
