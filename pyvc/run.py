"""Prove the contracts of a property, from the current source.   python3-vt -m pyvc.run SPEC.json OUT.json"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time


def one(key, seed, conn, tmo):
    from pyvc import contract, decl, prove
    c = decl.REGISTRY[key]
    r = contract.verify(c, seed=seed, timeout=tmo, contracts={k.split('#')[0]: x for k, x in decl.REGISTRY.items() if x.modular and k.split('#')[0] != key.split('#')[0]})
    by = {}
    for o in r.obls:
        by[o.backend] = by.get(o.backend, 0) + (1 if o.status == "proved" else 0)
    kinds = {}
    for o in r.obls:
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
    conn.send({"key": key, "obligations": len(r.obls), "discharged": sum(o.status == "proved" for o in r.obls), "kinds": kinds,
               "failed": [{"name": o.name(), "kind": o.kind, "line": o.line, "text": o.text, "fn": o.fn, "why": o.backend,
                           "model": str(getattr(o, "model", None) or "")[:3000]} for o in r.failed],
               "error": r.error, "backends": {k: v for k, v in by.items() if v}, "seconds": r.seconds, "solver_s": prove.STATS["time"], "queries": prove.STATS["queries"],
               "vacuity": r.vacuity, "lib": sorted(r.lib), "inlined": sorted(str(x) for x in r.inlined),
               "loops": [[str(x) for x in l] for l in r.loops], "invariants": sum(len(v) for v in r.invs.values()), "note": c.note})
    conn.close()


def main(spec, outp):
    spec = json.load(open(spec))
    for m in spec["modules"]:
        importlib.import_module(m)
    ctx = mp.get_context("fork")
    todo = list(spec["contracts"])
    running, res = [], {}
    limit = spec["limit"]
    t00 = time.time()
    while todo or running:
        while todo and len(running) < spec.get("procs", 7):
            k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=one, args=(k, spec["seed"], b, spec.get("timeout", 8000)))
            p.start()
            b.close()
            running.append((k, p, a, time.time()))
        time.sleep(0.02)
        for t in list(running):
            k, p, a, t0 = t
            got = None
            try:
                if a.poll():
                    got = a.recv()
            except EOFError:
                got = {"key": k, "error": "engine process ended without an answer", "obligations": 0, "discharged": 0, "failed": []}
            if got is None and time.time() - t0 > limit:
                got = {"key": k, "error": f"verification did not finish within {limit} s", "obligations": 0, "discharged": 0, "failed": []}
                p.kill()
            if got is not None:
                res[k] = got
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(t)
    json.dump({"contracts": [res[k] for k in spec["contracts"]], "wall": time.time() - t00}, open(outp, "w"))


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
