"""dev: run one bounded stand-in: b.py MODULE NAME [seconds] [seed]"""
import sys, importlib, os
sys.path.insert(0, '/verif'); sys.path.insert(0, os.environ.get("FMK_REPO", "/repo"))
sys.dont_write_bytecode = True
import logging; logging.disable(logging.CRITICAL)
from pyvc import concrete, decl
importlib.import_module('bounded.' + sys.argv[1])
for nm, b in decl.BOUNDED.items():
    if sys.argv[2] in nm:
        r = concrete.run_bounded(b, int(sys.argv[4]) if len(sys.argv) > 4 else 1, float(sys.argv[3]) if len(sys.argv) > 3 else 8, "quick")
        print(nm, r["runs"], "runs", len(r["findings"]), "findings", (r["error"] or "")[-600:])
        for x in r["findings"][:4]: print("   ", str(x.get("case",""))[:60], "|", str((x.get("detail") or {}).get("clause") if isinstance(x.get("detail"), dict) else x)[:300], "|", str(x)[:int(os.environ.get("W", 400))])
