#!/usr/bin/env python3
"""replay.py FILE: evaluate the failing inputs of a violation file against the code in /repo."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(sys.argv[1]))
print("property", d["property"])
for f in d["failing_inputs"]:
    print(json.dumps(f, indent=1)[:4000])
if not d["failing_inputs"]:
    print("no failing input; failed obligations:")
    for f in d["failed_obligations"][:10]:
        print(json.dumps(f, indent=1)[:2000])
env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", NUMBA_DISABLE_JIT="1", NUMBA_CACHE_DIR="/tmp/fmk_replay_nb")
sys.exit(subprocess.run(["/opt/venv/bin/python", "-m", "pyvc.concrete", "--replay", os.path.abspath(sys.argv[1])], cwd=HERE, env=env).returncode)
