#!/usr/bin/env python3
"""Nothing to build: checks the tools the machinery needs."""
import subprocess
import sys
for c in (["python3-vt", "-c", "import z3, numpy"], ["/opt/venv/bin/python", "-c", "import numba, numpy, pandas"]):
    if subprocess.run(c).returncode:
        print("missing tool:", c)
        sys.exit(1)
print("ok")
