"""run the checks on behaviour-preserving edits: refac.py [id-substr...]"""
import os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(__file__))
from refactors import R
for k, (pid, rel, eds) in R.items():
    if len(sys.argv) > 1 and not any(a in k for a in sys.argv[1:]): continue
    d = tempfile.mkdtemp(prefix="rfc")
    shutil.copytree("/repo/finmlkit", d + "/finmlkit")
    p = d + "/" + rel; s = open(p).read(); bad = False
    for o, n in eds:
        if s.count(o) < 1: print("NOMATCH", k, repr(o[:60])); bad = True; break
        s = s.replace(o, n, 1)
    if not bad:
        compile(s, p, "exec"); open(p, "w").write(s); t = time.time()
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), "..", "check.py"), pid], capture_output=True, text=True, env=dict(os.environ, FMK_REPO=d))
        print(k, pid, "exit", r.returncode, round(time.time() - t), "s")
        if r.returncode: print("   ", "\n    ".join(x[:230] for x in (r.stdout + r.stderr).strip().split("\n")[-6:]))
    sys.stdout.flush(); shutil.rmtree(d)
