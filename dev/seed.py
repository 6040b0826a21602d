"""dev: plant a bug.  seed.py ID  (reads seeds table from dev/seeds/ID.py: PROP FILE OLD NEW DEMO NEEDS BREAKS [COUNT])
builds a scratch copy, checks demo on clean/changed, runs the JIT-off tests, then the property's check against the copy."""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(sid, tests=True):
    d = runpy.run_path(os.path.join(HERE, "dev", "seeds", sid + ".py"))
    out = os.path.join(HERE, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    scratch = f"/tmp/seed_{sid}"
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree("/repo", scratch, symlinks=True)
    edits = d["EDITS"] if "EDITS" in d else [(d["FILE"], d["OLD"], d["NEW"])]
    for f, old, new in edits:
        p = os.path.join(scratch, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(out, "patch.diff"), "w").write(sh("git diff", cwd=scratch).stdout)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip())
    open(os.path.join(out, "demo.sh"), "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 PYTHONPATH=$PWD FMK_CONSOLE_LOGGER_LEVEL=ERROR
exec /opt/venv/bin/python "$here/demo.py"
''')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    c = sh(f"bash {out}/demo.sh", cwd="/repo")
    m = sh(f"bash {out}/demo.sh", cwd=scratch)
    res = [f"demo clean={c.returncode} mutated={m.returncode}"]
    if c.returncode or not m.returncode:
        res.append("BAD DEMO: " + (c.stdout + c.stderr)[-600:] + " // " + (m.stdout + m.stderr)[-300:])
    if tests:
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 tests --timeout=300 2>&1 | tail -6", cwd=scratch, env=dict(os.environ, NUMBA_DISABLE_JIT="1"))
        res.append("tests: " + " | ".join(t.stdout.strip().split("\n")[-3:])[-300:])
    for p in d.get("CHECKS", [d["PROP"]]):
        k = sh(f"python3 check.py {p}", cwd=HERE, env=dict(os.environ, FMK_REPO=scratch, VERIF_TIER="quick"))
        v = [l for l in k.stdout.split("\n") if l.startswith("VIOLATION")]
        res.append(f"check {p}: rc={k.returncode} {v[0] if v else k.stdout[-300:]}")
    shutil.rmtree(scratch)
    print(sid, "\n   ".join([""] + res))


if __name__ == "__main__":
    for a in sys.argv[1:]:
        if a != "-n":
            main(a, tests="-n" not in sys.argv)
