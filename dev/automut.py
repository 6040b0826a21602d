"""dev: automatic mutation of one file, judged by bounded stand-ins only.
automut.py FILE[:lo-hi] MODULE NAME[,NAME] [-s secs] [-j jobs] [-m max] [-r seed]; prints surviving mutants."""
import ast, copy, os, random, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
av = sys.argv[1:]
def opt(n, d):
    if n in av:
        i = av.index(n); v = av[i + 1]; del av[i:i + 2]; return type(d)(v)
    return d
SECS, JOBS, MAX, SEED = opt("-s", 6.0), opt("-j", 4), opt("-m", 60), opt("-r", 1)
FILE, MOD, NAMES = av[0], av[1], av[2].split(",")
LO, HI = 0, 10**9
if ":" in FILE:
    FILE, r = FILE.split(":"); LO, HI = map(int, r.split("-"))
SRC = open("/repo/" + FILE).read()
TREE = ast.parse(SRC)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}


def skip(node):
    return isinstance(node, ast.Expr) and (isinstance(node.value, ast.Constant) or (isinstance(node.value, ast.Call) and "logger" in ast.unparse(node.value.func)))


def cands():
    """(line, description, mutated segment edits) — each a (lineno, col, end_lineno, end_col, newtext)"""
    out = []
    def add(n, new, d):
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, d))
    def walk(n, fn):
        if skip(n) or isinstance(n, ast.Raise): return
        if isinstance(n, (ast.FunctionDef,)) :
            for s in n.body: walk(s, n.name)
            return
        if hasattr(n, "lineno") and LO <= n.lineno <= HI and isinstance(n, (ast.expr, ast.stmt)):
            u = ast.unparse
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                m = copy.deepcopy(n); m.ops = [CMP[type(n.ops[0])]()]; add(n, u(m), "cmp")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                m = copy.deepcopy(n); m.op = BIN[type(n.op)](); add(n, "(" + u(m) + ")", "bin")
            if isinstance(n, ast.BoolOp):
                m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); add(n, "(" + u(m) + ")", "bool")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                add(n, "(" + u(n.operand) + ")", "unary")
            if isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, str(n.value + 1), "const")
                if n.value > 1: add(n, str(n.value - 1), "const")
            if isinstance(n, ast.Constant) and type(n.value) is float:
                add(n, repr(n.value * 2 + 1), "const")
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, str(not n.value), "const")
            if isinstance(n, ast.Constant) and type(n.value) is str and len(n.value) < 20:
                pass
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                add(n.test, "(not (" + u(n.test) + "))", "negate")
            if isinstance(n, ast.Call):
                if n.keywords:
                    for k in range(len(n.keywords)):
                        m = copy.deepcopy(n); del m.keywords[k]; add(n, u(m), "dropkw")
                if len(n.args) >= 2:
                    for k in range(len(n.args) - 1):
                        m = copy.deepcopy(n); m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]; add(n, u(m), "swap")
                nm = u(n.func)
                for a, b in (("min", "max"), ("max", "min")):
                    if nm.split(".")[-1] == a:
                        m = copy.deepcopy(n); m.func = ast.parse(nm[:len(nm) - 3] + b, mode="eval").body; add(n, u(m), "minmax")
                if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "pd", "os", "mp", "self", "cls", "super", "logger")):
                    add(n, "(" + u(n.func.value) + ")", "dropcall")
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                m = copy.deepcopy(n); m.slice.lower, m.slice.upper = None, None; add(n, u(m), "slice")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and fn:
                add(n, "pass", "drop")
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant) and fn:
                pass
            if isinstance(n, ast.Continue): add(n, "break", "cont")
            if isinstance(n, ast.Break): add(n, "continue", "brk")
        for c in ast.iter_child_nodes(n): walk(c, fn)
    walk(TREE, None)
    return out


def apply(c):
    l0, c0, l1, c1, new, _ = c
    L = [x.encode() for x in SRC.split("\n")]
    pre = b"\n".join(L[:l0 - 1] + [L[l0 - 1][:c0]]); post = b"\n".join([L[l1 - 1][c1:]] + L[l1:])
    s = (pre + new.encode() + post).decode()
    try: ast.parse(s)
    except SyntaxError: return None
    return s


RUN = r'''
import sys, importlib, os, json
sys.path.insert(0, "/verif"); sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
import logging; logging.disable(logging.CRITICAL)
from pyvc import concrete, decl
importlib.import_module("bounded." + sys.argv[2])
for nm, b in decl.BOUNDED.items():
    if any(nm.endswith(x) or nm == x for x in sys.argv[3].split(",")):
        r = concrete.run_bounded(b, 1, float(sys.argv[4]), "quick")
        f = [x for x in r["findings"]]
        from_known = os.environ.get("KNOWN", "").split(",")
        f = [x for x in f if not any(k and k in json.dumps(x, default=str) for k in from_known)]
        if f or r["error"]: print("KILLED"); sys.exit()
print("SURVIVED")
'''


def job(c):
    s = apply(c)
    if s is None: return None
    d = tempfile.mkdtemp(prefix="am_")
    try:
        shutil.copytree("/repo/finmlkit", d + "/finmlkit", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, FILE), "w").write(s)
        os.makedirs(d + "/scr")
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-c", RUN, d, MOD, ",".join(NAMES), str(SECS)], capture_output=True, text=True, timeout=SECS * len(NAMES) * 3 + 60,
                           env=dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1", VERIF_SCRATCH=d + "/scr", FMK_REPO=d, FMK_CONSOLE_LOGGER_LEVEL="ERROR"), cwd=d)
        except subprocess.TimeoutExpired:
            return c, "TIMEOUT"
        return c, (p.stdout.strip().split("\n")[-1] if p.stdout.strip() else "CRASH " + p.stderr[-100:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


cs = cands()
random.Random(SEED).shuffle(cs)
cs = cs[:MAX]
cs.sort()
n = k = 0
with ThreadPoolExecutor(JOBS) as ex:
    for r in ex.map(job, cs):
        if r is None: continue
        n += 1
        c, v = r
        if v == "SURVIVED":
            old = "\n".join(SRC.split("\n")[c[0] - 1:c[2]]).strip()
            print(f"L{c[0]} {c[5]}: {old[:110]!r} => {c[4][:90]!r}", flush=True)
        else:
            k += 1
print(FILE, f"{n} mutants, {k} killed")
