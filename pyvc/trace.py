"""Concrete traces of the extracted functions, used only to discard false invariant candidates early.

The text executed here is the extracted source with loop heads instrumented; nothing is trusted from it - every candidate
that survives is still proved inductive.
"""
import ast
import copy
import math
import sys

import numpy as np

from . import dsl, source

MAXEV = 90


class _It:
    __slots__ = ("lid", "seq", "lo", "step", "n", "entry", "rng", "fin")

    def __init__(self, lid, it, entry):
        self.lid, self.entry = lid, entry
        if isinstance(it, range):
            self.rng, self.lo, self.step, self.n = it, it.start, it.step, len(it)
            self.fin = it.start + it.step * len(it)
            self.seq = None
        else:
            self.rng = None
            self.seq = it if hasattr(it, "__getitem__") else list(it)
            self.lo, self.step, self.n = 0, 1, len(self.seq)
            self.fin = self.n

    def counters(self):
        for j in range(self.n):
            yield self.lo + j * self.step

    def get(self, c):
        return c if self.rng is not None else self.seq[c]


class Tracer:
    def __init__(self):
        self.events = {}      # lid -> list of env dicts
        self.args0 = None
        self.per_run = {}

    def snap(self, loc):
        out = {}
        for k, v in loc.items():
            if k.startswith("__"):
                continue
            if isinstance(v, np.ndarray):
                out[k] = v.copy() if v.size <= 4000 else v
            elif isinstance(v, list):
                out[k] = list(v)
            else:
                out[k] = v
        return out

    def enter(self, lid, it, loc):
        return _It(tuple(lid), it if it is not None else [], self.snap(loc))

    def ev(self, t, c, loc):
        lst = self.events.setdefault(t.lid, [])
        n = self.per_run.get(t.lid, 0)
        self.per_run[t.lid] = n + 1
        # thin out long runs: keep the first few and a sparse tail
        if n > 12 and n % 7:
            return False
        if len(lst) >= 4000:
            return False
        env = {"_L_" + k: v for k, v in self.snap(loc).items()}
        env.update({"_E_" + k: v for k, v in t.entry.items()})
        if c is not None:
            env["_k"] = c
            env["_k0"] = t.lo
        f = sys._getframe(1).f_back
        d = 1
        site = []
        while f is not None:
            if f.f_code.co_filename == "<traced>" and f.f_code.co_name != "<lambda>":
                site.append(f.f_lineno)
                for k, v in self.snap(f.f_locals).items():
                    env[f"_C{d}_{k}"] = v
                d += 1
            f = f.f_back
        env.update(self.args0)
        env["$site"] = tuple(reversed(site))
        lst.append(env)
        return False


class Instr(ast.NodeTransformer):
    def __init__(self, fn, ids):
        self.fn, self.ids = fn, ids

    def call(self, m, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id="__T", ctx=ast.Load()), attr=m, ctx=ast.Load()), args=list(args), keywords=[])

    def loc(self):
        return ast.Call(func=ast.Name(id="locals", ctx=ast.Load()), args=[], keywords=[])

    def name(self, s, ctx=None):
        return ast.Name(id=s, ctx=ctx or ast.Load())

    def visit_For(self, n):
        k = self.ids[id(n)]
        n = self.generic_visit(n)
        it, c = f"__it{k}", f"__c{k}"
        lid = ast.Tuple(elts=[ast.Constant(self.fn), ast.Constant(k)], ctx=ast.Load())
        a = ast.Assign(targets=[self.name(it, ast.Store())], value=self.call("enter", lid, n.iter, self.loc()))
        body = [ast.Expr(self.call("ev", self.name(it), self.name(c), self.loc())),
                ast.Assign(targets=[n.target], value=ast.Call(func=ast.Attribute(value=self.name(it), attr="get", ctx=ast.Load()), args=[self.name(c)], keywords=[]))] + n.body
        orelse = [ast.Expr(self.call("ev", self.name(it), ast.Attribute(value=self.name(it), attr="fin", ctx=ast.Load()), self.loc()))] + n.orelse
        loop = ast.For(target=self.name(c, ast.Store()), iter=ast.Call(func=ast.Attribute(value=self.name(it), attr="counters", ctx=ast.Load()), args=[], keywords=[]), body=body, orelse=orelse)
        return [a, loop]

    def visit_While(self, n):
        k = self.ids[id(n)]
        n = self.generic_visit(n)
        it = f"__it{k}"
        lid = ast.Tuple(elts=[ast.Constant(self.fn), ast.Constant(k)], ctx=ast.Load())
        a = ast.Assign(targets=[self.name(it, ast.Store())], value=self.call("enter", lid, ast.Constant(None), self.loc()))
        n.test = ast.BoolOp(op=ast.Or(), values=[self.call("ev", self.name(it), ast.Constant(None), self.loc()), n.test])
        return [a, n]


class _NB:
    """stand-ins for numba names in traced code"""


def traced_module(rel, tracer, cache):
    if rel in cache:
        return cache[rel]
    m = source.load(rel)
    ns = {"np": np, "numpy": np, "math": math, "__T": tracer, "prange": range, "NumbaList": list, "List": list, "print": lambda *a, **k: None}
    cache[rel] = ns
    for nm, imp in m.imports.items():
        if imp[0] == "from":
            r = m.lookup(nm)
            if r and r[0] == "func":
                ns[nm] = traced_module(r[1].rel, tracer, cache).get(r[2].name)
            elif imp[1] == "math":
                ns[nm] = getattr(math, imp[2])
            elif imp[1] == "numba" and imp[2] == "prange":
                ns[nm] = range
            elif imp[1] == "numba.typed":
                ns[nm] = list
        elif imp[1] == "numpy":
            ns[nm] = np
        elif imp[1] == "math":
            ns[nm] = math
    for nm, v in m.consts.items():
        try:
            ns[nm] = eval(compile(ast.Expression(copy.deepcopy(v)), "<const>", "eval"), ns)
        except Exception:
            pass
    for nm, f in m.funcs.items():
        if "." in nm:
            continue
        ids = {}
        k = 0
        g = copy.deepcopy(f)
        for x in ast.walk(g):
            if isinstance(x, (ast.For, ast.While)):
                ids[id(x)] = k
                k += 1
        g.decorator_list = []
        g.returns = None
        for a in g.args.args + g.args.kwonlyargs:
            a.annotation = None
        try:
            g = Instr(f.name, ids).visit(g)
            mod = ast.Module(body=[g], type_ignores=[])
            ast.fix_missing_locations(mod)
            exec(compile(mod, "<traced>", "exec"), ns)
        except Exception:
            pass
    return ns


class Lazy(ast.NodeTransformer):
    """implies / ite become lazy in the concrete reading"""

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "implies":
            return ast.BoolOp(op=ast.Or(), values=[ast.UnaryOp(op=ast.Not(), operand=n.args[0]), n.args[1]])
        if isinstance(n.func, ast.Name) and n.func.id == "ite":
            return ast.IfExp(test=n.args[0], body=n.args[1], orelse=n.args[2])
        return n


_comp = {}


def compile_expr(t):
    if t not in _comp:
        e = ast.parse(t.strip(), mode="eval")
        e = ast.fix_missing_locations(Lazy().visit(e))
        _comp[t] = compile(e, "<contract>", "eval")
    return _comp[t]


def spec_globals():
    g = dict(dsl.VOCAB)
    g.update(dsl.SPECS)
    g["nan"] = math.nan
    g["inf"] = math.inf
    g["shape"] = lambda a, k: a.shape[k]
    return g


def eval_expr(t, env, g=None):
    gl = dict(g or spec_globals())
    gl.update(env)
    return eval(compile_expr(t), gl)
