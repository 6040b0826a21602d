"""Contracts and their verification."""
import ast
import random
import time
import traceback

import numpy as np
import z3

from . import base_specs, dsl, infer, prove, source, trace  # noqa: F401
from .execsym import Exec, Obl, State, strip_doc
from .specsym import *
from .sym import *
from .decl import REGISTRY, Contract, Lemma, BOUNDED, Bounded, bounded  # noqa: F401

def fresh_result(c, ex, st, senv):
    def one(t):
        if t == "int":
            return fresh("res", I)
        if t == "bool":
            return fresh("res", B)
        if t == "real":
            return FV(fresh("res", R))
        if t == "float":
            return FV(fresh("res", R), fresh("resnan", B))
        et = {"A_int": "int", "A_real": "float", "A_float": "float", "A_bool": "bool", "L_int": "int"}[t]
        n = fresh("reslen", I)
        st.fact(n >= 0)
        return ex.alloc(st, Arr(et, fresh("res", arr_sort(et)), [n], nan=fresh("resnan", flag_sort()) if t == "A_float" else False, is_list=t[0] == "L"))
    if isinstance(c.result, (list, tuple)):
        return tuple(one(t) for t in c.result)
    return one(c.result)


def make_arg(ex, st, name, t, static):
    if static is not _NOSTATIC:
        v = static
        if isinstance(v, float):
            return fconst(v)
        return v
    if t == "int":
        return z3.Int(name)
    if t == "bool":
        return z3.Bool(name)
    if t == "real":
        return FV(z3.Real(name))
    if t == "float":
        return FV(z3.Real(name), z3.Bool(name + ".nan"))
    if t == "xfloat":
        p, q = z3.Bool(name + ".pi"), z3.Bool(name + ".ni")
        nn = z3.Bool(name + ".nan")
        st.fact(z3.Not(z3.Or(z3.And(p, q), z3.And(nn, p), z3.And(nn, q))))
        return FV(z3.Real(name), nn, p, q)
    if t == "ereal":          # extended real: maybe infinite, never NaN
        p, q = z3.Bool(name + ".pi"), z3.Bool(name + ".ni")
        st.fact(z3.Not(z3.And(p, q)))
        return FV(z3.Real(name), False, p, q)
    if t.startswith("(") and t.endswith(")"):
        return tuple(make_arg(ex, st, f"{name}.{i}", x.strip(), _NOSTATIC) for i, x in enumerate(t[1:-1].split("|")))
    if t.startswith("A2_"):
        raise Unsupported("2-D parameters")
    if t[:2] in ("A_", "L_"):
        base = t[2:].split("/")[0]
        dtype = t.split("/")[1] if "/" in t else None
        n = z3.Int(name + ".len")
        st.fact(n >= 0)
        et = {"int": "int", "real": "float", "float": "float", "bool": "bool"}[base]
        nan = z3.Const(name + ".nan", flag_sort()) if base == "float" else False
        return ex.alloc(st, Arr(et, z3.Const(name, arr_sort(et)), [n], nan=nan, is_list=t[0] == "L", dtype=dtype))
    if t.startswith("LA_"):
        base = t[3:]
        et = {"int": "int", "real": "float", "bool": "bool"}[base]
        n = z3.Int(name + ".len")
        st.fact(n >= 0)
        lens = z3.Const(name + ".lens", arr_sort("int"))
        k = z3.Int("k")
        st.fact(z3.ForAll([k], z3.Select(lens, k) >= 0))
        return ex.alloc(st, Arr("arr", z3.Const(name, z3.ArraySort(I, arr_sort(et))), [n], is_list=True, lens=lens, iet=et))
    raise Unsupported("parameter type " + t)


class _NS:
    pass


_NOSTATIC = _NS()


class Result:
    def __init__(self, key):
        self.key = key
        self.obls = []
        self.error = None          # outside the subset / engine limit
        self.seconds = 0.0
        self.inlined, self.lib = set(), set()
        self.loops = []
        self.vacuity = []
        self.invs = {}
        self.defs = 0

    @property
    def failed(self):
        return [o for o in self.obls if o.status != "proved"]


def concrete_env(c, args):
    env = {}
    for (n, _), a in zip(c.params, args):
        env[n] = a
    return c.ghosts(env)


def traces_for(c, seed=1, runs=40):
    tr = trace.Tracer()
    cache = {}
    ns = trace.traced_module(c.rel, tr, cache)
    fn = ns.get(c.func.split(".")[-1])
    g = trace.spec_globals()
    n = 0
    if fn is None or c.gen is None:
        return None
    rng = random.Random(seed)
    for k in range(runs * 3):
        if n >= runs:
            break
        try:
            args = c.gen(rng, min(2 + k // 2, 14))
        except Exception:
            continue
        import copy as _c
        env = {a: _c.deepcopy(b) for a, b in concrete_env(c, args).items()}
        try:
            if not all(trace.eval_expr(r, env, g) for r in c.requires):
                continue
        except Exception:
            continue
        tr.args0 = env
        tr.per_run = {}
        try:
            with np.errstate(all="ignore"):
                fn(*_c.deepcopy(args))
        except Exception:
            pass
        n += 1
    dsl.reset()
    return tr


def verify(c, seed=1, verbose=False, timeout=8000, contracts=None):
    """all obligations of one contract, from the current source"""
    t0 = time.time()
    res = Result(c.key)
    try:
        if isinstance(c, Lemma):
            for case in c.cases:
                verify_lemma(Exec(infer.Infer(c, None, verbose), {}, "python", dict(c.opts, verbose=verbose)), c, case, res)
            return discharge(res, t0, timeout)
        m = source.load(c.rel)
        fn = m.funcs.get(c.func)
        if fn is None:
            raise Unsupported("function not found: " + c.func)
        tr = traces_for(c, seed)
        inf = infer.Infer(c, tr, verbose)
        em = c.error_model
        if em is None:
            em = "numpy" if any("error_model" in d and "numpy" in d for d in source.decorators(fn)) else "python"
        for case in c.cases:
            inf.dead = {}
            ex = Exec(inf, contracts or {}, em, dict(c.opts, verbose=verbose))
            verify_case(ex, c, m, fn, case, res)
            res.inlined |= ex.inlined
            res.loops += ex.loop_stats
            for k, v in ex.invs.items():
                res.invs.setdefault(str(k), set()).update(v)
    except (Unsupported, Undefined) as e:
        if prove.DEBUG:
            traceback.print_exc()
        res.error = f"{type(e).__name__}: {e}"
    except RecursionError:
        res.error = "recursion limit in the engine"
    except z3.Z3Exception as e:
        if prove.DEBUG:
            traceback.print_exc()
        res.error = "z3: " + str(e)[:200] + " " + traceback.format_exc()[-900:].replace("\n", " | ")
    except (KeyError, AttributeError, TypeError, AssertionError, IndexError, ValueError) as e:
        res.error = "engine: " + repr(e)[:200] + " " + traceback.format_exc()[-1500:].replace("\n", " | ")
    return discharge(res, t0, timeout)


def discharge(res, t0, timeout):
    if not res.error:
        todo = [o for o in res.obls if o.status is None]
        for o, (ok, be, secs) in zip(todo, prove.prove_many([(o.hyps, o.goal) for o in todo], timeout=timeout)):
            o.secs = secs
            o.status, o.backend = ("proved" if ok else "failed"), be
    from . import lib
    res.lib = set(lib.USED)
    res.seconds = time.time() - t0
    return res


def verify_lemma(ex, c, case, res):
    st = State()
    frozen = {nm: ex.freeze(st, make_arg(ex, st, nm, t, case[nm] if nm in case else _NOSTATIC)) for nm, t in c.params}
    ex.args0 = frozen

    def holds(e):
        s = SpecEval(dict(frozen), ex)
        return zb(s.truth(s.expr(e)))
    for r in c.requires:
        st.fact(holds(r))
    sat = prove.satisfiable(st.hyps())
    res.vacuity.append((str(case), sat))
    obls = []
    if sat == "unsat":
        o = Obl("vacuity", 0, [], z3.BoolVal(False), "precondition is contradictory", c.func)
        o.status, o.backend = "failed", "z3"
        obls.append(o)
    for l in c.prelemmas:
        lemma(ex, st, l, dict(frozen), obls, c)
    for e in c.ensures:
        obls.append(Obl("lemma", 0, st.hyps(), holds(e), e, c.func))
    res.obls += obls


def verify_case(ex, c, m, fn, case, res):
    st = State()
    ps = [a.arg for a in fn.args.args]
    if ps and ps[0] in ("self", "cls"):
        ps = ps[1:]
    env = {}
    args0 = {}
    for k, (nm, t) in enumerate(c.params):
        v = make_arg(ex, st, nm, t, case[nm] if nm in case else _NOSTATIC)
        if nm in c.views:
            # the argument is a window of some array: [off, off + n) of it, wherever it lies
            p, o = c.views[nm]
            off, n = z3.Int(o) if o else z3.IntVal(0), z3.Int(nm + ".n")
            args0[p] = v
            if o:
                args0[o] = off
            st.fact(z3.And(off >= 0, n >= 0, off + n <= zi(ex.length(st, v))))
            v = Ref(v.oid, off, n)
        if k < len(ps):
            env[ps[k]] = v
        args0[nm] = v
    if len(ps) > len(c.params):
        # a parameter added by a change: only acceptable with its default
        for p, d in zip(ps[len(ps) - len(fn.args.defaults):], fn.args.defaults):
            if p not in env:
                ex.mod = m
                env[p] = ex.ev(d, State({}, st.heap, st.path))
    st.env = env
    frozen = {k: ex.freeze(st, v) for k, v in args0.items()}
    ex.args0 = frozen
    heap0 = dict(st.heap)

    def holds(e, extra=None, state=None):
        en = dict(frozen)
        if extra:
            en.update(extra)
        s = SpecEval(en, ex)
        return s.truth(s.expr(e))
    for r in c.requires:
        st.fact(holds(r))
    # vacuity: the precondition must be satisfiable
    sat = prove.satisfiable(st.hyps())
    res.vacuity.append((str(case), sat))
    if sat == "unsat":
        o = Obl("vacuity", fn.lineno, [], z3.BoolVal(False), "precondition is contradictory", c.func)
        o.status, o.backend = "failed", "z3"
        res.obls.append(o)
        return
    ex.mod, ex.fn = m, fn.name
    for l in c.prelemmas:
        lemma(ex, st, l, dict(frozen), ex.obls, c)
    ex.register_loops(fn)
    conds = []
    for exc, cond in c.raises:
        conds.append((exc, zb(holds(cond))))
    outs = ex.block(strip_doc(fn.body), st)
    obls = ex.obls
    nret = 0
    for o in outs + ex.raises:
        s = o.st
        if o.kind == "raise":
            ok = [cd for e2, cd in conds if e2 == o.val]
            g = Or(*ok) if ok else False
            obls.append(Obl("raises-only-when", 0, s.hyps(), zb(g), f"{o.val}", c.func))
            continue
        if o.kind not in ("return", "normal"):
            raise Unsupported("stray " + o.kind)
        nret += 1
        for e2, cd in conds:
            obls.append(Obl("must-raise", 0, s.hyps(), zb(Not(cd)), f"{e2}", c.func))
        extra = {"result": ex.freeze(s, o.val)}
        single = c.opts.get("single", ())
        if single != "any":
            for k, v in enumerate(o.val if isinstance(o.val, tuple) else (o.val,)):
                if isinstance(v, Ref) and s.heap[v.oid].dtype == "float32" and k not in single:
                    obls.append(Obl("single-precision-result", 0, s.hyps(), z3.BoolVal(False), f"result {k}", c.func))
        for k, v in args0.items():
            if isinstance(v, Ref):
                extra["new_" + k] = ex.freeze(s, v)
        for l in c.lemmas:
            lemma(ex, s, l, dict(frozen, **extra), obls, c)
        for e in c.all_ensures():
            try:
                g = zb(holds(e, extra))
            except Undefined as u:
                if getattr(o.val, "oid", None) is not None and s.heap[o.val.oid].et == "any":
                    # an empty untyped list: every statement about its elements is vacuous
                    g = z3.BoolVal(True) if e.strip().startswith("forall") else zb(holds(e, extra))
                else:
                    raise
            obls.append(Obl("ensures", 0, s.hyps(), g, e, c.func))
        for k, v in args0.items():
            if isinstance(v, Ref) and k not in c.modifies:
                a, b = heap0[v.oid], s.heap[v.oid]
                if a is not b:
                    kx = z3.Int("fr")
                    same = [z3.Select(a.v, kx) == z3.Select(b.v, kx)]
                    for p in ("nan", "pi", "ni"):
                        x, y = getattr(a, p), getattr(b, p)
                        if x is y:
                            continue
                        gx = zb(x) if isinstance(x, bool) else z3.Select(x, kx)
                        gy = zb(y) if isinstance(y, bool) else z3.Select(y, kx)
                        same.append(gx == gy)
                    g = z3.ForAll([kx], z3.Implies(z3.And(0 <= kx, kx < zi(a.shape[0])), z3.And(*same)))
                    obls.append(Obl("frame", 0, s.hyps(), g, f"argument {k} is not modified", c.func))
    if nret == 0:
        raise Unsupported("no normal outcome")
    # canary: the machinery must not be able to prove falsehood at a return
    for o in outs:
        if o.kind in ("return", "normal"):
            r = prove.satisfiable(o.st.hyps(), 1500)
            res.vacuity.append((f"return {case}", r))
            if r == "unsat" and sum(1 for q in outs if q.kind in ("return", "normal")) == 1:
                ob = Obl("vacuity", 0, [], z3.BoolVal(False), "contradictory path facts at return", c.func)
                ob.status, ob.backend = "failed", "z3"
                obls.append(ob)
    res.obls += obls


def lemma(ex, st, text, env, obls, c):
    """'induct(lo, hi, lambda m: P(m))' : proved by induction on m, then available as a fact"""
    n = parse_expr(text)
    sv = SpecEval(env, ex)
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "induct"):
        g = zb(sv.truth(sv.ev(n)))
        obls.append(Obl("lemma", 0, st.hyps(), g, text, c.func))
        st.fact(g)
        return
    lo, hi = sv.ev(n.args[0]), sv.ev(n.args[1])
    lam = n.args[2]

    def P(m):
        e = dict(env)
        e[lam.args.args[0].arg] = m
        s = SpecEval(e, ex)
        return zb(s.truth(s.ev(lam.body)))
    m = fresh("ind", I)
    obls.append(Obl("lemma-base", 0, st.hyps() + [zi(lo) <= zi(hi)], P(lo), text, c.func))
    obls.append(Obl("lemma-step", 0, st.hyps() + [zi(lo) <= m, m < zi(hi), P(m)], P(iadd(m, 1)), text, c.func))
    k = fresh("ind", I)
    st.fact(z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k <= zi(hi)), P(k))))
    st.fact(z3.Implies(zi(lo) <= zi(hi), P(hi)))
