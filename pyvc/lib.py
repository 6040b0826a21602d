"""Assumed contracts of the library functions the kernels call (numpy, math, builtins, numba typed lists).

Each entry below is part of the trusted base.
"""
import ast

import z3

from . import dsl
from .specsym import *
from .sym import *

USED = set()

SCALAR = {
    "math.log": "log_", "np.log": "log_", "math.exp": "exp_", "np.exp": "exp_", "math.sqrt": "sqrt_", "np.sqrt": "sqrt_",
    "np.sin": "sin_", "math.sin": "sin_", "np.cos": "cos_", "math.cos": "cos_",
    "np.log1p": "log1p_", "math.log1p": "log1p_", "np.isnan": "isnan", "math.isnan": "isnan", "np.isinf": "isinf", "math.isinf": "isinf",
    "np.isfinite": "isfinite", "math.isfinite": "isfinite", "abs": "abs", "np.abs": "abs", "np.absolute": "abs", "math.fabs": "abs",
    "np.fabs": "abs",
}
DT = {"np.int64": "int64", "np.int32": "int32", "np.int16": "int16", "np.int8": "int8", "np.uint8": "uint8", "np.uint16": "uint16",
      "np.uint32": "uint32", "np.uint64": "uint64", "np.float64": "float64", "np.float32": "float32", "np.bool_": "bool", "bool": "bool", "int": "int64", "float": "float64",
      "np.intp": "int64", "np.int_": "int64", "np.float_": "float64"}


def dt_et(d):
    if d is None:
        return None
    return "float" if d.startswith("float") else "bool" if d == "bool" else "int"


def parse_dtype(ex, node, st, fresh=False):
    if node is None:
        return None
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        t = "np." + node.value if "np." + node.value in DT else node.value
    else:
        t = ex.dotted(node) if isinstance(node, ast.Attribute) else None
        t = t or ast.unparse(node)
    if t in ("np.float16", "np.half", "np.single", "float16"):
        raise Unsupported("dtype " + t)
    if t in DT:
        if DT[t] == "float32":
            single(ex, st, node, fresh)
        return DT[t]
    if isinstance(node, ast.Attribute) and node.attr == "dtype":
        v = ex.ev(node.value, st)
        if isinstance(v, Ref):
            a = st.heap[v.oid]
            return a.dtype or {"int": "int64", "float": "float64", "bool": "bool"}[a.et]
    raise Unsupported("dtype " + t)


def kwargs(n):
    return {k.arg: k.value for k in n.keywords}


# (positional arguments, keywords) modelled per function; anything else is outside the fragment
ONE = (1, 1, ())
FORMS = {
    "len": ONE, "max": (2, 9, ()), "min": (2, 9, ()), "int": ONE, "float": ONE, "bool": ONE, "list": (0, 1, ()), "List": (0, 0, ()),
    "print": (0, 9, ()), "sum": ONE, "abs": ONE, "pow": (2, 2, ()), "round": (1, 2, ("decimals",)),
    "np.round": (1, 2, ("decimals",)), "np.around": (1, 2, ("decimals",)), "np.power": (2, 2, ()), "math.pow": (2, 2, ()),
    "np.sum": (1, 1, ("dtype", "axis")), "np.mean": (1, 1, ("axis",)), "np.percentile": (2, 2, ()), "np.dot": (2, 2, ()),
    "np.max": (1, 1, ("axis",)), "np.min": (1, 1, ("axis",)),
    "np.zeros": (0, 2, ("shape", "dtype")), "np.ones": (0, 2, ("shape", "dtype")), "np.empty": (0, 2, ("shape", "dtype")),
    "np.full": (0, 3, ("shape", "fill_value", "dtype")), "np.zeros_like": (1, 2, ("dtype",)), "np.ones_like": (1, 2, ("dtype",)),
    "np.empty_like": (1, 2, ("dtype",)), "np.full_like": (1, 3, ("fill_value", "dtype")),
    "np.array": (1, 2, ("dtype",)), "np.asarray": (1, 2, ("dtype",)), "np.ascontiguousarray": (1, 2, ("dtype",)), "np.arange": (1, 3, ("dtype",)),
    "np.where": (1, 3, ()), "np.maximum": (2, 2, ()), "np.minimum": (2, 2, ()), "np.searchsorted": (2, 3, ("side",)), "np.digitize": (2, 2, ()),
    "numba.typed.List": (0, 0, ()), "isinstance": (2, 2, ()), "math.log": (1, 2, ()),
}
METHODS = {"append": ONE, "fill": ONE, "copy": (0, 0, ()), "ravel": (0, 0, ()), "flatten": (0, 0, ()), "astype": ONE, "sum": (0, 0, ("dtype", "axis")),
           "mean": (0, 0, ("axis",))}


def check_form(form, name, n):
    lo, hi, kws = form
    bad = [k.arg for k in n.keywords if k.arg not in kws]
    # on one-dimensional arrays axis=0 says nothing new
    bad += [k.arg for k in n.keywords if k.arg == "axis" and not (isinstance(k.value, ast.Constant) and k.value.value in (0, None))]
    if bad or not lo <= len(n.args) <= hi or any(isinstance(a, ast.Starred) for a in n.args):
        raise Unsupported(f"{name}: argument form {ast.unparse(n)}")


def summed(ex, st, v, dnode, n):
    """np.sum, with the accumulator type it was given"""
    r = asum(ex, st, v)
    d = parse_dtype(ex, dnode, st)
    if d is None:
        return r
    if dt_et(d) == "float":
        return to_fv(r)
    if dt_et(d) != "int" or isinstance(r, FV):
        raise Unsupported("sum with dtype " + d)
    return narrowed(ex, st, r, d, n)


def narrowed(ex, st, v, d, n):
    """a value kept in a fixed-width integer: it has to fit"""
    from .execsym import NARROW
    if d in NARROW:
        lo, hi = NARROW[d]
        e = b2i(v)
        ex.oblige(st, f"fits-{d}", And(icmp("<=", lo, e), icmp("<=", e, hi)), n)
    return v


def single(ex, st, n, fresh=False):
    """float32 arithmetic is only rounded, not modelled: it may only appear where the contract speaks of single precision, and there
    only as the type of fresh arrays (whose contents the contract states up to rounding), not as a conversion of existing values"""
    if not (ex.single_ok if fresh else ex.opts.get("single") == "any"):
        ex.oblige(st, "single-precision", zb(False), n)


def conv(et, v):
    """value converted to the element type"""
    if et == "float":
        return to_fv(v)
    if et == "bool":
        if is_bool(v):
            return v
        return icmp("!=", v, 0) if is_int(v) else Or(v.special, zb(v.v != 0))
    if isinstance(v, FV):
        return builtin("int", [v])
    return b2i(v)


def filled(ex, st, et, n, val, dtype):
    dtype = dtype if dtype in ("int8", "int16", "uint8", "uint16", "int32", "uint32", "uint64", "float32") else None
    shape = list(n) if isinstance(n, tuple) else [n]
    nd = len(shape)
    if nd > 2:
        raise Unsupported("3-D array")
    shape = [b2i(x) for x in shape]
    for x in shape:
        ex.oblige(st, "nonnegative-size", icmp(">=", x, 0))
    if val is None:
        v = fresh("uninit", arr_sort(et, nd))
        fl = {}
        if et == "float":
            fl = dict(nan=fresh("uninit_nan", flag_sort(nd)))
        return ex.alloc(st, Arr(et, v, shape, dtype=dtype, **fl))
    val = conv(et, val)
    if et == "float":
        fl = {p: (False if getattr(val, p) is False else KArr(nd, zb(getattr(val, p)))) for p in ("nan", "pi", "ni")}
        return ex.alloc(st, Arr("float", KArr(nd, val.v), shape, dtype=dtype, **fl))
    return ex.alloc(st, Arr(et, KArr(nd, zb(val) if et == "bool" else zi(val)), shape, dtype=dtype))


def apply_elem(ex, st, f, v, et=None):
    if isinstance(v, (Ref, Vec)):
        w = ex.vec_of(st, v)
        return Vec(w.n, lambda i: f(w.f(i)), et or w.et)
    return f(v)


def clean(ex, st, vec, lo, hi):
    """'real' if no cell of [lo, hi) is special, 'float' if some may be NaN (never infinite)"""
    k = fresh("cl", I)
    e = to_fv(fz_read(vec, k))
    rng = And(icmp("<=", lo, k), icmp("<", k, hi))
    def never(c):
        return c is False or ex.entails(st, z3.ForAll([k], zb(Implies(rng, Not(c)))))
    if not never(Or(e.pi, e.ni)):
        raise Unsupported("reduction over possibly infinite values")
    return "real" if never(e.nan) else "float"


def asum(ex, st, v):
    """sum of a vector as the recursive ghost function asum / isum"""
    base, lo, hi = window(ex, st, v)
    et = base.et if isinstance(base, Vec) else et_of(base)
    if et == "float":
        return apply_spec("asum" if clean(ex, st, base, lo, hi) == "real" else "nsum", [base, lo, hi])
    if et == "bool":
        return apply_spec("bcount", [base, lo, hi])
    return apply_spec("isum", [base, lo, hi])


def window(ex, st, v):
    """(frozen base, lo, hi) of an array value"""
    if isinstance(v, Vec) or (isinstance(v, Ref) and v.row is not None):
        vec = ex.vec_of(st, v)
        return vec, 0, vec.n
    fz = ex.freeze(st, v)
    return Fz(fz.arr), fz.off, iadd(fz.off, fz_len(fz))


def extreme(ex, st, base, lo, hi, is_max):
    if et_of(base) == "float":
        no_special(ex, st, base, lo, hi)
        return apply_spec("amax" if is_max else "amin", [base, lo, hi])
    return apply_spec("imax" if is_max else "imin", [base, lo, hi])


def no_special(ex, st, base, lo, hi):
    if et_of(base) == "float" and clean(ex, st, base, lo, hi) != "real":
        raise Unsupported("reduction over possibly NaN values")


def et_of(base):
    return base.et if isinstance(base, Vec) else base.arr.et


def call(ex, name, n, st):
    USED.add(name)
    kw = kwargs(n)
    A = lambda i: ex.ev(n.args[i], st)
    na = len(n.args)
    short = name.split(".")[-1]
    check_form(FORMS.get(name, ONE), name, n)

    if name == "len":
        return ex.length(st, A(0))
    if name in ("max", "min"):
        vs = [ex.ev(a, st) for a in n.args]
        if len(vs) == 1:
            raise Unsupported("max of a sequence")
        if any(isinstance(v, FV) for v in vs):
            vs = [to_fv(v) for v in vs]
        return builtin(name, vs)
    if name in SCALAR:
        f = SCALAR[name]
        v = A(0)
        et = "bool" if f in ("isnan", "isinf", "isfinite") else None
        if name.startswith("math.") and f == "log_":
            x = to_fv(v)
            ex.oblige(st, "log-domain", Or(x.nan, x.pi, zb(x.v > 0)), n)
        if f == "log_" and na > 1:
            raise Unsupported("log base")
        if f in ("log_", "exp_", "sqrt_", "log1p_", "sin_", "cos_"):
            return apply_elem(ex, st, lambda x: builtin(f, [to_fv(x)]), v, "float")
        return apply_elem(ex, st, lambda x: builtin(f, [x]), v, et)
    if name == "int" or (name in DT and dt_et(DT[name]) == "int"):
        v = A(0)
        if isinstance(v, FV):
            ex.oblige(st, "finite-to-int", Not(v.special), n)
        return narrowed(ex, st, builtin("int", [v]), DT[name], n)
    if name in ("float", "np.float64", "np.float32"):
        v = n.args[0]
        if name == "np.float32" and not (isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and abs(v.value) <= 2**24 and float(v.value).is_integer()):
            single(ex, st, n)
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            return fconst(float(v.value))
        return to_fv(A(0))
    if name in ("bool", "np.bool_"):
        return ex.truth(st, A(0))
    if name in ("round", "np.round", "np.rint", "np.around"):
        v = A(0)
        if na > 1 or "decimals" in kw:
            d = num(A(1)) if na > 1 else num(ex.ev(kw["decimals"], st))
            if d is None:
                return apply_elem(ex, st, lambda x: FV(z3.Function("uround", R, I, R)(to_fv(x).v, zi(A(1))), to_fv(x).nan), v, "float")
            sc = 10 ** d
            return apply_elem(ex, st, lambda x: fdiv(to_fv(builtin("round_", [fmul(to_fv(x), to_fv(sc))])), to_fv(sc)), v, "float")
        if not isinstance(v, (Ref, Vec)):
            x = to_fv(v)
            if not isinstance(v, FV):
                return v
            ex.oblige(st, "finite-to-int", Not(x.special), n)
            r = builtin("round_", [x])
            return r if name == "round" else to_fv(r)
        return apply_elem(ex, st, lambda x: to_fv(builtin("round_", [x])), v, "float")
    if name in ("np.floor", "math.floor", "np.ceil", "math.ceil"):
        f = "floor_" if short == "floor" else "ceil_"
        v = A(0)
        if not isinstance(v, (Ref, Vec)):
            x = to_fv(v)
            if name.startswith("math."):
                ex.oblige(st, "finite-to-int", Not(x.special), n)
                return builtin(f, [x])
            return FV(z3.ToReal(builtin(f, [x])), x.nan, x.pi, x.ni)
        return apply_elem(ex, st, lambda x: FV(z3.ToReal(builtin(f, [to_fv(x)])), to_fv(x).nan), v, "float")
    if name == "np.sign":
        def sg(x):
            if isinstance(x, FV):
                return FV(z3.If(x.v > 0, z3.RealVal(1), z3.If(x.v < 0, z3.RealVal(-1), z3.RealVal(0))), x.nan)
            return z3.If(zi(x) > 0, 1, z3.If(zi(x) < 0, -1, 0))
        return apply_elem(ex, st, sg, A(0))
    if name in ("pow", "np.power", "math.pow"):
        return arith(ast.Pow(), A(0), A(1))
    if name in ("sum", "np.sum"):
        v = A(0)
        if not isinstance(v, (Ref, Vec)):
            raise Unsupported("sum of a non-array")
        return summed(ex, st, v, kw.get("dtype"), n)
    if name == "np.nansum":
        v = ex.vec_of(st, A(0))

        def cell(i):
            x = to_fv(v.f(i))
            return If(x.nan, FV(z3.RealVal(0)), FV(x.v, False, x.pi, x.ni))
        return asum(ex, st, Vec(v.n, cell, "float"))
    if name == "np.mean":
        v = A(0)
        L = ex.length(st, v)
        if is_int(L):
            ex.oblige(st, "nonempty-mean", icmp("!=", L, 0), n)
        return fdiv(to_fv(asum(ex, st, v)), to_fv(L))
    if name == "np.median":
        base, lo, hi = window(ex, st, A(0))
        no_special(ex, st, base, lo, hi)
        return ext_apply("median_", base, lo, hi)
    if name in ("np.percentile",):
        base, lo, hi = window(ex, st, A(0))
        no_special(ex, st, base, lo, hi)
        return ext_apply("percentile_", base, lo, hi, [to_fv(A(1))])
    if name == "np.dot":
        a, b = ex.vec_of(st, A(0)), ex.vec_of(st, A(1))
        ex.oblige(st, "broadcast", icmp("==", a.n, b.n), n)
        return asum(ex, st, Vec(a.n, lambda i: arith(ast.Mult(), a.f(i), b.f(i)), "float" if "float" in (a.et, b.et) else "int"))
    if name in ("np.max", "np.min", "np.amax", "np.amin"):
        base, lo, hi = window(ex, st, A(0))
        ex.oblige(st, "nonempty", icmp("<", lo, hi), n)
        return extreme(ex, st, base, lo, hi, "max" in short)
    if name in ("np.argmax", "np.argmin"):
        base, lo, hi = window(ex, st, A(0))
        return argext(ex, st, base, lo, hi, "argmax" in name, n)
    if name == "np.cumsum":
        base, lo, hi = window(ex, st, A(0))
        f = "asum" if et_of(base) == "float" else "isum"
        if et_of(base) == "float" and clean(ex, st, base, lo, hi) != "real":
            f = "nsum"
        return Vec(isub(hi, lo), lambda i: apply_spec(f, [base, lo, iadd(iadd(lo, i), 1)]), et_of(base))
    if name in ("np.zeros", "np.ones", "np.empty", "np.full"):
        dnode = kw.get("dtype") or (n.args[2] if name == "np.full" and na > 2 else n.args[1] if name != "np.full" and na > 1 else None)
        val = None
        shp = ex.ev(kw["shape"], st) if "shape" in kw else A(0)
        if name == "np.full":
            val = ex.ev(kw["fill_value"], st) if "fill_value" in kw else A(1)
        d = parse_dtype(ex, dnode, st, True)
        if d is None:
            d = "float64" if name != "np.full" else ("float64" if isinstance(val, FV) else "bool" if is_bool(val) else "int64")
        if name == "np.zeros":
            val = 0
        if name == "np.ones":
            val = 1
        return filled(ex, st, dt_et(d), shp, val, d)
    if name in ("np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like"):
        a = A(0)
        dnode = kw.get("dtype") or (n.args[2] if name == "np.full_like" and na > 2 else n.args[1] if name != "np.full_like" and na > 1 else None)
        d = parse_dtype(ex, dnode, st, True)
        w = ex.vec_of(st, a)
        et = dt_et(d) or w.et
        val = {"np.zeros_like": 0, "np.ones_like": 1, "np.empty_like": None}.get(name, 0)
        if name == "np.full_like":
            val = ex.ev(kw["fill_value"], st) if "fill_value" in kw else A(1)
        return filled(ex, st, et, w.n, val, d)
    if name in ("np.array", "np.asarray", "np.ascontiguousarray", "np.copy"):
        if isinstance(n.args[0], (ast.List, ast.Tuple)):
            v = ex.list_from(st, [ex.ev(e, st) for e in n.args[0].elts], is_list=False)
        else:
            v = A(0)
        d = parse_dtype(ex, kw.get("dtype") or (n.args[1] if na > 1 else None), st)
        return as_type(ex, st, v, d, copy=True, node=n)
    if name == "np.arange":
        args = [ex.ev(a, st) for a in n.args]
        d = parse_dtype(ex, kw.get("dtype"), st)
        if any(isinstance(a, FV) for a in args):
            raise Unsupported("float arange")
        lo, hi, stp = (0, args[0], 1) if na == 1 else (args[0], args[1], 1) if na == 2 else args
        cnt = isub(hi, lo)
        if num(stp) != 1:
            ex.oblige(st, "positive-step", icmp(">", stp, 0), n)
            # ceil((hi-lo)/step)
            cnt = ifloordiv(iadd(isub(hi, lo), isub(stp, 1)), stp)
        ln = z3.If(zi(cnt) < 0, 0, zi(cnt)) if not ex.entails(st, icmp(">=", cnt, 0)) else cnt
        f = lambda i: iadd(lo, imul(i, stp))
        if d is not None and dt_et(d) == "float":
            return Vec(ln, lambda i: to_fv(f(i)), "float")
        w = Vec(ln, f, "int")
        from .execsym import NARROW
        if d in NARROW:
            fits(ex, st, w, d, n)
        return w
    if name == "np.where":
        if na == 1:
            raise Unsupported("np.where(mask)")
        m = A(0)
        a, b = A(1), A(2)
        mv = ex.vec_of(st, m)
        av = ex.vec_of(st, a) if isinstance(a, (Ref, Vec)) else None
        bv = ex.vec_of(st, b) if isinstance(b, (Ref, Vec)) else None
        et = lambda v, s: v.et if v else ("float" if isinstance(s, FV) else "bool" if is_bool(s) else "int")
        ta, tb = et(av, a), et(bv, b)
        t = ta if ta == tb else "float" if "float" in (ta, tb) else "int"
        return Vec(mv.n, lambda i: If(mv.f(i), av.f(i) if av else a, bv.f(i) if bv else b), t)
    if name in ("np.maximum", "np.minimum"):
        a, b = A(0), A(1)

        def mm(x, y):
            if isinstance(x, FV) or isinstance(y, FV):
                x, y = to_fv(x), to_fv(y)
                c = fcmp(">" if short == "maximum" else "<", x, y)
                r = If(c, x, y)
                return FV(r.v, Or(x.nan, y.nan), And(r.pi, Not(Or(x.nan, y.nan))), And(r.ni, Not(Or(x.nan, y.nan))))
            return If(icmp(">" if short == "maximum" else "<", x, y), x, y)
        if isinstance(a, (Ref, Vec)) or isinstance(b, (Ref, Vec)):
            return ex.vec2(st, a, b, mm, None, n)
        return mm(a, b)
    if name == "np.searchsorted":
        return searchsorted(ex, st, n, kw)
    if name == "np.digitize" and na == 2 and not kw:
        # increasing bins: bins[r - 1] <= x < bins[r]
        x, b = A(0), A(1)
        return sorted_position(ex, st, b, x, "right", n)
    if name == "np.unique" and na == 1 and not kw:
        base, lo, hi = window(ex, st, A(0))
        if et_of(base) != "int":
            raise Unsupported("np.unique of non-integers")
        m = fresh("nuniq", I)
        u = fresh("uniq", arr_sort("int"))
        src, dst = fresh("uniqsrc", arr_sort("int")), fresh("uniqdst", arr_sort("int"))
        k, j = fresh("uk", I), fresh("uj", I)
        L = zi(isub(hi, lo))
        S = z3.Select
        rd = lambda i: zi(fz_read(base, iadd(lo, i)))
        st.fact(z3.And(0 <= m, m <= L, z3.Implies(L > 0, m > 0)))
        st.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.ForAll([j], z3.Implies(z3.And(k < j, j < m), S(u, k) < S(u, j))))))
        st.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= S(src, k), S(src, k) < L, S(u, k) == rd(S(src, k))))))
        st.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L), z3.And(0 <= S(dst, k), S(dst, k) < m, S(u, S(dst, k)) == rd(k)))))
        return ex.alloc(st, Arr("int", u, [m]))
    if name == "np.diff":
        w = ex.vec_of(st, A(0))
        ln = isub(w.n, 1)
        return Vec(z3.If(zi(w.n) < 1, 0, zi(ln)), lambda i: arith(ast.Sub(), w.f(iadd(i, 1)), w.f(i)), w.et)
    if name in ("np.any", "np.all"):
        w = ex.vec_of(st, A(0))
        if w.et != "bool":
            raise Unsupported("any/all of non-bool")
        k = fresh("any", I)
        b = w.f(k)
        rng = And(icmp("<=", 0, k), icmp("<", k, w.n))
        r = fresh("anyall", B)
        wit = fresh("anywit", I)      # a witness cell for the deciding direction
        at = lambda t: zb(And(And(icmp("<=", 0, t), icmp("<", t, w.n)), w.f(t) if short == "any" else Not(w.f(t))))
        if short == "any":
            st.fact(z3.Implies(r, at(wit)))
            st.fact(z3.ForAll([k], z3.Implies(z3.Not(r), zb(Implies(rng, Not(b))))))
        else:
            st.fact(z3.Implies(z3.Not(r), at(wit)))
            st.fact(z3.ForAll([k], z3.Implies(r, zb(Implies(rng, b)))))
        return r
    if name in ("numba.typed.List", "List", "list") and na == 0:
        from .sym import Arr as _A
        return ex.alloc(st, _A("any", None, [0], is_list=True))
    if name == "list" and na == 1:
        return as_type(ex, st, A(0), None, copy=True, node=n, is_list=True)
    if name in ("isinstance",):
        raise Unsupported("isinstance")
    if name in ("print",):
        return None
    raise Unsupported("library function " + name)


def as_type(ex, st, v, d, copy, node, is_list=False):
    if isinstance(v, tuple):
        v = ex.list_from(st, list(v), is_list=False)
    if isinstance(v, Ref) and st.heap[v.oid].et == "any":
        et = dt_et(d) or "float"
        a = Arr(et, fresh("empty", arr_sort(et)), [0], dtype=d, is_list=is_list)
        return ex.alloc(st, a)
    et = dt_et(d)
    narrow = d if d in ("int8", "int16", "uint8", "uint16", "int32", "uint32", "uint64") else None
    if isinstance(v, Ref) and v.whole() and st.heap[v.oid].nd == 1:
        a = st.heap[v.oid]
        if et in (None, a.et):
            if narrow and a.dtype != narrow and a.et == "int":
                fits(ex, st, ex.vec_of(st, v), narrow, node)
            return ex.alloc(st, a.rep(is_list=is_list, dtype=narrow or ("float32" if d == "float32" else None) if d else a.dtype))
    w = ex.vec_of(st, v)
    if et in (None, w.et):
        if narrow and w.et == "int":
            fits(ex, st, w, narrow, node)
        r = ex.materialise(st, w, "float32" if d == "float32" else narrow)
        if is_list:
            st.heap[r.oid] = st.heap[r.oid].rep(is_list=True)
        return r
    f = w
    if et == "int" and w.et == "float":
        k = fresh("ci", I)
        x = to_fv(w.f(k))
        ex.oblige(st, "finite-to-int", zb(True) if x.special is False else z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(w.n)), zb(Not(x.special)))), node)
    u = Vec(w.n, lambda i: conv(et, w.f(i)), et)
    if narrow and et == "int":
        fits(ex, st, u, narrow, node)
    return ex.materialise(st, u, "float32" if d == "float32" else narrow)


def fits(ex, st, w, d, node):
    from .execsym import NARROW
    lo, hi = NARROW[d]
    k = fresh("fit", I)
    e = zi(w.f(k))
    ex.oblige(st, f"fits-{d}", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(w.n)), z3.And(lo <= e, e <= hi))), node)


def argext(ex, st, base, lo, hi, is_max, n):
    """first index of the extreme value (relative to lo)"""
    ex.oblige(st, "nonempty", icmp("<", lo, hi), n)
    r = fresh("argx", I)
    rd = lambda i: fz_read(base, i)
    k = fresh("ax", I)
    at = rd(iadd(lo, r))
    st.fact(And(r >= 0, icmp("<", iadd(lo, r), hi)))
    cmp_le = compare(ast.LtE() if is_max else ast.GtE(), rd(k), at)
    cmp_lt = compare(ast.Lt() if is_max else ast.Gt(), rd(k), at)
    st.fact(z3.ForAll([k], zb(Implies(And(icmp("<=", lo, k), icmp("<", k, hi)), cmp_le))))
    st.fact(z3.ForAll([k], zb(Implies(And(icmp("<=", lo, k), icmp("<", k, iadd(lo, r))), cmp_lt))))
    return r


def searchsorted(ex, st, n, kw):
    a = ex.ev(n.args[0], st)
    v = ex.ev(n.args[1], st)
    side = "left"
    if "side" in kw:
        side = ast.literal_eval(kw["side"])
    elif len(n.args) > 2:
        side = ast.literal_eval(n.args[2])
    return sorted_position(ex, st, a, v, side, n)


def sorted_position(ex, st, a, v, side, n):
    base, lo, hi = window(ex, st, a)
    # the array must be sorted
    i, j = fresh("ss", I), fresh("ss", I)
    srt = z3.ForAll([i, j], zb(Implies(And(icmp("<=", lo, i), i <= j, icmp("<", j, hi)), compare(ast.LtE(), fz_read(base, i), fz_read(base, j)))))
    ex.oblige(st, "searchsorted-sorted", srt, n)
    L = isub(hi, lo)
    below = ast.LtE() if side == "right" else ast.Lt()

    def axioms(r, x):
        k = fresh("sk", I)
        e = fz_read(base, iadd(lo, k))
        return And(icmp("<=", 0, r), icmp("<=", r, L),
                   z3.ForAll([k], zb(Implies(And(icmp("<=", 0, k), icmp("<", k, r)), compare(below, e, x)))),
                   z3.ForAll([k], zb(Implies(And(icmp("<=", r, k), icmp("<", k, L)), Not(compare(below, e, x))))))
    if isinstance(v, (Ref, Vec)):
        vv = ex.vec_of(st, v)
        out = fresh("ssr", arr_sort("int"))
        m = fresh("sm", I)
        st.fact(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < zi(vv.n)), zb(axioms(z3.Select(out, m), vv.f(m)))), patterns=[z3.Select(out, m)]))
        return ex.alloc(st, Arr("int", out, [vv.n]))
    r = fresh("ssr", I)
    st.fact(axioms(r, v))
    return r


def method(ex, n, st):
    f = n.func
    obj = ex.ev(f.value, st)
    m = f.attr
    kw = kwargs(n)
    USED.add("." + m)
    check_form(METHODS.get(m, (0, 0, ())), "." + m, n)
    if isinstance(obj, (Ref, Vec)):
        if m == "append":
            return append(ex, st, obj, ex.ev(n.args[0], st), n)
        if m == "fill":
            ex.store_range(st, obj, ex.ev(n.args[0], st), n)
            return None
        if m in ("copy", "ravel", "flatten"):
            if isinstance(obj, Ref) and obj.whole():
                return ex.alloc(st, st.heap[obj.oid])
            return ex.materialise(st, ex.vec_of(st, obj))
        if m == "astype":
            d = parse_dtype(ex, n.args[0], st)
            return as_type(ex, st, obj, d, True, n)
        if m == "sum":
            return summed(ex, st, obj, kw.get("dtype"), n)
        if m == "mean":
            L = ex.length(st, obj)
            ex.oblige(st, "nonempty-mean", icmp("!=", L, 0), n)
            return fdiv(to_fv(asum(ex, st, obj)), to_fv(L))
        if m in ("max", "min"):
            base, lo, hi = window(ex, st, obj)
            ex.oblige(st, "nonempty", icmp("<", lo, hi), n)
            return extreme(ex, st, base, lo, hi, m == "max")
        if m in ("argmax", "argmin"):
            base, lo, hi = window(ex, st, obj)
            return argext(ex, st, base, lo, hi, m == "argmax", n)
        if m == "any" and not n.args:
            return call(ex, "np.any", ast.Call(func=f, args=[f.value], keywords=[]), st)
        if m == "all" and not n.args:
            return call(ex, "np.all", ast.Call(func=f, args=[f.value], keywords=[]), st)
        if m == "cumsum":
            base, lo, hi = window(ex, st, obj)
            fn = "asum" if et_of(base) == "float" else "isum"
            return Vec(isub(hi, lo), lambda i: apply_spec(fn, [base, lo, iadd(iadd(lo, i), 1)]), et_of(base))
    raise Unsupported("method ." + m)


def append(ex, st, ref, v, n):
    a = st.heap[ref.oid]
    if not a.is_list:
        raise Unsupported("append to an array")
    ln = a.shape[0]
    if isinstance(v, Vec):
        v = ex.materialise(st, v)
    if isinstance(v, Ref):
        inner = st.heap[v.oid]
        ex.shared.add(v.oid)
        if inner.nd != 1 or not v.whole():
            raise Unsupported("append of a window")
        if inner.et == "float" and not (inner.nan is False):
            raise Unsupported("list of arrays with NaN")
        if a.et == "any":
            srt = arr_sort(inner.et)
            a = Arr("arr", fresh("larr", z3.ArraySort(I, srt)), [0], is_list=True, lens=fresh("llens", arr_sort("int")), iet=inner.et)
        if a.et != "arr" or a.iet != inner.et:
            raise Unsupported("mixed list")
        st.heap[ref.oid] = a.rep(v=z3.Store(a.v, zi(ln), inner.v), lens=z3.Store(a.lens, zi(ln), zi(inner.shape[0])), shape=[iadd(ln, 1)])
        return None
    if v is None or isinstance(v, (str, tuple)):
        raise Unsupported("append of a non-number")
    if a.et == "any":
        et = "float" if isinstance(v, FV) else "bool" if is_bool(v) else "int"
        a = Arr(et, fresh("lst", arr_sort(et)), [0], is_list=True)
        st.heap[ref.oid] = a
    if a.et == "int" and isinstance(v, FV):
        raise Unsupported("float appended to an int list")
    st.heap[ref.oid] = a.rep(shape=[iadd(ln, 1)])
    ex.store(st, ref, [ln], v, n)
    return None
