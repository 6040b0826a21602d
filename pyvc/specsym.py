"""Symbolic meaning of the contract language: expressions and spec functions become SMT terms."""
import ast
import inspect
import textwrap

import z3

from . import dsl
from .sym import *

I_ = z3.IntSort()


class Fz:
    """frozen array view: contents at one program point"""
    __slots__ = ("arr", "off", "ln", "row")

    def __init__(self, arr, off=0, ln=None, row=None):
        self.arr, self.off, self.ln, self.row = arr, off, ln, row


class AnyFV(FV):
    """element of an empty list: it may stand for a number or an array, and no cell of it is ever read"""
    __slots__ = ()


def fz_len(a):
    if isinstance(a, Vec):
        return a.n
    if a.ln is not None:
        return a.ln
    if a.row is not None:
        return a.arr.shape[1]
    return a.arr.shape[0]


def arr_read(arr, idx):
    """element of an Arr; idx a list of int terms"""
    ix = [zi(i) for i in idx]
    if arr.et == "any":
        return FV(z3.RealVal(0))
    if arr.et == "arr":
        raise Unsupported("array element read needs a nested read")
    if arr.et == "float":
        g = lambda p: p if isinstance(p, bool) else sel(p, *ix)
        return FV(sel(arr.v, *ix), g(arr.nan), g(arr.pi), g(arr.ni))
    return sel(arr.v, *ix)


def fz_read(a, i):
    if isinstance(a, Vec):
        return a.f(i)
    arr = a.arr
    if arr.et == "any":
        return AnyFV(z3.RealVal(0))
    if arr.et == "arr":
        inner = Arr(arr.iet, sel(arr.v, zi(i)), [sel(arr.lens, zi(i))])
        return Fz(inner)
    if arr.nd == 2:
        if a.row is not None:
            return arr_read(arr, [a.row, iadd(a.off, i)])
        return Fz(arr, 0, None, i)
    return arr_read(arr, [iadd(a.off, i)])


# ------------------------------------------------------------------ spec functions
class SymSpec:
    def __init__(self, sf):
        self.sf = sf
        src = textwrap.dedent(inspect.getsource(sf.fn))
        self.node = ast.parse(src).body[0]
        self.params = [a.arg for a in self.node.args.args]
        assert len(self.params) == len(sf.ptypes), sf.name
        self.body = [s for s in self.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        self.calls = {n.func.id for n in ast.walk(self.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        self.decls = None

    def make_decls(self):
        if self.decls is not None:
            return
        sig = []
        for t in self.sf.ptypes:
            sig += TYPE_SORTS[t]()
        self.decls = {}
        for plane, sort in RET_PLANES[self.sf.rtype].items():
            self.decls[plane] = z3.Function(f"{self.sf.name}.{plane}", *sig, sort)
            DECLS[f"{self.sf.name}.{plane}"] = (self, plane)


AS = lambda s: z3.ArraySort(I_, s)
TYPE_SORTS = {
    "int": lambda: [I], "real": lambda: [R], "bool": lambda: [B], "float": lambda: [R, B], "xfloat": lambda: [R, B, B, B],
    "A_int": lambda: [AS(I)], "A_real": lambda: [AS(R)], "A_bool": lambda: [AS(B)], "A_float": lambda: [AS(R), AS(B)],
    "A_xfloat": lambda: [AS(R), AS(B), AS(B), AS(B)],
    "A2_real": lambda: [z3.ArraySort(I, I, R)],
}
RET_PLANES = {"int": {"v": I}, "bool": {"v": B}, "real": {"v": R}, "float": {"v": R, "nan": B},
              "xfloat": {"v": R, "nan": B, "pi": B, "ni": B}}
DECLS = {}
_sym = {}
_rec = {}


def symspec(name):
    if name not in _sym:
        _sym[name] = SymSpec(dsl.SPECS[name])
    return _sym[name]


def is_recursive(name):
    if name in _rec:
        return _rec[name]
    if dsl.SPECS[name].macro:
        return False
    # is name reachable from itself
    seen, todo = set(), [name]
    rec = False
    while todo:
        n = todo.pop()
        for c in symspec(n).calls:
            if c in dsl.SPECS:
                if c == name:
                    rec = True
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
    _rec[name] = rec
    return rec


_VK = [0]


def plane_arr(a, want_float=False):
    """(v, nan, pi, ni) whole arrays for a Fz, shifted if it is a window"""
    if isinstance(a, Vec):
        k = z3.Int(f"vk!{_VK[0]}")
        _VK[0] += 1
        try:
            e = a.f(k)
        finally:
            _VK[0] -= 1
        if a.et == "float":
            e = to_fv(e)
            g = lambda p: p if isinstance(p, bool) else lam(k, p)
            return (lam(k, e.v), g(e.nan), g(e.pi), g(e.ni))
        return (lam(k, zb(e) if is_bool(e) else zi(e)), False, False, False)
    arr = a.arr
    if num(a.off) == 0 and a.row is None and arr.nd == 1 or arr.nd == 2 and a.row is None:
        return arr.v, arr.nan, arr.pi, arr.ni
    k = z3.Int("shk")
    ix = [zi(a.row), k + zi(a.off)] if a.row is not None else [k + zi(a.off)]
    sh = lambda p: p if isinstance(p, bool) else lam(k, sel(p, *ix))
    return sh(arr.v), sh(arr.nan), sh(arr.pi), sh(arr.ni)


def encode_arg(t, x):
    if t == "int":
        if isinstance(x, FV):
            raise Unsupported("float passed for int spec parameter")
        if is_bool(x):
            x = If(x, 1, 0)
        return [zi(x)]
    if t == "bool":
        return [zb(x)]
    if t == "real":
        return [to_fv(x).v]
    if t == "float":
        f = to_fv(x)
        return [f.v, zb(f.nan)]
    if t == "xfloat":
        f = to_fv(x)
        return [f.v, zb(f.nan), zb(f.pi), zb(f.ni)]
    if t.startswith("A_") or t.startswith("A2_"):
        if isinstance(x, AnyFV):
            x = Fz(Arr("any", None, [0], is_list=True))
        if not isinstance(x, (Fz, Vec)):
            raise Unsupported("array expected")
        et = x.et if isinstance(x, Vec) else x.arr.et
        base = t.split("_")[1]
        if et in ("any",):
            # an empty list: no cell of it is ever read, so any contents will do
            if not t.startswith("A_"):
                raise Undefined("untyped")
            et = {"int": "int", "bool": "bool"}.get(base, "float")
            v, nan, pi, ni = KArr(1, {"int": z3.IntVal(0), "bool": z3.BoolVal(False)}.get(et, z3.RealVal(0))), False, False, False
        else:
            v, nan, pi, ni = plane_arr(x)
        if base in ("real", "float", "xfloat") and et in ("int", "bool"):
            k = z3.Int("tok")
            v = lam(k, to_fv(sel(v, k)).v)
        elif base == "int" and et == "bool":
            k = z3.Int("tok")
            v = lam(k, z3.If(sel(v, k), z3.IntVal(1), z3.IntVal(0)))
        elif base in ("int", "bool") and et != base:
            raise Unsupported(f"array of {et} passed for {t}")
        fl = lambda p: KArr(1, z3.BoolVal(p)) if isinstance(p, bool) else p
        if base == "float":
            return [v, fl(nan)]
        if base == "xfloat":
            return [v, fl(nan), fl(pi), fl(ni)]
        return [v]
    raise Unsupported(t)


def _unb(p):
    """a flag array that is constantly b, as the Python bool"""
    if not isinstance(p, bool) and z3.is_K(p):
        c = p.arg(0)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
    return p


def _ub(x):
    return True if z3.is_true(x) else False if z3.is_false(x) else x


def decode_args(ptypes, zargs):
    out, i = [], 0
    for t in ptypes:
        n = len(TYPE_SORTS[t]())
        z = zargs[i:i + n]
        i += n
        if t == "int":
            out.append(fold_i(z[0]))
        elif t == "bool":
            out.append(_ub(z[0]))
        elif t == "real":
            out.append(FV(z[0]))
        elif t == "float":
            out.append(FV(z[0], _ub(z[1])))
        elif t == "xfloat":
            out.append(FV(z[0], _ub(z[1]), _ub(z[2]), _ub(z[3])))
        else:
            base = t.split("_")[1]
            et = {"real": "float", "float": "float", "xfloat": "float", "int": "int", "bool": "bool"}[base]
            fl = [_unb(p) for p in z[1:]] + [False] * (4 - len(z))
            shape = [None, None] if t.startswith("A2_") else [None]
            out.append(Fz(Arr(et, z[0], shape, *fl[:3])))
    return out


def apply_spec(name, args):
    sp = symspec(name)
    if len(args) != len(sp.params):
        raise Unsupported(f"spec {name}: wrong arity")
    if not is_recursive(name):
        cargs = []
        for t, a in zip(sp.sf.ptypes, args):
            cargs.append(to_fv(a) if t in ("real", "float", "xfloat") else a)
        env = dict(zip(sp.params, cargs))
        return coerce_ret(sp.sf.rtype, SpecEval(env, None).body(sp.body))
    sp.make_decls()
    z = []
    for t, a in zip(sp.sf.ptypes, args):
        z += encode_arg(t, a)
    p = {k: d(*z) for k, d in sp.decls.items()}
    rt = sp.sf.rtype
    if rt in ("int", "bool"):
        return p["v"]
    return FV(p["v"], p.get("nan", False), p.get("pi", False), p.get("ni", False))


def coerce_ret(rt, v):
    if rt in ("real", "float", "xfloat"):
        return to_fv(v)
    return v


def unfold(app):
    """definitional equation of a ground spec application"""
    sp, plane = DECLS[app.decl().name()]
    args = decode_args(sp.sf.ptypes, [app.arg(i) for i in range(app.num_args())])
    val = coerce_ret(sp.sf.rtype, SpecEval(dict(zip(sp.params, args)), None).body(sp.body))
    if sp.sf.rtype in ("int", "bool"):
        rhs = zi(val) if sp.sf.rtype == "int" else zb(val)
    else:
        rhs = val.v if plane == "v" else zb(getattr(val, plane))
    return app == rhs


# ext functions (uninterpreted, extensional)
EXT = {}


def ext_fn(name, extra):
    if name not in EXT:
        EXT[name] = z3.Function("ext_" + name, AS(R), I, I, *extra, R)
    return EXT[name]


def ext_apply(name, a, lo, hi, extra=()):
    v, nan, pi, ni = plane_arr(a)
    et = a.et if isinstance(a, Vec) else a.arr.et
    if et != "float":
        k = z3.Int("tok")
        v = lam(k, to_fv(sel(v, k)).v)
    f = ext_fn(name, [R] * len(extra))
    return FV(f(v, zi(lo), zi(hi), *[to_fv(e).v for e in extra]))


class ChainEnv(dict):
    """an environment extended without copying its base"""

    def __init__(self, base):
        super().__init__()
        self.base = base

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.base

    def __missing__(self, k):
        return self.base[k]


# ------------------------------------------------------------------ expressions
class SpecEval:
    """Total, side-effect-free evaluation of a contract expression over an environment of values."""

    def __init__(self, env, host):
        self.env, self.host = env, host

    def body(self, stmts):
        for n, s in enumerate(stmts):
            if isinstance(s, ast.Return):
                return self.ev(s.value)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.env = ChainEnv(self.env)
                self.env[s.targets[0].id] = self.ev(s.value)
                continue
            if isinstance(s, ast.If):
                c = self.truth(self.ev(s.test))
                rest = stmts[n + 1:]
                if is_true(c):
                    return SpecEval(self.env, self.host).body(s.body + rest)
                if is_false(c):
                    return SpecEval(self.env, self.host).body(s.orelse + rest)
                a = SpecEval(self.env, self.host).body(s.body + rest)
                b = SpecEval(self.env, self.host).body(s.orelse + rest)
                return If(c, a, b)
            if isinstance(s, ast.Expr):
                continue
            raise Unsupported("spec statement " + ast.unparse(s))
        raise Unsupported("spec body without return")

    def truth(self, v):
        if is_bool(v):
            return v
        if isinstance(v, FV):
            return Or(v.special, zb(v.v != 0))
        if is_int(v):
            return icmp("!=", v, 0)
        raise Unsupported("truth value")

    def expr(self, text):
        return self.ev(parse_expr(text))

    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("spec expression " + type(n).__name__)
        return m(n)

    def e_Expression(self, n):
        return self.ev(n.body)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return fconst(v)
        raise Unsupported("constant")

    def e_Name(self, n):
        if n.id in self.env:
            v = self.env[n.id]
            if v is UNDEF:
                raise Undefined(n.id)
            return v
        if n.id == "nan":
            return fconst(float("nan"))
        if n.id == "inf":
            return fconst(float("inf"))
        raise Undefined(n.id)

    def e_Attribute(self, n):
        t = ast.unparse(n)
        if t in ("math.nan", "np.nan"):
            return fconst(float("nan"))
        if t in ("math.inf", "np.inf"):
            return fconst(float("inf"))
        raise Unsupported(t)

    def e_Tuple(self, n):
        return tuple(self.ev(e) for e in n.elts)

    def e_BoolOp(self, n):
        vs = []
        for e in n.values:
            v = self.truth(self.ev(e))
            if isinstance(n.op, ast.And) and is_false(v):
                return False
            if isinstance(n.op, ast.Or) and is_true(v):
                return True
            vs.append(v)
        return And(*vs) if isinstance(n.op, ast.And) else Or(*vs)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(n.op, ast.USub):
            return fneg(v) if isinstance(v, FV) else ineg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if is_true(c):
            return self.ev(n.body)
        if is_false(c):
            return self.ev(n.orelse)
        return If(c, self.ev(n.body), self.ev(n.orelse))

    def e_Compare(self, n):
        l = self.ev(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            r = self.ev(r)
            out.append(compare(op, l, r))
            l = r
        return And(*out)

    def e_BinOp(self, n):
        return arith(n.op, self.ev(n.left), self.ev(n.right), spec=True)

    def e_Subscript(self, n):
        a = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            raise Unsupported("slice in spec")
        i = self.ev(n.slice)
        if isinstance(a, tuple):
            k = num(i) if not isinstance(i, bool) else None
            if k is None or not -len(a) <= k < len(a):
                raise Undefined("tuple index")
            return a[k]
        if isinstance(a, (Fz, Vec)):
            if isinstance(i, tuple):
                return arr_read(a.arr, list(i))
            if isinstance(i, FV) or is_bool(i):
                raise Unsupported("array index")
            k = num(i)
            if k is not None and k < 0 and fz_len(a) is not None:
                i = iadd(fz_len(a), k)
            return fz_read(a, i)
        if isinstance(a, AnyFV):
            return FV(z3.RealVal(0))
        raise Undefined("subscript of a non-array")

    def e_Lambda(self, n):
        return n

    def e_Call(self, n):
        if not isinstance(n.func, ast.Name):
            raise Unsupported("spec call " + ast.unparse(n))
        f = n.func.id
        if f in ("forall", "exists"):
            lo, hi = self.ev(n.args[0]), self.ev(n.args[1])
            if isinstance(lo, FV) or isinstance(hi, FV):
                raise Unsupported("quantifier over a float range")
            lam = n.args[2]
            b = fresh("q_" + lam.args.args[0].arg, I)
            env = ChainEnv(self.env)
            env[lam.args.args[0].arg] = b
            body = SpecEval(env, self.host)
            bv = body.truth(body.ev(lam.body))
            if f == "forall":
                full = Implies(And(icmp("<=", lo, b), icmp("<", b, hi)), bv)
                if isinstance(full, bool):
                    return full
                return z3.ForAll([b], full)
            full = And(icmp("<=", lo, b), icmp("<", b, hi), bv)
            if isinstance(full, bool):
                return full
            return z3.Exists([b], full)
        if f == "implies":
            a = self.truth(self.ev(n.args[0]))
            if is_false(a):
                return True
            return Implies(a, self.truth(self.ev(n.args[1])))
        if f == "ite":
            return self.e_IfExp(ast.IfExp(test=n.args[0], body=n.args[1], orelse=n.args[2]))
        if f in ("sumof", "countof", "nsumof"):
            lo, hi = self.ev(n.args[0]), self.ev(n.args[1])
            lam = n.args[2]

            def elem(b):
                env = ChainEnv(self.env)
                env[lam.args.args[0].arg] = b
                sv = SpecEval(env, self.host)
                return sv.truth(sv.ev(lam.body)) if f == "countof" else to_fv(sv.ev(lam.body))
            return apply_spec({"sumof": "asum", "nsumof": "nsum", "countof": "bcount"}[f], [Vec(hi, elem, "bool" if f == "countof" else "float"), lo, hi])
        args = [self.ev(a) for a in n.args]
        if f == "len":
            if isinstance(args[0], tuple):
                return len(args[0])
            if isinstance(args[0], AnyFV):
                return 0
            if not isinstance(args[0], (Fz, Vec)):
                raise Undefined("len of a scalar")
            r = fz_len(args[0])
            if r is None:
                raise Unsupported("len of a spec array parameter")
            return r
        if f == "same":
            a, b = args[0], args[1]
            if isinstance(a, (Fz, Vec, tuple)) or isinstance(b, (Fz, Vec, tuple)) or a is None or b is None:
                raise Undefined("same on arrays")
            if isinstance(a, FV) or isinstance(b, FV):
                return same_fv(to_fv(a), to_fv(b))
            if is_bool(a) and is_bool(b):
                return iff(a, b)
            return icmp("==", If(a, 1, 0) if is_bool(a) else a, If(b, 1, 0) if is_bool(b) else b)
        if f == "leq":
            return compare(ast.LtE(), args[0], args[1])
        if f == "shape":
            return args[0].arr.shape[num(args[1])]
        if f in dsl.SPECS:
            return apply_spec(f, args)
        if f in ("median_", "percentile_"):
            return ext_apply(f, args[0], args[1], args[2], args[3:])
        return builtin(f, args)


def builtin(f, args):
    """pure scalar builtins shared by code and contracts"""
    if f in ("isnan",):
        return to_fv(args[0]).nan
    if f == "isinf":
        return to_fv(args[0]).inf
    if f == "isfinite":
        return Not(to_fv(args[0]).special)
    if f == "abs":
        x = args[0]
        if isinstance(x, FV):
            k = rnum(x.v)
            v = z3.RealVal(abs(k)) if k is not None else z3.If(x.v >= 0, x.v, -x.v)
            return FV(v, x.nan, x.inf, False)
        k = num(x)
        return abs(k) if k is not None else z3.If(x >= 0, x, -x)
    if f in ("min", "max"):
        # Python semantics: max(a, b) is a unless b > a   (NaN-sensitive in the order of arguments)
        r = args[0]
        for x in args[1:]:
            c = compare(ast.Gt() if f == "max" else ast.Lt(), x, r)
            r = If(c, x, r)
        return r
    if f in ("real", "float"):
        return to_fv(args[0])
    if f in ("floor_", "ceil_"):
        x = args[0]
        if not isinstance(x, FV):
            return x
        if f == "floor_":
            return z3.ToInt(x.v)
        return -z3.ToInt(-x.v)
    if f == "int":
        x = args[0]
        if is_bool(x):
            return If(x, 1, 0)
        if not isinstance(x, FV):
            return x
        return z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v))
    if f == "round_":
        x = to_fv(args[0])
        return urnd(x.v)
    if f in ("sin_", "cos_"):
        x = to_fv(args[0])
        return FV((usin if f == "sin_" else ucos)(x.v), Or(x.nan, x.inf), False, False)
    if f in ("log_", "exp_", "sqrt_", "log1p_"):
        x = to_fv(args[0])
        g = {"log_": ulog, "exp_": uexp, "sqrt_": usqrt, "log1p_": ulog1p}[f]
        if f == "log_":
            return FV(ulog(x.v), Or(x.nan, x.ni, And(Not(x.inf), zb(x.v < 0))), x.pi, And(Not(x.special), zb(x.v == 0)))
        if f == "sqrt_":
            return FV(usqrt(x.v), Or(x.nan, x.ni, And(Not(x.inf), zb(x.v < 0))), x.pi, False)
        return FV(g(x.v), x.nan, x.pi, False)
    raise Unsupported("function " + f)


def compare(op, l, r):
    s = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}.get(type(op))
    if isinstance(op, (ast.Is, ast.IsNot)):
        if l is None or r is None:
            res = l is None and r is None
            return res if isinstance(op, ast.Is) else not res
        if is_bool(l) and is_bool(r):
            return iff(l, r) if isinstance(op, ast.Is) else Not(iff(l, r))
        raise Unsupported("is")
    if isinstance(op, (ast.In, ast.NotIn)):
        if isinstance(r, tuple):
            res = Or(*[compare(ast.Eq(), l, x) for x in r])
            return res if isinstance(op, ast.In) else Not(res)
        raise Unsupported("in")
    if isinstance(l, str) or isinstance(r, str):
        if isinstance(l, str) and isinstance(r, str):
            return (l == r) if s == "==" else (l != r)
        raise Unsupported("string comparison")
    if l is None or r is None:
        return (l is r) if s == "==" else (l is not r)
    if isinstance(l, tuple) and isinstance(r, tuple) and s in ("==", "!="):
        e = And(*[compare(ast.Eq(), a, b) for a, b in zip(l, r)]) if len(l) == len(r) else False
        return e if s == "==" else Not(e)
    if isinstance(l, (Fz, Vec, tuple, Ref)) or isinstance(r, (Fz, Vec, tuple, Ref)):
        raise Unsupported("array comparison")
    if isinstance(l, FV) or isinstance(r, FV):
        return fcmp(s, to_fv(l), to_fv(r))
    if is_bool(l) and is_bool(r) and s in ("==", "!="):
        return iff(l, r) if s == "==" else Not(iff(l, r))
    return icmp(s, If(l, 1, 0) if is_bool(l) else l, If(r, 1, 0) if is_bool(r) else r)


def b2i(x):
    return If(x, 1, 0) if is_bool(x) else x


def fpow(a, b):
    k = num(b) if not isinstance(b, FV) else (rnum(b.v) if b.special is False else None)
    if k is not None and k == int(k) and 0 <= k <= 4:
        r = to_fv(1)
        a = to_fv(a)
        for _ in range(int(k)):
            r = fmul(r, a)
        return r
    a, b = to_fv(a), to_fv(b)
    return FV(upow(a.v, b.v), Or(a.nan, b.nan))


def arith(op, a, b, spec=False):
    if isinstance(a, (Fz, Vec, tuple, Ref)) or isinstance(b, (Fz, Vec, tuple, Ref)) or a is None or b is None or isinstance(a, str):
        raise Unsupported("arithmetic on " + type(a).__name__)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and is_bool(a) and is_bool(b):
        return And(a, b) if isinstance(op, ast.BitAnd) else Or(a, b) if isinstance(op, ast.BitOr) else Not(iff(a, b))
    a, b = b2i(a), b2i(b)
    f = isinstance(a, FV) or isinstance(b, FV)
    if isinstance(op, ast.Add):
        return fadd(to_fv(a), to_fv(b)) if f else iadd(a, b)
    if isinstance(op, ast.Sub):
        return fsub(to_fv(a), to_fv(b)) if f else isub(a, b)
    if isinstance(op, ast.Mult):
        return fmul(to_fv(a), to_fv(b)) if f else imul(a, b)
    if isinstance(op, ast.Div):
        return fdiv(to_fv(a), to_fv(b))
    if isinstance(op, ast.FloorDiv):
        if f:
            q = fdiv(to_fv(a), to_fv(b))
            return FV(z3.ToReal(z3.ToInt(q.v)), q.nan, q.pi, q.ni)
        return ifloordiv(a, b)
    if isinstance(op, ast.Mod):
        if f:
            a, b = to_fv(a), to_fv(b)
            q = fdiv(a, b)
            return fsub(a, fmul(b, FV(z3.ToReal(z3.ToInt(q.v)), q.nan)))
        return imod(a, b)
    if isinstance(op, ast.Pow):
        if not f and num(b) is not None and 0 <= num(b) <= 4:
            r = 1
            for _ in range(num(b)):
                r = imul(r, a)
            return r
        return fpow(a, b)
    raise Unsupported("operator " + type(op).__name__)


class _U:
    def __repr__(self):
        return "UNDEF"


UNDEF = _U()
_pe = {}


def parse_expr(t):
    if t not in _pe:
        _pe[t] = ast.parse(t.strip(), mode="eval").body
    return _pe[t]
