"""Forward symbolic execution of extracted functions with loops cut by invariants.

Every call of a function that has no contract of its own is inlined from its current source, so a helper extracted by a
refactoring is analysed like the code it came from.
"""
import ast
import itertools

import z3

from . import prove as P
from . import source
from .specsym import *
from .specsym import _U
from .sym import *

_oid = itertools.count(1)
LOOPS = (ast.For, ast.While)


class MaybeU:
    """value defined only under cond"""
    __slots__ = ("cond", "val")

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class State:
    __slots__ = ("env", "heap", "path", "callers")

    def __init__(self, env=None, heap=None, path=None, callers=()):
        self.env, self.heap, self.path, self.callers = env or {}, heap or {}, path or [], callers

    def copy(self):
        return State(dict(self.env), dict(self.heap), list(self.path), self.callers)

    def fact(self, e):
        if is_true(e):
            return
        self.path.append(("f", zb(e)))

    def cond(self, e):
        if is_true(e):
            return
        self.path.append(("c", zb(e)))

    def hyps(self):
        return [e for _, e in self.path]


class Obl:
    __slots__ = ("kind", "line", "hyps", "goal", "text", "status", "backend", "model", "fn", "secs")

    def __init__(self, kind, line, hyps, goal, text="", fn=""):
        self.kind, self.line, self.hyps, self.goal, self.text, self.fn = kind, line, hyps, goal, text, fn
        self.status = self.backend = self.model = None
        self.secs = 0.0

    def name(self):
        return f"{self.fn}:{self.line}:{self.kind}" + (f" [{self.text}]" if self.text else "")


class Outcome:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


MODULE_ALIAS = {"numpy": "np", "math": "math", "np": "np"}
NARROW = {"int8": (-128, 127), "int16": (-32768, 32767), "uint8": (0, 255), "uint16": (0, 65535), "int32": (-2 ** 31, 2 ** 31 - 1),
          "uint32": (0, 2 ** 32 - 1), "uint64": (0, 2 ** 64 - 1)}


class Exec:
    def __init__(self, infer=None, contracts=None, error_model="python", opts=None):
        self.obls = []
        self.raises = []          # Outcome list raised in nested calls
        self.infer = infer        # object with .candidates(lid, exec, head_state, entry_state)
        self.contracts = contracts or {}
        self.discover = 0
        self.par = []             # enclosing parallel loops
        self.mod = None
        self.fn = None
        self.loopids = {}
        self.depth = 0
        self.error_model = error_model
        self.opts = opts or {}
        self.single_ok = bool(self.opts.get("single"))
        self.shared = set()
        self.sites = ()
        self.args0 = {}           # contract names -> frozen entry values
        self.inlined = set()
        self.called = set()
        self.houdini_dead = {}
        self.loop_stats = []
        self.invs = {}
        self.frame_arrays = {}

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, kind, goal, node=None, text=""):
        if is_true(goal):
            return
        g = zb(goal)
        if not self.discover:
            self.obls.append(Obl(kind, getattr(node, "lineno", 0), st.hyps(), g, text or (ast.unparse(node)[:80] if node is not None else ""), self.fn or ""))
        st.fact(g)

    def entails(self, st, goal, timeout=300):
        if isinstance(goal, bool):
            return goal
        ok, _, _ = P.prove(st.hyps(), goal, timeout=timeout, quick=True)
        return ok

    # ------------------------------------------------------------------ heap
    def alloc(self, st, arr):
        o = next(_oid)
        st.heap[o] = arr
        return Ref(o)

    def arr(self, st, ref):
        return st.heap[ref.oid]

    def freeze(self, st, v):
        if isinstance(v, Ref):
            return Fz(st.heap[v.oid], v.off, v.ln, v.row)
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x) for x in v)
        if isinstance(v, MaybeU):
            return UNDEF
        return v

    def length(self, st, v):
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, Vec):
            return v.n
        if isinstance(v, Ref):
            return fz_len(self.freeze(st, v))
        raise Unsupported("len of " + type(v).__name__)

    def vec_of(self, st, v):
        """a Vec view (snapshot) of an array value"""
        if isinstance(v, Vec):
            return v
        if isinstance(v, Ref):
            self.par_read(st, v, 0, None, whole=True)
            fz = self.freeze(st, v)
            if fz.arr.nd == 2 and fz.row is None:
                raise Unsupported("2-D elementwise")
            return Vec(fz_len(fz), lambda i, fz=fz: fz_read(fz, i), fz.arr.et)
        raise Unsupported("vector expected, got " + type(v).__name__)

    def materialise(self, st, vec, dtype=None):
        """a fresh array object holding the vector"""
        et = vec.et
        v = fresh("vec", arr_sort(et))
        k = z3.Int(f"m!{next(_oid)}")
        e = vec.f(k)
        n = vec.n
        rng = And(icmp("<=", 0, k), icmp("<", k, n))
        if et == "float":
            e = to_fv(e)
            fl = {}
            eqs = [z3.Select(v, k) == e.v]
            for p in ("nan", "pi", "ni"):
                x = getattr(e, p)
                if isinstance(x, bool):
                    if x is False:
                        fl[p] = False
                        continue
                    x = zb(x)
                elif self.entails(st, z3.ForAll([k], zb(Implies(rng, Not(x))))):
                    fl[p] = False
                    continue
                a = fresh("vec_" + p, flag_sort())
                fl[p] = a
                eqs.append(z3.Select(a, k) == x)
            st.fact(z3.ForAll([k], z3.Implies(zb(rng), z3.And(*eqs)), patterns=[z3.Select(v, k)]))
            return self.alloc(st, Arr("float", v, [n], dtype=dtype, **fl))
        e = zb(e) if et == "bool" else zi(b2i(e))
        st.fact(z3.ForAll([k], z3.Implies(zb(rng), z3.Select(v, k) == e), patterns=[z3.Select(v, k)]))
        return self.alloc(st, Arr(et, v, [n], dtype=dtype))

    def tidy(self, st, v):
        """decide the NaN / infinity flags of a scalar where the path does, and give the remaining big ones a name"""
        fl = {}
        for p in ("nan", "pi", "ni"):
            x = getattr(v, p)
            if isinstance(x, bool) or z3.is_const(x):
                continue
            if self.entails(st, Not(x), 300):
                fl[p] = False
            elif P.has_var(x):
                continue
            elif term_size(x, 12) >= 12:
                b = fresh("fl_" + p, B)
                st.fact(b == x)
                fl[p] = b
        return FV(v.v, fl.get("nan", v.nan), fl.get("pi", v.pi), fl.get("ni", v.ni)) if fl else v

    def own(self, ref):
        """lists hold arrays by value here, so an array that is also an element of a list must not change any more"""
        if ref.oid in self.shared:
            raise Unsupported("write to an array that is an element of a list")

    def store(self, st, ref, idx, val, node=None):
        a = st.heap[ref.oid]
        self.own(ref)
        ix = [zi(i) for i in idx]
        if a.et == "any":
            raise Unsupported("store into untyped list")
        if a.et == "float":
            x = to_fv(val)
            new = {"v": z3.Store(a.v, *ix, x.v)}
            for p in ("nan", "pi", "ni"):
                pl, xv = getattr(a, p), getattr(x, p)
                if pl is False and xv is False:
                    continue
                if isinstance(pl, bool):
                    pl = KArr(a.nd, z3.BoolVal(pl))
                new[p] = z3.Store(pl, *ix, zb(xv))
            st.heap[ref.oid] = a.rep(**new)
        elif a.et == "int":
            if isinstance(val, FV):
                if not self.opts.get("float_to_int_store", True):
                    raise Unsupported("float stored in int array")
                self.oblige(st, "finite-to-int", Not(val.special), node)
                val = builtin("int", [val])
            val = b2i(val)
            if a.dtype in NARROW:
                lo, hi = NARROW[a.dtype]
                self.oblige(st, f"fits-{a.dtype}", And(icmp("<=", lo, val), icmp("<=", val, hi)), node)
            st.heap[ref.oid] = a.rep(v=z3.Store(a.v, *ix, zi(val)))
        elif a.et == "bool":
            if not is_bool(val):
                val = icmp("!=", val, 0) if is_int(val) else val
            st.heap[ref.oid] = a.rep(v=z3.Store(a.v, *ix, zb(val)))
        else:
            raise Unsupported("store")

    # ------------------------------------------------------------------ expressions
    def guarded(self, st, c, thunk):
        """evaluate thunk on st under the extra condition c"""
        n = len(st.path)
        st.path.append(("c", zb(c)))
        r = thunk()
        extra = st.path[n + 1:]
        del st.path[n:]
        for _, f in extra:
            st.fact(Implies(c, f))
        return r

    def truth(self, st, v):
        if is_bool(v):
            return v
        if isinstance(v, FV):
            return Or(v.special, zb(v.v != 0))
        if is_int(v):
            return icmp("!=", v, 0)
        if v is None:
            return False
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        raise Unsupported("truth of " + type(v).__name__)

    def ev(self, n, st):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__ + ": " + ast.unparse(n)[:80])
        return m(n, st)

    def x_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
            return v
        if isinstance(v, float):
            return fconst(v)
        raise Unsupported("constant")

    def x_JoinedStr(self, n, st):
        return "<fstring>"

    def x_Name(self, n, st):
        if n.id in st.env:
            v = st.env[n.id]
            if v is UNDEF:
                raise Unsupported(f"read of possibly unbound {n.id}")
            if isinstance(v, MaybeU):
                self.oblige(st, "bound", v.cond, n)
                st.env[n.id] = v.val
                return v.val
            return v
        g = self.mod.lookup(n.id)
        if g is None:
            if n.id in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[n.id]
            raise Unsupported("unknown name " + n.id)
        if g[0] == "const":
            return self.ev(g[1], State({}, st.heap, st.path))
        if g[0] == "ext" and g[1] in ("math.nan", "numpy.nan"):
            return fconst(float("nan"))
        raise Unsupported("global " + n.id)

    def x_Tuple(self, n, st):
        return tuple(self.ev(e, st) for e in n.elts)

    def x_List(self, n, st):
        if not n.elts:
            return self.alloc(st, Arr("any", None, [0], is_list=True))
        vals = [self.ev(e, st) for e in n.elts]
        return self.list_from(st, vals)

    def list_from(self, st, vals, is_list=True):
        if not vals:
            return self.alloc(st, Arr("any", None, [0], is_list=is_list))
        if any(isinstance(v, FV) for v in vals):
            et = "float"
        elif all(is_bool(v) for v in vals):
            et = "bool"
        elif all(is_int(v) or is_bool(v) for v in vals):
            et = "int"
        else:
            raise Unsupported("list of non-scalars")
        r = self.alloc(st, Arr(et, fresh("lst", arr_sort(et)), [len(vals)], is_list=is_list))
        for i, v in enumerate(vals):
            self.store(st, r, [i], v)
        return r

    def x_Attribute(self, n, st):
        t = ast.unparse(n)
        d = self.dotted(n)
        if d in ("np.nan", "math.nan"):
            return fconst(float("nan"))
        if d in ("np.inf", "math.inf"):
            return fconst(float("inf"))
        if d == "math.pi" or d == "np.pi":
            return fconst(3.141592653589793)
        v = self.ev(n.value, st)
        if isinstance(v, (Ref, Vec)):
            if n.attr == "size":
                if isinstance(v, Ref) and st.heap[v.oid].nd == 2 and v.row is None:
                    a = st.heap[v.oid]
                    return imul(a.shape[0], a.shape[1])
                return self.length(st, v)
            if n.attr == "shape":
                if isinstance(v, Ref) and v.row is None and st.heap[v.oid].nd == 2:
                    return tuple(st.heap[v.oid].shape)
                return (self.length(st, v),)
            if n.attr == "ndim":
                return st.heap[v.oid].nd if isinstance(v, Ref) else 1
            if n.attr == "dtype":
                return ("dtype", (st.heap[v.oid].et if isinstance(v, Ref) else v.et))
            if n.attr == "T":
                raise Unsupported("transpose")
        raise Unsupported("attribute " + t)

    def dotted(self, n):
        """np.float64 -> 'np.float64' when the head is an imported module"""
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        g = self.mod.lookup(n.id) if self.mod else None
        if g and g[0] == "mod":
            head = MODULE_ALIAS.get(g[1], g[1])
            return ".".join([head] + parts[::-1])
        return None

    def x_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        vals = []
        guard = True

        def go(i, st):
            v = self.truth(st, self.ev(n.values[i], st))
            if i + 1 == len(n.values):
                return v
            if is_and:
                if is_false(v):
                    return False
                if is_true(v):
                    return go(i + 1, st)
                w = self.guarded(st, v, lambda: go(i + 1, st))
                return And(v, w)
            if is_true(v):
                return True
            if is_false(v):
                return go(i + 1, st)
            w = self.guarded(st, Not(v), lambda: go(i + 1, st))
            return Or(v, w)
        return go(0, st)

    def x_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(st, v))
        if isinstance(v, (Ref, Vec)):
            w = self.vec_of(st, v)
            if isinstance(n.op, ast.USub):
                return Vec(w.n, lambda i: fneg(w.f(i)) if w.et == "float" else ineg(w.f(i)), w.et)
            if isinstance(n.op, ast.Invert) and w.et == "bool":
                return Vec(w.n, lambda i: Not(w.f(i)), "bool")
            raise Unsupported("unary on array")
        if isinstance(n.op, ast.USub):
            v = b2i(v)
            return fneg(v) if isinstance(v, FV) else ineg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and is_bool(v):
            return Not(v)
        raise Unsupported("unary")

    def x_IfExp(self, n, st):
        c = self.truth(st, self.ev(n.test, st))
        if is_true(c):
            return self.ev(n.body, st)
        if is_false(c):
            return self.ev(n.orelse, st)
        a = self.guarded(st, c, lambda: self.ev(n.body, st))
        b = self.guarded(st, Not(c), lambda: self.ev(n.orelse, st))
        if isinstance(a, (Ref, Vec, tuple)) or isinstance(b, (Ref, Vec, tuple)) or a is None or b is None or isinstance(a, str):
            if a is b:
                return a
            raise Unsupported("conditional expression over arrays")
        return If(c, a, b)

    def x_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        st.env[n.target.id] = v
        return v

    def x_Compare(self, n, st):
        l = self.ev(n.left, st)
        out = []
        for k, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            r = self.ev(rn, st)
            if isinstance(l, (Ref, Vec)) or isinstance(r, (Ref, Vec)):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    out.append(isinstance(op, ast.IsNot))
                    l = r
                    continue
                if len(n.ops) > 1:
                    raise Unsupported("chained array comparison")
                return self.vec2(st, l, r, lambda a, b, op=op: compare(op, a, b), "bool", n)
            out.append(compare(op, l, r))
            l = r
        return And(*out)

    def vec2(self, st, a, b, f, et, node):
        """elementwise combination with scalar broadcasting; unequal lengths are an obligation"""
        va = self.vec_of(st, a) if isinstance(a, (Ref, Vec)) else None
        vb = self.vec_of(st, b) if isinstance(b, (Ref, Vec)) else None
        n = va.n if va else vb.n
        if va and vb and not is_true(icmp("==", va.n, vb.n)):
            self.oblige(st, "broadcast", icmp("==", va.n, vb.n), node)
        fa = va.f if va else (lambda i: a)
        fb = vb.f if vb else (lambda i: b)
        if et is None:
            ta = va.et if va else ("float" if isinstance(a, FV) else "int")
            tb = vb.et if vb else ("float" if isinstance(b, FV) else "int")
            et = "float" if "float" in (ta, tb) else "int"
        return Vec(n, lambda i: f(fa(i), fb(i)), et)

    def x_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        if isinstance(a, (Ref, Vec)) or isinstance(b, (Ref, Vec)):
            for x in (a, b):
                if isinstance(x, Ref) and st.heap[x.oid].is_list:
                    raise Unsupported("list arithmetic")
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return self.vec2(st, a, b, lambda x, y: arith(op, x, y), "bool", n)
            if isinstance(op, ast.Div):
                return self.vec2(st, a, b, lambda x, y: fdiv_np(to_fv(x), to_fv(y)), "float", n)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if isinstance(a, (Ref, Vec)) and self.vec_of(st, a).et == "int" and isinstance(num(b), int) and num(b) > 0:
                    return self.vec2(st, a, b, lambda x, y: (ifloordiv if isinstance(op, ast.FloorDiv) else imod)(x, y), "int", n)
                raise Unsupported("array // or %")
            return self.vec2(st, a, b, lambda x, y: arith(op, x, y), None, n)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            a, b = b2i(a), b2i(b)
            fb = to_fv(b)
            nz = Or(fb.special, zb(fb.v != 0)) if isinstance(b, FV) else icmp("!=", b, 0)
            k = rnum(fb.v)
            if k is not None and fb.special is False:
                nz = k != 0
            if self.error_model == "numpy" and isinstance(op, ast.Div):
                return fdiv_np(to_fv(a), fb)
            self.oblige(st, "nonzero-divisor", nz, n)
        if isinstance(op, (ast.LShift, ast.RShift)):
            raise Unsupported("shift")
        return arith(op, a, b)

    # ---- subscripts
    def clean_index(self, st, i, n, node):
        """index into a dimension of size n: must be in range, and only a literal may be negative"""
        if is_bool(i):
            i = b2i(i)
        if isinstance(i, FV):
            raise Unsupported("float index")
        k = num(i)
        if k is not None and k < 0:
            self.oblige(st, "index-in-bounds", icmp(">=", iadd(n, k), 0), node)
            return iadd(n, k)
        self.oblige(st, "index-in-bounds", And(icmp("<=", 0, i), icmp("<", i, n)), node)
        return i

    def slice_bounds(self, st, sl, n, node):
        if sl.step is not None:
            stp = self.ev(sl.step, st)
            if num(stp) != 1:
                raise Unsupported("slice step")

        def one(x, default):
            if x is None:
                return default
            v = b2i(self.ev(x, st))
            if v is None:
                return default
            if isinstance(v, FV):
                raise Unsupported("float slice bound")
            k = num(v)
            if k is not None and k < 0:
                v = iadd(n, k)
                if self.entails(st, icmp(">=", v, 0)):
                    return v
                return z3.If(zi(v) < 0, 0, zi(v))
            if k == 0:
                return 0
            if self.entails(st, And(icmp("<=", 0, v), icmp("<=", v, n))):
                return v
            v = zi(v)
            nn = zi(n)
            w = z3.If(v < 0, z3.If(v + nn < 0, 0, v + nn), v)
            return z3.If(w > nn, nn, w)
        lo, hi = one(sl.lower, 0), one(sl.upper, n)
        ln = isub(hi, lo)
        if num(lo) == 0 or self.entails(st, icmp(">=", ln, 0)):
            return lo, hi, ln
        return lo, hi, z3.If(zi(ln) < 0, 0, zi(ln))

    def x_Subscript(self, n, st):
        a = self.ev(n.value, st)
        if isinstance(a, tuple):
            if isinstance(n.slice, ast.Slice):
                lo = self.ev(n.slice.lower, st) if n.slice.lower else None
                hi = self.ev(n.slice.upper, st) if n.slice.upper else None
                return a[lo:hi]
            k = num(self.ev(n.slice, st))
            if k is None:
                raise Unsupported("tuple index")
            return a[k]
        if not isinstance(a, (Ref, Vec)):
            raise Unsupported("subscript of " + type(a).__name__)
        if isinstance(n.slice, ast.Slice):
            if isinstance(a, Vec):
                lo, hi, ln = self.slice_bounds(st, n.slice, a.n, n)
                return Vec(ln, lambda i: a.f(iadd(lo, i)), a.et)
            if st.heap[a.oid].nd == 2 and a.row is None:
                raise Unsupported("2-D slice")
            lo, hi, ln = self.slice_bounds(st, n.slice, self.length(st, a), n)
            if st.heap[a.oid].is_list:
                fz = self.freeze(st, a)
                return self.materialise(st, Vec(ln, lambda i: fz_read(fz, iadd(lo, i)), fz.arr.et))
            return Ref(a.oid, iadd(a.off, lo), ln, a.row)
        if isinstance(n.slice, ast.Tuple):
            if isinstance(a, Ref) and st.heap[a.oid].nd == 2 and len(n.slice.elts) == 2:
                arr = st.heap[a.oid]
                e0, e1 = n.slice.elts
                if isinstance(e0, ast.Slice) or isinstance(e1, ast.Slice):
                    if isinstance(e1, ast.Slice) and not isinstance(e0, ast.Slice):
                        r = self.clean_index(st, self.ev(e0, st), arr.shape[0], n)
                        lo, hi, ln = self.slice_bounds(st, e1, arr.shape[1], n)
                        return Ref(a.oid, lo, ln, r)
                    raise Unsupported("2-D slice")
                i = self.clean_index(st, self.ev(e0, st), arr.shape[0], n)
                j = self.clean_index(st, self.ev(e1, st), arr.shape[1], n)
                return arr_read(arr, [i, j])
            raise Unsupported("tuple subscript")
        i = self.ev(n.slice, st)
        if isinstance(i, (Ref, Vec)):
            return self.fancy(st, a, i, n)
        if i is None or isinstance(i, (str, tuple)):
            raise Unsupported("subscript")
        if isinstance(a, Vec):
            return a.f(self.clean_index(st, i, a.n, n))
        arr = st.heap[a.oid]
        if arr.nd == 2 and a.row is None:
            i = self.clean_index(st, i, arr.shape[0], n)
            return Ref(a.oid, 0, arr.shape[1], i)
        i = self.clean_index(st, i, self.length(st, a), n)
        if arr.et == "any":
            raise Unsupported("read of an empty list")
        if arr.et == "arr":
            inner = Arr(arr.iet, z3.Select(arr.v, zi(i)), [z3.Select(arr.lens, zi(i))])
            self.par_read(st, a, i, n, whole=True)
            r = self.alloc(st, inner)
            self.shared.add(r.oid)
            return r
        self.par_read(st, a, i, n)
        return fz_read(self.freeze(st, a), i)

    def fancy(self, st, a, i, n):
        iv = self.vec_of(st, i)
        av = self.vec_of(st, a)
        if iv.et == "int":
            k = fresh("fi", I)
            e = iv.f(k)
            g = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(iv.n)), z3.And(zi(e) >= 0, zi(e) < zi(av.n))))
            self.oblige(st, "index-in-bounds", g, n)
            return Vec(iv.n, lambda j: av.f(iv.f(j)), av.et)
        raise Unsupported("boolean mask selection")

    # ------------------------------------------------------------------ calls
    def x_Call(self, n, st):
        from . import lib
        f = n.func
        if isinstance(f, ast.Attribute):
            d = self.dotted(f)
            if d is not None:
                return lib.call(self, d, n, st)
            return lib.method(self, n, st)
        if isinstance(f, ast.Name):
            if f.id in st.env:
                raise Unsupported("call of a local value " + f.id)
            g = self.mod.lookup(f.id)
            if g is None:
                return lib.call(self, f.id, n, st)
            if g[0] == "func":
                args = [self.ev(a, st) for a in n.args]
                kw = {k.arg: self.ev(k.value, st) for k in n.keywords}
                return self.call_user(g[1], g[2], args, kw, st, n)
            if g[0] == "ext":
                return lib.call(self, g[1], n, st)
            raise Unsupported("call of " + f.id)
        raise Unsupported("call")

    def bind_args(self, fn, args, kw, st):
        ps = [a.arg for a in fn.args.args]
        env = {}
        for p, v in zip(ps, args):
            env[p] = v
        env.update(kw)
        defaults = fn.args.defaults
        for p, d in zip(ps[len(ps) - len(defaults):], defaults):
            if p not in env:
                env[p] = self.ev(d, State({}, st.heap, st.path))
        for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            if a.arg not in env and d is not None:
                env[a.arg] = self.ev(d, State({}, st.heap, st.path))
        for p in ps:
            if p not in env:
                raise Unsupported("missing argument " + p)
        return env

    def call_user(self, mod, fn, args, kw, st, node):
        key = f"{mod.rel}:{fn.name}"
        self.called.add(key)
        c = self.contracts.get(key)
        env = self.bind_args(fn, [self.to_heap(st, a) for a in args], {k: self.to_heap(st, v) for k, v in kw.items()}, st)
        if c is not None and c.modular:
            return self.call_contract(c, fn, env, st, node)
        if self.depth > 6:
            raise Unsupported("inlining depth / recursion " + fn.name)
        self.inlined.add(key)
        saved = (self.mod, self.fn, self.depth)
        saved_sites, self.sites = self.sites, self.sites + (getattr(node, "lineno", 0),)
        base = len(st.path)
        inner = State(env, st.heap, list(st.path), st.callers + ((saved[1], dict(st.env)),))
        self.mod, self.fn, self.depth = mod, fn.name, self.depth + 1
        self.register_loops(fn)
        try:
            outs = self.block(strip_doc(fn.body), inner)
        finally:
            self.mod, self.fn, self.depth = saved
            self.sites = saved_sites
        rets = []
        for o in outs:
            if o.kind == "raise":
                self.raises.append(o)
            elif o.kind == "return":
                rets.append((o.st, o.val))
            elif o.kind == "normal":
                rets.append((o.st, None))
            else:
                raise Unsupported("stray " + o.kind)
        if not rets:
            raise Unsupported("call that never returns")
        for s, v in rets:
            s.env = {"__ret": v}
        ms = self.merge([s for s, _ in rets], base)
        if len(ms) != 1:
            raise Unsupported("results of inlined call cannot be merged: " + fn.name)
        m = ms[0]
        heap = dict(m.heap)
        st.heap.clear()
        st.heap.update(heap)
        st.path[:] = m.path
        v = m.env["__ret"]
        if isinstance(v, MaybeU):
            raise Unsupported("maybe-undefined return")
        return v

    def to_heap(self, st, v):
        return self.materialise(st, v) if isinstance(v, Vec) else v

    def call_contract(self, c, fn, env, st, node):
        """use only the callee's contract"""
        ps = [a.arg for a in fn.args.args]
        names = dict(zip(c.pnames, ps))
        senv = {cn: self.freeze(st, env[pn]) for cn, pn in names.items()}
        for a, (p, o) in c.views.items():
            v = env[names[a]]
            if not isinstance(v, Ref) or v.row is not None:
                raise Unsupported("window argument of " + fn.name)
            senv[p] = self.freeze(st, Ref(v.oid))
            if o:
                senv[o] = v.off
            else:
                self.oblige(st, "precondition-of-" + fn.name, icmp("==", v.off, 0), node, f"{a} starts where its array starts")
        for r in c.requires:
            self.oblige(st, "precondition-of-" + fn.name, SpecEval(senv, self).truth(SpecEval(senv, self).expr(r)), node, r)
        for exc, cond in c.raises:
            t = SpecEval(senv, self).truth(SpecEval(senv, self).expr(cond))
            if is_false(t):
                continue
            s2 = st.copy()
            s2.cond(t)
            self.raises.append(Outcome("raise", s2, exc))
            st.cond(Not(t))
        for m in c.modifies:
            raise Unsupported("contract call of a mutating function")
        from .contract import fresh_result
        res = fresh_result(c, self, st, senv)
        senv["result"] = self.freeze(st, res)
        for e in c.all_ensures():
            st.fact(SpecEval(senv, self).truth(SpecEval(senv, self).expr(e)))
        return res

    # ------------------------------------------------------------------ statements
    def register_loops(self, fn):
        k = 0
        for x in ast.walk(fn):
            if isinstance(x, LOOPS):
                if id(x) not in self.loopids:
                    self.loopids[id(x)] = (fn.name, k)
                k += 1

    def block(self, stmts, st):
        outs = []
        cur = [st]
        for s in stmts:
            nxt = []
            for c in cur:
                base = len(c.path)
                for o in self.stmt(s, c):
                    if o.kind == "normal":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                break
            if len(cur) > 64:
                raise Unsupported("too many paths")
        return outs + [Outcome("normal", c) for c in cur]

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        nr = len(self.raises)
        outs = m(s, st)
        return outs

    def s_Pass(self, s, st):
        return [Outcome("normal", st)]

    def s_Import(self, s, st):
        return [Outcome("normal", st)]
    s_ImportFrom = s_Import

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Outcome("normal", st)]
        if isinstance(s.value, ast.Call):
            t = ast.unparse(s.value.func)
            if t == "print" or t.startswith(("logger.", "logging.", "warnings.")):
                return [Outcome("normal", st)]
        self.ev(s.value, st)
        return [Outcome("normal", st)]

    def s_Assert(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        outs = [Outcome("normal", st)]
        if not is_true(c):
            o = st.copy()
            o.cond(Not(c))
            outs.append(Outcome("raise", o, "AssertionError"))
            st.cond(c)
        return outs

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else None
        if isinstance(v, Vec):
            v = self.materialise(st, v)
        if isinstance(v, tuple):
            v = tuple(self.materialise(st, x) if isinstance(x, Vec) else x for x in v)
        return [Outcome("return", st, v)]

    def s_Raise(self, s, st):
        e = "Exception"
        if s.exc is not None:
            f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            e = ast.unparse(f)
        return [Outcome("raise", st, e)]

    def s_Break(self, s, st):
        return [Outcome("break", st)]

    def s_Continue(self, s, st):
        return [Outcome("continue", st)]

    def s_Delete(self, s, st):
        return [Outcome("normal", st)]

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [Outcome("normal", st)]
        self.assign(s.target, self.ev(s.value, st), st)
        return [Outcome("normal", st)]

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if isinstance(v, Vec) and isinstance(s.targets[0], ast.Name):
            v = self.materialise(st, v)
        for t in s.targets:
            self.assign(t, v, st)
        return [Outcome("normal", st)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = self.materialise(st, v) if isinstance(v, Vec) else self.tidy(st, v) if isinstance(v, FV) else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple):
                raise Unsupported("unpacking")
            if len(t.elts) != len(v):
                raise Unsupported("unpacking arity")
            for a, b in zip(t.elts, v):
                self.assign(a, b, st)
        elif isinstance(t, ast.Subscript):
            self.assign_sub(t, v, st)
        else:
            raise Unsupported("assignment target")

    def assign_sub(self, t, v, st):
        a = self.ev(t.value, st)
        if not isinstance(a, Ref):
            raise Unsupported("store into " + type(a).__name__)
        arr = st.heap[a.oid]
        if isinstance(t.slice, ast.Slice):
            lo, hi, ln = self.slice_bounds(st, t.slice, self.length(st, a), t)
            self.store_range(st, Ref(a.oid, iadd(a.off, lo), ln, a.row), v, t)
            return
        if isinstance(t.slice, ast.Tuple):
            if any(isinstance(e, ast.Slice) for e in t.slice.elts):
                if isinstance(t.slice.elts[1], ast.Slice):
                    r = self.clean_index(st, self.ev(t.slice.elts[0], st), arr.shape[0], t)
                    lo, hi, ln = self.slice_bounds(st, t.slice.elts[1], arr.shape[1], t)
                    self.store_range(st, Ref(a.oid, lo, ln, r), v, t)
                    return
                raise Unsupported("2-D slice store")
            i = self.clean_index(st, self.ev(t.slice.elts[0], st), arr.shape[0], t)
            j = self.clean_index(st, self.ev(t.slice.elts[1], st), arr.shape[1], t)
            self.store(st, a, [i, j], v, t)
            return
        i = self.ev(t.slice, st)
        if isinstance(i, (Ref, Vec)):
            iv = self.vec_of(st, i)
            if iv.et == "bool" and not isinstance(v, (Ref, Vec)):
                av = self.vec_of(st, a)
                self.replace(st, a, Vec(av.n, lambda k: If(iv.f(k), v, av.f(k)), "float" if isinstance(v, FV) and av.et == "float" else av.et), t)
                return
            raise Unsupported("fancy store")
        if arr.nd == 2 and a.row is None:
            raise Unsupported("row store")
        i = self.clean_index(st, i, self.length(st, a), t)
        if arr.et == "any":
            raise Unsupported("store in an empty list")
        self.store(st, a, ([a.row] if a.row is not None else []) + [iadd(a.off, i)], v, t)

    def replace(self, st, ref, vec, node):
        """whole-contents update of a 1-D array through a vector"""
        if not ref.whole():
            self.store_range(st, ref, vec, node)
            return
        old = st.heap[ref.oid]
        self.own(ref)
        r = self.materialise(st, vec)
        new = st.heap.pop(r.oid)
        st.heap[ref.oid] = old.rep(v=new.v, nan=new.nan, pi=new.pi, ni=new.ni)

    def store_range(self, st, ref, v, node):
        """ref window := v (scalar or vector)"""
        self.own(ref)
        arr = st.heap[ref.oid]
        ln, off = self.length(st, ref), ref.off
        if isinstance(v, (Ref, Vec)):
            vv = self.vec_of(st, v)
            val = lambda i: vv.f(i)
            if not is_true(icmp("==", vv.n, ln)):
                if self.entails(st, icmp("==", vv.n, ln)):
                    self.oblige(st, "broadcast", icmp("==", vv.n, ln), node)
                else:
                    # a vector of length 1 is broadcast
                    self.oblige(st, "broadcast", Or(icmp("==", vv.n, ln), icmp("==", vv.n, 1)), node)
                    val = lambda i: If(icmp("==", vv.n, 1), vv.f(0), vv.f(i))
        else:
            if isinstance(v, tuple) or v is None or isinstance(v, str):
                raise Unsupported("range store")
            val = lambda i: v
        old = arr
        k = z3.Int(f"r!{next(_oid)}")
        ix = [k]
        inside = And(icmp("<=", off, k), icmp("<", k, iadd(off, ln)))
        if arr.nd == 2:
            r = z3.Int(f"rr!{next(_oid)}")
            ix = [r, k]
            inside = And(inside, icmp("==", r, ref.row))
        e = val(isub(k, off) if num(off) != 0 else k)
        if arr.et == "float":
            e = to_fv(e)
            nv = fresh("upd", old.v.sort())
            o = arr_read(old, ix)
            body = [z3.Select(nv, *ix) == z3.If(zb(inside), e.v, o.v)]
            fl = {}
            for p in ("nan", "pi", "ni"):
                a, b = getattr(o, p), getattr(e, p)
                if a is False and b is False:
                    continue
                na = fresh("upd_" + p, flag_sort(arr.nd))
                fl[p] = na
                body.append(z3.Select(na, *ix) == zb(ifb(inside, b, a)))
            st.fact(z3.ForAll(ix, z3.And(*body), patterns=[z3.Select(nv, *ix)]))
            for p, na in fl.items():
                st.fact(z3.ForAll(ix, z3.Select(na, *ix) == zb(ifb(inside, getattr(e, p), getattr(o, p))), patterns=[z3.Select(na, *ix)]))
            st.heap[ref.oid] = old.rep(v=nv, **fl)
            return
        if isinstance(e, FV):
            e = builtin("int", [e])
        e = zb(e) if arr.et == "bool" else zi(b2i(e))
        if arr.dtype in NARROW and arr.et == "int":
            lo, hi = NARROW[arr.dtype]
            self.oblige(st, f"fits-{arr.dtype}", z3.ForAll(ix, z3.Implies(zb(inside), z3.And(lo <= e, e <= hi))), node)
        nv = fresh("upd", old.v.sort())
        st.fact(z3.ForAll(ix, z3.Select(nv, *ix) == z3.If(zb(inside), e, arr_read(old, ix)), patterns=[z3.Select(nv, *ix)]))
        st.heap[ref.oid] = old.rep(v=nv)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.x_Name(ast.Name(id=t.id, ctx=ast.Load(), lineno=s.lineno), st)
            v = self.ev(s.value, st)
            r = self.binop(s.op, cur, v, st, s)
            if isinstance(cur, Ref):      # in-place array update
                self.replace(st, cur, self.vec_of(st, r), s)
            else:
                st.env[t.id] = r
            return [Outcome("normal", st)]
        if isinstance(t, ast.Subscript):
            load = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
            ast.copy_location(load, s)
            cur = self.ev(load, st)
            v = self.ev(s.value, st)
            self.assign_sub(t, self.binop(s.op, cur, v, st, s), st)
            return [Outcome("normal", st)]
        raise Unsupported("augmented assignment")

    def s_If(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        if is_true(c):
            return self.block(s.body, st)
        if is_false(c):
            return self.block(s.orelse, st)
        base = len(st.path)
        a, b = st.copy(), st
        a.cond(c)
        b.cond(Not(c))
        outs = self.block(s.body, a)
        outs += self.block(s.orelse, b)
        norm = [o.st for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind != "normal"]
        return rest + [Outcome("normal", m) for m in self.merge(norm, base)]

    def s_FunctionDef(self, s, st):
        raise Unsupported("nested function")

    def s_With(self, s, st):
        raise Unsupported("with")

    def s_Try(self, s, st):
        raise Unsupported("try")

    # ------------------------------------------------------------------ merging
    def merge(self, states, base):
        if len(states) <= 1:
            return states
        out = states[0]
        rest = []
        for s in states[1:]:
            m = self.merge2(out, s, base)
            if m is None:
                rest.append(s)
            else:
                out = m
        return [out] + rest

    def merge2(self, a, b, base):
        n = base
        while n < len(a.path) and n < len(b.path) and a.path[n][0] == b.path[n][0] and (a.path[n][1] is b.path[n][1] or (z3.is_expr(a.path[n][1]) and z3.is_expr(b.path[n][1]) and a.path[n][1].eq(b.path[n][1]))):
            n += 1
        base = n
        ea, eb = a.path[base:], b.path[base:]
        ca = And(*[e for t, e in ea if t == "c"])
        cb = And(*[e for t, e in eb if t == "c"])
        self.named = []
        try:
            env = {}
            for k in a.env.keys() | b.env.keys():
                env[k] = self.merge_val(ca, a.env.get(k, UNDEF), b.env.get(k, UNDEF), a, b)
            heap = {}
            for o in a.heap.keys() | b.heap.keys():
                if o not in a.heap:
                    heap[o] = b.heap[o]
                elif o not in b.heap:
                    heap[o] = a.heap[o]
                else:
                    heap[o] = self.merge_arr(ca, a.heap[o], b.heap[o])
        except Unsupported:
            return None
        path = a.path[:base]
        cov = Or(ca, cb)
        if not (is_true(cov) or _compl(ca, cb)):
            path.append(("c", zb(cov)))
        seen = set()
        for c, ex in ((ca, ea), (cb, eb)):
            for t, e in ex:
                if t == "f":
                    path.append(("f", zb(Implies(c, e))))
        path += [("f", f) for f in self.named]
        return State(env, heap, path, a.callers)

    def merge_val(self, c, x, y, a, b):
        if x is y:
            return x
        if x is UNDEF or y is UNDEF:
            v = y if x is UNDEF else x
            cond = Not(c) if x is UNDEF else c
            if isinstance(v, MaybeU):
                return MaybeU(And(cond, v.cond), v.val)
            return MaybeU(cond, v)
        if isinstance(x, MaybeU) or isinstance(y, MaybeU):
            xc, xv = (x.cond, x.val) if isinstance(x, MaybeU) else (True, x)
            yc, yv = (y.cond, y.val) if isinstance(y, MaybeU) else (True, y)
            return MaybeU(ifb(c, xc, yc), self.merge_val(c, xv, yv, a, b))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.merge_val(c, p, q, a, b) for p, q in zip(x, y))
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.oid == y.oid and x.row is None and y.row is None:
                if x.ln is None and y.ln is None and num(x.off) == 0 and num(y.off) == 0:
                    return x
                sa, sb = Fz(a.heap[x.oid], x.off, x.ln), Fz(b.heap[y.oid], y.off, y.ln)
                return Ref(x.oid, If(c, x.off, y.off), If(c, fz_len(sa), fz_len(sb)))
            if x.whole() and y.whole():
                # distinct objects: merge contents into a fresh object (no later aliasing of the originals is assumed
                # unless they are otherwise unreachable, so only allowed for objects created on one side)
                if x.oid in b.heap and y.oid in a.heap:
                    raise Unsupported("merge of aliases")
                m = self.merge_arr(c, a.heap[x.oid], b.heap[y.oid])
                o = next(_oid)
                a.heap[o] = m
                b.heap[o] = m
                return Ref(o)
            raise Unsupported("merge of references")
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if x == y:
                return x
            raise Unsupported("merge of non-scalars")
        if isinstance(x, (Ref, Vec, tuple)) or isinstance(y, (Ref, Vec, tuple)):
            raise Unsupported("merge of array and scalar")
        r = If(c, x, y)
        if self.opts.get("name_merges") and isinstance(r, FV) and z3.is_app_of(r.v, z3.Z3_OP_ITE):
            # a name for the merged value: keeps products and quotients over it atomic
            v = fresh("phi", R)
            self.named.append(v == r.v)
            r = FV(v, r.nan, r.pi, r.ni)
        elif self.opts.get("name_merges") and z3.is_expr(r) and r.sort() == I and z3.is_app_of(r, z3.Z3_OP_ITE):
            v = fresh("phi", I)
            self.named.append(v == r)
            r = v
        return r

    def merge_arr(self, c, x, y):
        if x is y:
            return x
        if x.et == "any" and y.et == "any":
            return x
        if x.et == "any" or y.et == "any":
            t = y if x.et == "any" else x
            if not (x.is_list and y.is_list):
                raise Unsupported("merge any")
            return t.rep(shape=[If(c, x.shape[0], y.shape[0])])
        if x.et != y.et or x.nd != y.nd:
            raise Unsupported("merge of arrays of different types")
        g = lambda p, q: p if (isinstance(p, bool) and isinstance(q, bool) and p == q) else self._ifa(c, p, q, x.nd)
        v = x.v if x.v.eq(y.v) else z3.If(c, x.v, y.v)
        shape = [If(c, p, q) for p, q in zip(x.shape, y.shape)]
        lens = None
        if x.et == "arr":
            lens = x.lens if x.lens.eq(y.lens) else z3.If(c, x.lens, y.lens)
        return Arr(x.et, v, shape, g(x.nan, y.nan), g(x.pi, y.pi), g(x.ni, y.ni), x.dtype, x.is_list, lens, x.iet)

    def _ifa(self, c, p, q, nd):
        if isinstance(p, bool):
            p = KArr(nd, z3.BoolVal(p))
        if isinstance(q, bool):
            q = KArr(nd, z3.BoolVal(q))
        return p if p.eq(q) else z3.If(c, p, q)

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.iter_spec(s, st)
        return self.loop(s, st, it)

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def iter_spec(self, s, st):
        """(start, cond(c), step, bind(st, c), final_default, lo, hi) of a for loop"""
        c = s.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
            f = c.func.id
            g = self.mod.lookup(f)
            if g is not None and g[0] == "ext":
                f = g[1].split(".")[-1]
            if f in ("range", "prange"):
                a = [b2i(self.ev(x, st)) for x in c.args]
                if any(isinstance(x, FV) for x in a):
                    raise Unsupported("float range")
                lo, hi, stp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
                k = num(stp)
                if k is None or k == 0:
                    raise Unsupported("range step")
                tgt = None
                if isinstance(s.target, ast.Name):
                    others = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    if s.target.id not in others:
                        tgt = s.target.id
                return dict(lo=lo, hi=hi, step=k, bind=lambda s2, cv: self.assign(s.target, cv, s2), parallel=f == "prange", target=tgt)
            if f == "enumerate":
                v = self.ev(c.args[0], st)
                start = self.ev(c.args[1], st) if len(c.args) > 1 else 0
                return self._iter_vec(s, st, v, lambda e, i: (iadd(start, i), e))
            if f == "zip":
                vs = [self.vec_of(st, self.ev(a, st)) for a in c.args]
                n = vs[0].n
                for v in vs[1:]:
                    self.oblige(st, "zip-length", icmp("==", v.n, n), c)
                return dict(lo=0, hi=n, step=1, bind=lambda s2, cv: self.assign(s.target, tuple(v.f(cv) for v in vs), s2), parallel=False)
        v = self.ev(c, st)
        return self._iter_vec(s, st, v, lambda e, i: e)

    def _iter_vec(self, s, st, v, mk):
        if isinstance(v, tuple):
            raise Unsupported("iteration over a tuple")
        if isinstance(v, Ref):
            n = self.length(st, v)
            if st.heap[v.oid].et == "arr":
                raise Unsupported("iteration over a list of arrays")

            def bind(s2, cv):       # live view: sees stores made by the body
                self.assign(s.target, mk(fz_read(self.freeze(s2, v), cv), cv), s2)
            return dict(lo=0, hi=n, step=1, bind=bind, parallel=False)
        vec = self.vec_of(st, v)
        return dict(lo=0, hi=vec.n, step=1, bind=lambda s2, cv: self.assign(s.target, mk(vec.f(cv), cv), s2), parallel=False)

    def loop(self, s, st, it):
        lid = self.loopids.get(id(s), (self.fn, -1))
        ck = f"$c{lid[1]}_{self.depth}"
        if it is not None:
            st.env[ck] = it["lo"]
            st.env[ck + "_0"] = it["lo"]
        entry = st.copy()
        base = len(st.path)

        def cond_of(h):
            if it is None:
                return self.truth(h, self.ev(s.test, h))
            return icmp("<" if it["step"] > 0 else ">", h.env[ck], it["hi"])

        def run_body(h):
            """one iteration from head state h: (ends, breaks, others)"""
            b = h.copy()
            c = cond_of(b)
            if is_false(c):
                return [], [], []
            b.cond(c)
            if it is not None:
                it["bind"](b, b.env[ck])
            outs = self.block(s.body, b)
            ends, brk, oth = [], [], []
            for o in outs:
                if o.kind in ("normal", "continue"):
                    if it is not None:
                        o.st.env[ck] = iadd(o.st.env[ck], it["step"])
                    ends.append(o.st)
                elif o.kind == "break":
                    brk.append(o.st)
                else:
                    oth.append(o)
            return ends, brk, oth

        # ---- shape discovery: what the body changes
        names, oids = set(), set()
        shape = {}      # name -> template
        ashape = {}     # oid -> template Arr
        nraise = len(self.raises)
        self.discover += 1
        saved_inf, self.infer = self.infer, None
        try:
            for _ in range(12):
                h = self.havoc(entry, names, oids, shape, ashape, it, ck)
                ends, brk, _ = run_body(h)
                changed = False
                for e in ends:
                    for k in set(e.env) | set(h.env):
                        x, y = h.env.get(k, UNDEF), e.env.get(k, UNDEF)
                        if x is y or _same_val(x, y):
                            continue
                        if k not in names:
                            names.add(k)
                            changed = True
                        t = _join(shape.get(k, entry.env.get(k, UNDEF)), y)
                        if k not in shape or not _same_shape(shape[k], t):
                            shape[k] = t
                            changed = True
                    for o in h.heap:
                        if o in e.heap and e.heap[o] is not h.heap[o]:
                            if o not in oids:
                                oids.add(o)
                                changed = True
                            t = _join_arr(ashape.get(o, entry.heap[o]), e.heap[o])
                            if o not in ashape or not _same_ashape(ashape[o], t):
                                ashape[o] = t
                                changed = True
                if not changed:
                    break
            else:
                raise Unsupported("loop shape does not stabilise")
        finally:
            self.discover -= 1
            self.infer = saved_inf
            del self.raises[nraise:]

        # ---- invariant inference and checking
        cands = []
        if self.infer is not None and not self.discover:
            h0 = self.havoc(entry, names, oids, shape, ashape, it, ck)
            cands = self.infer.candidates(self, lid, s, h0, entry, names, oids, ck)
        alive = []
        for c in cands:
            try:
                g = self.eval_cand(c, entry, entry, ck)
            except (Undefined, Unsupported) as e:
                if self.opts.get("verbose"):
                    print("   loop", lid, "unusable candidate", c, "-", repr(e)[:200])
                continue
            if not is_false(g):
                alive.append((c, g))
        eh = entry.hyps()
        todo = [(c, g) for c, g in alive if not is_true(g)]
        res = dict(zip([c for c, _ in todo], P.prove_many([(eh, zb(g)) for _, g in todo], timeout=1500, quick=True)))
        alive = [c for c, g in alive if c not in res or res[c][0]]
        nob, nra = len(self.obls), len(self.raises)
        rounds = 0
        while True:
            rounds += 1
            del self.obls[nob:]
            del self.raises[nra:]
            h = self.havoc(entry, names, oids, shape, ashape, it, ck)
            ok = []
            for c in alive:
                try:
                    g = self.eval_cand(c, h, entry, ck)
                except (Undefined, Unsupported):
                    continue
                h.fact(g)
                ok.append(c)
            alive = ok
            hb = h
            par = it is not None and it.get("parallel") and not self.discover
            if par:
                self.par.append(dict(oids={o for o in oids if o in entry.heap}, idx=h.env[ck], lo=it["lo"], reads=[]))
            ends, brk, oth = run_body(hb)
            if par:
                frame = self.par.pop()
            ends = self.merge(ends, len(h.path)) if ends else ends
            if not alive:
                break
            bad = set()
            todo = []
            for e in ends:
                eh = e.hyps()
                for c in alive:
                    if c in bad:
                        continue
                    try:
                        g = self.eval_cand(c, e, entry, ck)
                    except (Undefined, Unsupported):
                        bad.add(c)
                        continue
                    if is_true(g):
                        continue
                    if is_false(g):
                        bad.add(c)
                    else:
                        todo.append((c, eh, zb(g)))
            lost = set(bad)
            for (c, _, _), r in zip(todo, P.prove_many([(h2, g) for _, h2, g in todo], timeout=3000, quick=True)):
                if not r[0]:
                    bad.add(c)
            if self.opts.get("cut") and bad:
                # second pass: equalities of scalars proved in this very round may be used for the array statements
                sc = lambda c: not c.startswith("forall(")
                again = [(c, h2 + [g2 for c2, h3, g2 in todo if h3 is h2 and sc(c2) and c2 not in bad], g) for c, h2, g in todo if c in bad and not sc(c)]
                rs = P.prove_many([(h2, g) for _, h2, g in again], timeout=3000, quick=True)
                still = {c for (c, _, _), r in zip(again, rs) if not r[0]}
                bad -= {c for c, _, _ in again} - still - lost
            if self.opts.get("verbose") and bad:
                print("   loop", lid, "round", rounds, "dropped", len(bad), sorted(bad)[:6])
            if not bad:
                break
            alive = [c for c in alive if c not in bad]
            if self.infer is not None:
                self.infer.note_dead(lid, self.sites, bad)
        if not self.discover:
            self.invs.setdefault(lid, set()).update(alive)
            self.loop_stats.append((lid, len(cands), len(alive), rounds))
            for c in alive:
                o = Obl("invariant", s.lineno, [], z3.BoolVal(True), c, self.fn)
                o.status, o.backend = "proved", "z3"
                self.obls.append(o)
            if it is not None and it.get("parallel"):
                self.race_check(s, entry, h, ends, ck, names, oids, it["lo"], frame["reads"])
        # ---- exits
        ex = h.copy()
        c = cond_of(ex)
        ex.cond(Not(c))
        exits = [ex] + brk
        if it is not None:
            for e in exits:
                for k in (ck, ck + "_0"):
                    e.env.pop(k, None)
        if s.orelse:
            norm = []
            rest = []
            for o in self.block(s.orelse, ex):
                (norm if o.kind == "normal" else rest).append(o)
            outs = rest + oth
            merged = self.merge([o.st for o in norm] + brk, base)
            return outs + [Outcome("normal", m) for m in merged]
        merged = self.merge(exits, len(h.path)) if len(exits) > 1 else exits
        return oth + [Outcome("normal", m) for m in merged]

    def eval_cand(self, text, st, entry, ck):
        env = CandEnv(self, st, entry, ck)
        ev = SpecEval(env, self)
        return ev.truth(ev.expr(text))

    def havoc(self, entry, names, oids, shape, ashape, it, ck):
        h = entry.copy()
        for k in names:
            t = shape.get(k, entry.env.get(k, UNDEF))
            en = entry.env.get(k, UNDEF)
            if en is UNDEF:
                # first assigned inside the loop
                fv = _fresh_like(t, k)
                if fv is UNDEF:
                    h.env[k] = UNDEF
                elif it is not None:
                    h.env[k] = MaybeU(icmp("!=", zi(it["lo"]), 0) if False else fresh("def_" + k, B), fv)
                else:
                    h.env[k] = MaybeU(fresh("def_" + k, B), fv)
            else:
                h.env[k] = _fresh_like(t, k)
                if isinstance(en, MaybeU):
                    h.env[k] = MaybeU(fresh("def_" + k, B), h.env[k])
        for o in oids:
            t = ashape.get(o, entry.heap[o])
            a, facts = _fresh_arr(t, entry.heap[o])
            for f in facts:
                h.fact(f)
            h.heap[o] = a
        if it is not None and ck in names or it is not None:
            c = fresh("c" + ck.strip("$"), I)
            h.env[ck] = c
            lo, hi, k = it["lo"], it["hi"], it["step"]
            if k > 0:
                h.fact(icmp(">=", c, lo))
                # c <= max(lo, hi + step - 1)
                top = iadd(hi, k - 1)
                h.fact(Or(icmp("<=", c, top), icmp("==", c, lo)))
            else:
                h.fact(icmp("<=", c, lo))
                h.fact(Or(icmp(">=", c, iadd(hi, k + 1)), icmp("==", c, lo)))
            if abs(k) != 1:
                h.fact((zi(c) - zi(lo)) % abs(k) == 0)
            # the loop variable, once bound, is the previous counter value
            t = it.get("target")
            if t is not None and t in names:
                prev = isub(c, k)
                en = entry.env.get(t, UNDEF)
                if en is UNDEF or isinstance(en, MaybeU):
                    h.env[t] = MaybeU(icmp("!=", c, lo), prev)
                elif is_int(en):
                    h.env[t] = z3.If(zi(c) != zi(lo), zi(prev), zi(en))
        return h

    def race_check(self, s, entry, h, ends, ck, names, oids, lo, reads):
        """iterations of a parallel loop: every cell is owned by one iteration (cells up to the first iteration's number by the
        first one, every other cell by the iteration of its number), which alone writes or reads it; no scalar is carried over"""
        idx = h.env[ck]

        def own(k):
            return z3.Or(k == zi(idx), z3.And(zi(idx) == zi(lo), k <= zi(idx)))
        for o in oids:
            for e in ends:
                k = z3.Int(f"race!{next(_oid)}")
                a, b = h.heap[o], e.heap[o]
                if o not in entry.heap:
                    continue
                if a.nd != 1 or a.et not in SORT:
                    if a is not b:
                        self.par_2d(s, o, a, b, e, own)
                    continue
                eq = z3.Select(a.v, k) == z3.Select(b.v, k)
                goal = z3.ForAll([k], z3.Implies(z3.And(z3.Not(own(k)), 0 <= k, k < zi(a.shape[0])), eq))
                self.obls.append(Obl("race-free-write", s.lineno, e.hyps(), goal, f"parallel iteration writes only cells it owns {ck}", self.fn))
        for hyps, i, ln in reads:
            self.obls.append(Obl("race-free-read", ln, hyps, own(zi(i)), "parallel iteration reads no cell that another one writes", self.fn))
        for k in names:
            if k.startswith("$") or entry.env.get(k, UNDEF) is UNDEF or k in carried_ok(s):
                continue
            self.obls.append(Obl("race-free-scalar", s.lineno, [], z3.BoolVal(False), f"variable {k} is carried from one parallel iteration to another", self.fn))

    def par_2d(self, s, o, a, b, e, own):
        self.obls.append(Obl("race-free-write", s.lineno, [], z3.BoolVal(False), "parallel iteration writes a shared 2-D array", self.fn))

    def par_read(self, st, ref, i, node, whole=False):
        """a read inside a parallel loop of an array which the loop writes"""
        for f in self.par:
            if isinstance(ref, Ref) and ref.oid in f["oids"]:
                if whole or st.heap[ref.oid].nd != 1:
                    f["reads"].append((st.hyps(), z3.Int(f"anycell!{next(_oid)}"), getattr(node, "lineno", 0)))
                else:
                    f["reads"].append((st.hyps(), iadd(ref.off, i), getattr(node, "lineno", 0)))


def carried_ok(loop):
    """names of the loop that are private (assigned before use) or reductions (only augmented)"""
    ok = set()
    names = {x.id for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    names |= {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)} if isinstance(loop, ast.For) else set()
    for k in names:
        if isinstance(loop, ast.For) and any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(loop.target)):
            ok.add(k)
            continue
        aug = [x for b in loop.body for x in ast.walk(b) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == k]
        sto = [x for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == k]
        if aug and len(sto) == len(aug) and all(isinstance(x.op, (ast.Add, ast.Sub, ast.Mult)) for x in aug):
            ok.add(k)
            continue
        if assigned_first(loop.body, k):
            ok.add(k)
    return ok


def uses(n, k):
    return any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(n))


def assigned_first(body, k):
    """every path through the block assigns k before reading it (or does not read it at all before the first definite assignment)"""
    for b in body:
        if not uses(b, k):
            continue
        if isinstance(b, ast.Assign):
            return not uses(b.value, k) and all(not uses(t, k) or stores_only(t, k) for t in b.targets)
        if isinstance(b, ast.AnnAssign):
            return b.value is not None and not uses(b.value, k)
        if isinstance(b, ast.For):
            if stores_only(b.target, k) and uses(b.target, k) and not uses(b.iter, k):
                return True         # the variable of an inner loop (if that loop is empty, k is not read in its body either)
            if not uses(b.iter, k) and assigned_first(b.body, k):
                continue
            return False
        if isinstance(b, ast.If):
            if uses(b.test, k):
                return False
            t, e = assigned_first(b.body, k), (assigned_first(b.orelse, k) if any(uses(x, k) for x in b.orelse) else None)
            bt = any(uses(x, k) for x in b.body)
            if bt and not t or e is False:
                return False
            if bt and e:
                return True
            continue                # assigned in one branch only: later uses must come after another assignment
        return False
    return True


def stores_only(t, k):
    return all(isinstance(x.ctx, ast.Store) for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == k)


def term_size(e, cap):
    n, st = 0, [e]
    while st and n < cap:
        x = st.pop()
        n += 1
        st += x.children()
    return n


def _compl(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    return (z3.is_not(a) and a.arg(0).eq(b)) or (z3.is_not(b) and b.arg(0).eq(a))


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


class CandEnv:
    """names of a candidate invariant: contract parameters, _L_x locals, _C<d>_x callers' locals, _E_x values at loop entry"""

    def __init__(self, ex, st, entry, ck):
        self.ex, self.st, self.entry, self.ck = ex, st, entry, ck
        self.extra = {}

    def _get(self, st, env, name):
        v = env[name]
        if v is UNDEF:
            raise Undefined(name)
        if isinstance(v, MaybeU):
            raise Undefined(name)
        return self.ex.freeze(st, v)

    def __contains__(self, k):
        try:
            self[k]
            return True
        except (KeyError, Undefined):
            return False

    def keys(self):
        return []

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        if k in self.extra:
            return self.extra[k]
        if k == "_k":
            return self.st.env[self.ck]
        if k == "_k0":
            return self.st.env[self.ck + "_0"]
        if k.startswith("_L_"):
            return self._get(self.st, self.st.env, k[3:])
        if k.startswith("_E_"):
            return self._get(self.entry, self.entry.env, k[3:])
        if k.startswith("_C"):
            d, nm = k[2:].split("_", 1)
            callers = self.st.callers
            fnm, env = callers[len(callers) - int(d)]
            return self._get(self.st, env, nm)
        if k in self.ex.args0:
            return self.ex.args0[k]
        raise KeyError(k)




def _same_val(x, y):
    if x is UNDEF or y is UNDEF:
        return x is y
    if isinstance(x, MaybeU) and isinstance(y, MaybeU):
        return _same_val(x.val, y.val) and _eqb(x.cond, y.cond)
    if type(x) is not type(y) and not (is_int(x) and is_int(y)):
        return False
    if isinstance(x, tuple):
        return len(x) == len(y) and all(_same_val(a, b) for a, b in zip(x, y))
    if isinstance(x, Ref):
        return x.oid == y.oid and x.row is y.row and _eqi(x.off, y.off) and (x.ln is y.ln or (x.ln is not None and y.ln is not None and _eqi(x.ln, y.ln)))
    if isinstance(x, FV):
        return x.v.eq(y.v) and _eqb(x.nan, y.nan) and _eqb(x.pi, y.pi) and _eqb(x.ni, y.ni)
    if is_int(x) and is_int(y):
        return _eqi(x, y)
    if is_bool(x) and is_bool(y):
        return _eqb(x, y)
    return x == y


def _eqi(a, b):
    na, nb = num(a), num(b)
    if na is not None or nb is not None:
        return na == nb
    return a.eq(b)


def _eqb(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a.eq(b)


class _Dead:
    """a name holding unrelated objects in different iterations: unusable at the loop head"""


DEAD = _Dead()


def _join(x, y):
    """shape join of two values"""
    if x is DEAD or y is DEAD:
        return DEAD
    if isinstance(x, MaybeU):
        x = x.val
    if isinstance(y, MaybeU):
        y = y.val
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(_join(a, b) for a, b in zip(x, y))
    if isinstance(x, FV) or isinstance(y, FV):
        if isinstance(x, (Ref, tuple, str)) or isinstance(y, (Ref, tuple, str)) or x is None or y is None:
            return DEAD
        a, b = to_fv(x), to_fv(y)
        j = lambda p, q: False if (p is False and q is False) else z3.Bool("anyflag")
        return FV(z3.RealVal(0), j(a.nan, b.nan), j(a.pi, b.pi), j(a.ni, b.ni))
    if is_bool(x) and is_bool(y):
        return z3.Bool("anyb")
    if (is_int(x) or is_bool(x)) and (is_int(y) or is_bool(y)):
        return z3.Int("anyi")
    if isinstance(x, Ref) and isinstance(y, Ref) and x.oid == y.oid and x.row is None and y.row is None:
        return Ref(x.oid, z3.Int("anyi"), z3.Int("anyi"))
    return DEAD


def _same_shape(x, y):
    if x is UNDEF or y is UNDEF:
        return x is y
    if isinstance(x, FV) and isinstance(y, FV):
        return all((getattr(x, p) is False) == (getattr(y, p) is False) for p in ("nan", "pi", "ni"))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_same_shape(a, b) for a, b in zip(x, y))
    if is_bool(x) and is_bool(y):
        return True
    if is_int(x) and is_int(y):
        return True
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.oid == y.oid
    return x is y


def _fresh_like(t, nm):
    if t is UNDEF or t is DEAD:
        return UNDEF
    if isinstance(t, MaybeU):
        return _fresh_like(t.val, nm)
    if isinstance(t, tuple):
        return tuple(_fresh_like(x, nm) for x in t)
    if isinstance(t, FV):
        g = lambda p, s: False if p is False else fresh(nm + s, B)
        return FV(fresh(nm, R), g(t.nan, "_nan"), g(t.pi, "_pi"), g(t.ni, "_ni"))
    if is_bool(t):
        return fresh(nm, B)
    if is_int(t):
        return fresh(nm, I)
    if isinstance(t, Ref):
        # a window into an array that moves between iterations; it must be rebound before use
        return UNDEF
    return UNDEF


def _join_arr(x, y):
    if x.et == "any":
        return y
    if y.et == "any":
        return x
    if x.et != y.et:
        raise Unsupported("array type changes in loop")
    j = lambda p, q: False if (p is False and q is False) else True
    return y.rep(nan=j(x.nan, y.nan), pi=j(x.pi, y.pi), ni=j(x.ni, y.ni), dtype=x.dtype)


def _same_ashape(x, y):
    return x.et == y.et and all((getattr(x, p) is False) == (getattr(y, p) is False) for p in ("nan", "pi", "ni"))


def _fresh_arr(t, old):
    facts = []
    if t.et == "any":
        return t, facts
    if t.et == "arr":
        shape = [fresh("len", I)] if t.is_list else t.shape
        if t.is_list:
            facts.append(shape[0] >= 0)
        return t.rep(v=fresh("arr", t.v.sort()), lens=fresh("lens", t.lens.sort()), shape=shape), facts
    v = fresh("arr", arr_sort(t.et, t.nd))
    fl = {p: (False if getattr(t, p) is False else fresh("arr_" + p, flag_sort(t.nd))) for p in ("nan", "pi", "ni")}
    shape = old.shape
    if t.is_list:
        shape = [fresh("len", I)]
        facts.append(shape[0] >= 0)
    return t.rep(v=v, shape=shape, dtype=old.dtype, **fl), facts
