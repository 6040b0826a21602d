"""Symbolic values and arithmetic.

Integers are mathematical integers.  A float is an extended real: a real value plus three flags (NaN, +inf, -inf);
rounding is not modelled.  Products and quotients of two non-constant reals are the uninterpreted symbols umul/udiv
in the first proof stage and real multiplication/division in the second.
"""
import itertools
import math
from fractions import Fraction

import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
umul = z3.Function("umul", R, R, R)
udiv = z3.Function("udiv", R, R, R)
uimul = z3.Function("uimul", I, I, I)
uidiv = z3.Function("uidiv", I, I, I)
uimod = z3.Function("uimod", I, I, I)
urnd = z3.Function("urnd", R, I)       # round half to even; facts supplied by the prover
ulog = z3.Function("ulog", R, R)
uexp = z3.Function("uexp", R, R)
usqrt = z3.Function("usqrt", R, R)
upow = z3.Function("upow", R, R, R)
usin = z3.Function("usin", R, R)
ucos = z3.Function("ucos", R, R)
ulog1p = z3.Function("ulog1p", R, R)

_cnt = itertools.count()


def fresh(name, sort):
    return z3.Const(f"{name}!{next(_cnt)}", sort)


class Unsupported(Exception):
    """The construct is outside the verified subset."""


class Undefined(Exception):
    """A name or component is not available here."""


# ---------------------------------------------------------------- booleans
def is_true(x):
    return x is True or (not isinstance(x, bool) and z3.is_true(x))


def is_false(x):
    return x is False or (not isinstance(x, bool) and z3.is_false(x))


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def And(*xs):
    out = []
    for x in xs:
        if is_false(x):
            return False
        if is_true(x) or any(x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) for y in out[-2:]):
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if is_true(x):
            return True
        if is_false(x) or any(x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) for y in out[-2:]):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Implies(a, b):
    if is_false(a) or is_true(b):
        return True
    if is_true(a):
        return b
    if is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---------------------------------------------------------------- ints
def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())


def is_bool(x):
    return isinstance(x, bool) or isinstance(x, z3.BoolRef)


def num(x):
    """python int of an int constant or None"""
    if isinstance(x, int):
        return int(x)
    if isinstance(x, z3.IntNumRef):
        return x.as_long()
    return None


def fold_i(x):
    n = num(x)
    return n if n is not None else x


def iadd(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return na + nb
    if na == 0:
        return b
    if nb == 0:
        return a
    # fold (x + c1) + c2
    if nb is not None and z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2 and num(a.arg(1)) is not None:
        return iadd(a.arg(0), num(a.arg(1)) + nb)
    if na is not None:
        return iadd(b, na)
    # x + (y + c)
    if not isinstance(b, int) and z3.is_app_of(b, z3.Z3_OP_ADD) and b.num_args() == 2 and num(b.arg(1)) is not None:
        return iadd(iadd(a, b.arg(0)), num(b.arg(1)))
    if not isinstance(a, int) and z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2 and num(a.arg(1)) is not None:
        return iadd(iadd(a.arg(0), b), num(a.arg(1)))
    return zi(a) + zi(b)


def isub(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return na - nb
    if nb is not None:
        return iadd(a, -nb)
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return 0
    return zi(a) - zi(b)


def lin(e, out=None, k=1):
    """integer linear form: {atom id: (atom, coefficient)}, constant under key None"""
    out = {} if out is None else out
    n = num(e)
    if n is not None:
        out[None] = out.get(None, 0) + k * n
    elif z3.is_add(e):
        for c in e.children():
            lin(c, out, k)
    elif z3.is_sub(e):
        cs = e.children()
        lin(cs[0], out, k)
        for c in cs[1:]:
            lin(c, out, -k)
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        lin(e.arg(0), out, -k)
    elif z3.is_mul(e) and e.num_args() == 2 and (num(e.arg(0)) is not None or num(e.arg(1)) is not None):
        x, y = e.children()
        if num(x) is None:
            x, y = y, x
        lin(y, out, k * num(x))
    else:
        i = e.get_id()
        p = out.get(i, (e, 0))
        out[i] = (e, p[1] + k)
    return out


def unlin(l):
    r = None
    for i in sorted(k for k in l if k is not None):
        e, c = l[i]
        if c == 0:
            continue
        t = e if c == 1 else zi(c) * e
        r = t if r is None else r + t
    c = l.get(None, 0)
    if r is None:
        return c
    return r if c == 0 else r + zi(c)


def imul(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return na * nb
    if na is not None or nb is not None:
        if na == 1:
            return b
        if nb == 1:
            return a
        return zi(a) * zi(b)
    la, lb = lin(a), lin(b)
    if len(la) * len(lb) > 24:
        return uimul(a, b)
    out = {}
    for i, x in la.items():
        for j, y in lb.items():
            if i is None and j is None:
                lin(zi(x * y), out)
            elif i is None:
                lin(y[0], out, y[1] * x)
            elif j is None:
                lin(x[0], out, x[1] * y)
            elif x[1] * y[1]:
                p, q = (x[0], y[0]) if i <= j else (y[0], x[0])
                lin(uimul(p, q), out, x[1] * y[1])
    return unlin(out)


def ifloordiv(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None and nb != 0:
        return na // nb
    if nb is not None and nb > 0:
        x = zi(a)
        if z3.is_app_of(x, z3.Z3_OP_IDIV) and num(x.arg(1)) is not None and num(x.arg(1)) > 0:
            return ifloordiv(x.arg(0), num(x.arg(1)) * nb)     # floor(floor(x / p) / q) == floor(x / (p q))
        return x / zi(b)               # z3 integer division is floor for positive divisors
    if nb is None:
        # multiples of the divisor leave the quotient: floor((m*b + r) / b) == m + floor(r / b) for b != 0
        l = lin(a)
        whole, rest = {}, {}
        for i, x in l.items():
            if i is not None:
                e, c = x
                if e.eq(b):
                    lin(zi(c), whole)
                    continue
                if z3.is_app(e) and e.decl().name() == "uimul" and (e.arg(0).eq(b) or e.arg(1).eq(b)):
                    lin(e.arg(1) if e.arg(0).eq(b) else e.arg(0), whole, c)
                    continue
            rest[i] = x
        if whole:
            r = unlin(rest)
            w = unlin(whole)
            if num(r) == 0:
                return w
            return iadd(w, uidiv(zi(r), b))
    return uidiv(zi(a), zi(b))


def imod(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None and nb != 0:
        return na % nb
    if nb is not None and nb > 0:
        x = zi(a)
        if z3.is_app_of(x, z3.Z3_OP_MOD) and num(x.arg(1)) is not None and num(x.arg(1)) > 0 and num(x.arg(1)) % nb == 0:
            return imod(x.arg(0), nb)                      # (x mod pq) mod q == x mod q
        return x % zi(b)
    return uimod(zi(a), zi(b))


def ineg(a):
    n = num(a)
    return -n if n is not None else -a


# ---------------------------------------------------------------- floats
class FV:
    __slots__ = ("v", "nan", "pi", "ni")

    def __init__(self, v, nan=False, pi=False, ni=False):
        self.v, self.nan, self.pi, self.ni = v, nan, pi, ni

    @property
    def special(self):
        return Or(self.nan, self.pi, self.ni)

    @property
    def inf(self):
        return Or(self.pi, self.ni)

    def __repr__(self):
        return f"FV({self.v},{self.nan},{self.pi},{self.ni})"


def fconst(x):
    if isinstance(x, float):
        if math.isnan(x):
            return FV(z3.RealVal(0), True)
        if math.isinf(x):
            return FV(z3.RealVal(0), False, x > 0, x < 0)
    f = Fraction(x)
    # a decimal literal such as 0.1 is taken as the decimal it is written as, not its binary neighbour
    if isinstance(x, float):
        f = Fraction(repr(x)) if "e" not in repr(x) and "E" not in repr(x) else Fraction(repr(x))
    return FV(z3.RealVal(f"{f.numerator}/{f.denominator}"))


def to_fv(x):
    if isinstance(x, FV):
        return x
    if isinstance(x, bool):
        return FV(z3.RealVal(1 if x else 0))
    if isinstance(x, int):
        return FV(z3.RealVal(x))
    if isinstance(x, z3.IntNumRef):
        return FV(z3.RealVal(x.as_long()))
    if isinstance(x, z3.BoolRef):
        return FV(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, z3.ArithRef):
        return FV(z3.ToReal(x)) if x.is_int() else FV(x)
    raise Unsupported(f"not a number: {type(x).__name__}")


def rnum(v):
    if isinstance(v, z3.RatNumRef):
        return v.as_fraction()
    return None


def rmul(a, b):
    x, y = rnum(a), rnum(b)
    if x is not None and y is not None:
        f = x * y
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if x is not None:
        return b if x == 1 else (z3.RealVal(0) if x == 0 else a * b)
    if y is not None:
        return a if y == 1 else (z3.RealVal(0) if y == 0 else b * a)
    return umul(a, b)


def rdiv(a, b):
    y = rnum(b)
    if y is not None and y != 0:
        x = rnum(a)
        if x is not None:
            f = x / y
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        f = 1 / y
        return a if y == 1 else a * z3.RealVal(f"{f.numerator}/{f.denominator}")
    return udiv(a, b)


def radd(a, b):
    x, y = rnum(a), rnum(b)
    if x is not None and y is not None:
        f = x + y
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if x == 0:
        return b
    if y == 0:
        return a
    return a + b


def If(c, a, b):
    """merge of two scalars of compatible kinds"""
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, FV) or isinstance(b, FV):
        a, b = to_fv(a), to_fv(b)
        v = a.v if a.v.eq(b.v) else z3.If(c, a.v, b.v)
        return FV(v, ifb(c, a.nan, b.nan), ifb(c, a.pi, b.pi), ifb(c, a.ni, b.ni))
    if is_bool(a) and is_bool(b):
        return ifb(c, a, b)
    if is_bool(a):
        a = z3.If(zb(a), z3.IntVal(1), z3.IntVal(0))
    if is_bool(b):
        b = z3.If(zb(b), z3.IntVal(1), z3.IntVal(0))
    if is_int(a) and is_int(b):
        na, nb = num(a), num(b)
        if na is not None and na == nb:
            return na
        a, b = zi(a), zi(b)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    raise Unsupported("merge of incompatible values")


def ifb(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if a is True:
        return Or(c, b)
    if a is False:
        return And(Not(c), b)
    if b is True:
        return Or(Not(c), a)
    if b is False:
        return And(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def fneg(a):
    return FV(z3.simplify(-a.v) if rnum(a.v) is not None else -a.v, a.nan, a.ni, a.pi)


def fadd(a, b):
    nan = Or(a.nan, b.nan, And(a.pi, b.ni), And(a.ni, b.pi))
    return FV(radd(a.v, b.v), nan, And(Or(a.pi, b.pi), Not(nan)), And(Or(a.ni, b.ni), Not(nan)))


def fsub(a, b):
    nan = Or(a.nan, b.nan, And(a.pi, b.pi), And(a.ni, b.ni))
    x, y = rnum(a.v), rnum(b.v)
    v = z3.simplify(a.v - b.v) if (x is not None and y is not None) else (a.v if y == 0 else a.v - b.v)
    return FV(v, nan, And(Or(a.pi, b.ni), Not(nan)), And(Or(a.ni, b.pi), Not(nan)))


def _sgn(a):
    """(positive, negative, zero) as an extended real that is not NaN"""
    x = rnum(a.v)
    fin = Not(Or(a.pi, a.ni))
    if x is not None:
        return Or(a.pi, And(fin, x > 0)), Or(a.ni, And(fin, x < 0)), And(fin, x == 0)
    if a.pi is False and a.ni is False:
        return a.v > 0, a.v < 0, a.v == 0
    return Or(a.pi, And(fin, a.v > 0)), Or(a.ni, And(fin, a.v < 0)), And(fin, a.v == 0)


def fmul(a, b):
    if a.pi is False and a.ni is False and b.pi is False and b.ni is False:
        return FV(rmul(a.v, b.v), Or(a.nan, b.nan))
    ap, an, _ = _sgn(a)
    bp, bn, _ = _sgn(b)
    zero = lambda f: (rnum(f.v) == 0) if rnum(f.v) is not None else f.v == 0
    nan = Or(a.nan, b.nan, And(Or(a.pi, a.ni), Not(Or(b.pi, b.ni)), zero(b)), And(Or(b.pi, b.ni), Not(Or(a.pi, a.ni)), zero(a)))
    pi = And(Not(nan), Or(And(a.pi, bp), And(a.ni, bn), And(b.pi, ap), And(b.ni, an)))
    ni = And(Not(nan), Or(And(a.pi, bn), And(a.ni, bp), And(b.pi, an), And(b.ni, ap)))
    return FV(rmul(a.v, b.v), nan, pi, ni)


def fdiv_np(a, b):
    """IEEE division (numpy mode); a signed zero divisor is taken as +0"""
    ap, an, az = _sgn(a)
    bp, bn, bz = _sgn(b)
    ainf, binf = a.inf, b.inf
    nan = Or(a.nan, b.nan, And(ainf, binf), And(az, bz))
    pi = And(Not(nan), Or(And(bz, ap), And(ainf, Or(And(a.pi, bp), And(a.ni, bn)))))
    ni = And(Not(nan), Or(And(bz, an), And(ainf, Or(And(a.pi, bn), And(a.ni, bp)))))
    v = rdiv(a.v, b.v)
    if binf is not False:
        v = z3.If(zb(binf), z3.RealVal(0), v)
    return FV(v, nan, pi, ni)


def fdiv(a, b):
    """division whose divisor is known to be nonzero (a separate obligation)"""
    if a.pi is False and a.ni is False and b.pi is False and b.ni is False:
        return FV(rdiv(a.v, b.v), Or(a.nan, b.nan))
    return fdiv_np(a, FV(b.v, b.nan, b.pi, b.ni))


def _cmp(op, a, b):
    """a op b where neither is NaN is required for truth"""
    ok = And(Not(a.nan), Not(b.nan))
    if a.pi is False and a.ni is False and b.pi is False and b.ni is False:
        base = op(a.v, b.v)
        base = True if z3.is_true(base) else False if z3.is_false(base) else base
        x, y = rnum(a.v), rnum(b.v)
        if x is not None and y is not None:
            base = is_true(z3.simplify(base)) if not isinstance(base, bool) else base
        return And(ok, base)
    # rank: ni < finite < pi
    lt = Or(And(a.ni, Not(b.ni)), And(b.pi, Not(a.pi)), And(Not(a.inf), Not(b.inf), zb(a.v < b.v)))
    eq = Or(And(a.ni, b.ni), And(a.pi, b.pi), And(Not(a.inf), Not(b.inf), zb(a.v == b.v)))
    t = op("lt", "eq")
    res = {"<": lt, "<=": Or(lt, eq), ">": Not(Or(lt, eq)), ">=": Not(lt), "==": eq}[t]
    return And(ok, res)


class _Op:
    def __init__(self, s, f):
        self.s, self.f = s, f

    def __call__(self, a, b):
        if isinstance(a, str):
            return self.s
        return self.f(a, b)


LT = _Op("<", lambda a, b: a < b)
LE = _Op("<=", lambda a, b: a <= b)
GT = _Op(">", lambda a, b: a > b)
GE = _Op(">=", lambda a, b: a >= b)
EQ = _Op("==", lambda a, b: a == b)
OPS = {"<": LT, "<=": LE, ">": GT, ">=": GE, "==": EQ}


def fcmp(op, a, b):
    if op == "!=":
        return Not(_cmp(EQ, a, b))
    return _cmp(OPS[op], a, b)


def icmp(op, a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return {"<": na < nb, "<=": na <= nb, ">": na > nb, ">=": na >= nb, "==": na == nb, "!=": na != nb}[op]
    a, b = zi(a), zi(b)
    if op == "==":
        return True if a.eq(b) else a == b
    if op == "!=":
        return False if a.eq(b) else a != b
    return OPS[op](a, b)


def same_fv(a, b):
    fin = And(Not(a.special), Not(b.special))
    return And(iff(a.nan, b.nan), iff(a.pi, b.pi), iff(a.ni, b.ni),
               Or(Not(fin) if fin is not True else False, True if a.v.eq(b.v) else a.v == b.v))


def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    if a.eq(b):
        return True
    return a == b


# ---------------------------------------------------------------- arrays
class Arr:
    """Immutable snapshot of an array or list object."""
    __slots__ = ("et", "v", "nan", "pi", "ni", "shape", "dtype", "is_list", "lens", "iet")

    def __init__(self, et, v, shape, nan=False, pi=False, ni=False, dtype=None, is_list=False, lens=None, iet=None):
        self.et, self.v, self.nan, self.pi, self.ni = et, v, nan, pi, ni
        self.shape, self.dtype, self.is_list = tuple(shape), dtype, is_list
        self.lens, self.iet = lens, iet

    def rep(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Arr(**d)

    @property
    def nd(self):
        return len(self.shape)


SORT = {"int": I, "float": R, "bool": B}


def arr_sort(et, nd=1):
    return z3.ArraySort(*([I] * nd + [SORT[et]]))


def flag_sort(nd=1):
    return z3.ArraySort(*([I] * nd + [B]))


def const_arr(et, val, nd=1):
    return KArr(nd, val)


def KArr(nd, val):
    if nd == 1:
        return z3.K(I, val)
    x, y = z3.Ints("kx ky")
    return z3.Lambda([x, y], val)


class Ref:
    """Reference to an array object; 1-D refs may be windows [off, off+ln)."""
    __slots__ = ("oid", "off", "ln", "row")

    def __init__(self, oid, off=0, ln=None, row=None):
        self.oid, self.off, self.ln, self.row = oid, off, ln, row

    def whole(self):
        return num(self.off) == 0 and self.ln is None and self.row is None

    def __repr__(self):
        return f"Ref({self.oid},{self.off},{self.ln},{self.row})"


class Vec:
    """A lazy 1-D vector: length and element function (elementwise numpy expressions)."""
    __slots__ = ("n", "f", "et")

    def __init__(self, n, f, et):
        self.n, self.f, self.et = n, f, et


def sel(a, *ix):
    """array read, beta-reduced"""
    if z3.is_quantifier(a) and a.is_lambda() and len(ix) == a.num_vars():
        return z3.substitute_vars(a.body(), *reversed(ix))
    if z3.is_K(a):
        return a.arg(0)
    return z3.Select(a, *ix)


def lam(k, body):
    """array comprehension; bound names are canonical, so equal bodies are one term"""
    q = z3.Lambda([k], body)
    c = q.ctx
    names = (z3.Symbol * 1)(z3.to_symbol("i", c)) if hasattr(z3, "Symbol") else None
    sorts = (z3.Sort * 1)(k.sort().ast)
    return z3.QuantifierRef(z3.Z3_mk_lambda(c.ref(), 1, sorts, names, q.body().as_ast()), c)
