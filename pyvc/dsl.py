"""Contract language, concrete side.

A *spec function* is an ordinary pure Python function decorated with @spec.  It is used twice:
  * concretely, to evaluate a contract against a run of the real code, and
  * symbolically, read from its own source and turned into an (uninterpreted + defining equation) SMT function.
So the specification that is proved and the one that is executed are the same text.
"""
import functools
import math
import sys

sys.setrecursionlimit(200000)
nan = math.nan
inf = math.inf

SPECS = {}
_memo = {}


def reset():
    _memo.clear()


class SpecFn:
    def __init__(self, fn, sig, macro=False, fold=False):
        self.fn = fn
        self.fold = fold
        self.macro = macro
        self.name = fn.__name__
        a, r = sig.split("->")
        self.ptypes = [x.strip() for x in a.split(",") if x.strip()]
        self.rtype = r.strip()
        self.module = fn.__module__
        SPECS[self.name] = self
        functools.update_wrapper(self, fn)

    def __call__(self, *args):
        key = [self.name]
        for a in args:
            try:
                key.append(int(a) if type(a).__name__.startswith(("int", "uint")) else hash(a) if isinstance(a, (str, bool)) else a if isinstance(a, (int, float)) else id(a))
            except TypeError:
                key.append(id(a))
        key = tuple(key)
        r = _memo.get(key)
        if r is None:
            v = self.fn(*args)
            _memo[key] = (v, args)
            return v
        return r[0]


def spec(sig, macro=False, fold=False):
    """macro: always expanded in proofs (breaks a mutual recursion); fold: reads its arrays only in [lo, hi), its last two arguments"""
    def deco(fn):
        return SpecFn(fn, sig, macro, fold)
    return deco


# ---- vocabulary available in contract expressions (concrete meaning) ----

class SpecUndefined(Exception):
    pass


def forall(lo, hi, f):
    lo, hi = int(lo), int(hi)
    for b in range(lo, hi):
        if not f(b):
            return False
    return True


def exists(lo, hi, f):
    return any(f(b) for b in range(int(lo), int(hi)))


def sumof(lo, hi, f):
    r = 0.0
    for j in range(int(lo), int(hi)):
        r += f(j)
    return r


nsumof = sumof


def countof(lo, hi, f):
    return sum(1 for j in range(int(lo), int(hi)) if f(j))


class _Implies:
    pass


def implies(a, b):
    # both sides are evaluated lazily by the expression rewriter (see contract.compile_expr)
    return (not a) or b


def isnan(x):
    return x != x


def isinf(x):
    return x == math.inf or x == -math.inf


def isfinite(x):
    return not isnan(x) and not isinf(x)


RTOL = 1e-9
try:
    from numpy import float32 as _f32
except ImportError:
    _f32 = None
ATOL = 1e-12


def same(x, y, rtol=None):
    """Equal, or both NaN.  Concretely up to rounding; symbolically exact over the reals."""
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    xn, yn = x != x, y != y
    if xn or yn:
        return bool(xn and yn)
    if x == y:
        return True
    if rtol is None and (type(x) is _f32 or type(y) is _f32):
        rtol = 4e-6
    x = float(x)
    y = float(y)
    if math.isinf(x) or math.isinf(y):
        return False
    t = RTOL if rtol is None else rtol
    return abs(x - y) <= ATOL * _scale() + t * max(abs(x), abs(y))


_SC = [1.0]


def _scale():
    return _SC[0]


def set_tolerance(rtol, atol):
    global RTOL, ATOL
    RTOL, ATOL = rtol, atol


def leq(x, y):
    """x <= y up to rounding; symbolically exact."""
    return x <= y or same(x, y)


def ite(c, a, b):
    return a if c else b


def floor_(x):
    return math.floor(x)


def ceil_(x):
    return math.ceil(x)


def log_(x):
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def exp_(x):
    return math.exp(x)


def sqrt_(x):
    return math.sqrt(x) if x >= 0 else math.nan


def log1p_(x):
    return math.log1p(x)


def sin_(x):
    return math.sin(x)


def cos_(x):
    return math.cos(x)


def round_(x):
    return round(float(x))


def real(x):
    return float(x)


# ext functions: library reductions kept uninterpreted in proofs (extensional in the cells they read)
def median_(a, lo, hi):
    import numpy as np
    return float(np.median(a[lo:hi])) if hi > lo else math.nan


def percentile_(a, lo, hi, q):
    import numpy as np
    return float(np.percentile(a[lo:hi], q)) if hi > lo else math.nan


def asum_(a, lo, hi):
    import numpy as np
    return a[lo:hi].sum()


VOCAB = dict(forall=forall, exists=exists, implies=implies, isnan=isnan, isinf=isinf, isfinite=isfinite, same=same,
             leq=leq, ite=ite, floor_=floor_, ceil_=ceil_, log_=log_, exp_=exp_, sqrt_=sqrt_, log1p_=log1p_, sin_=sin_, cos_=cos_, round_=round_,
             real=real, median_=median_, percentile_=percentile_, sumof=sumof, nsumof=nsumof, countof=countof, len=len, abs=abs, min=min, max=max)
