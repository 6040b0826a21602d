"""Ghost reductions shared by all contracts."""
from .dsl import *  # noqa: F403


@spec("A_real, int, int -> real", fold=True)
def asum(a, lo, hi):
    return 0.0 if hi <= lo else asum(a, lo, hi - 1) + a[hi - 1]


@spec("A_float, int, int -> float", fold=True)
def nsum(a, lo, hi):
    return 0.0 if hi <= lo else nsum(a, lo, hi - 1) + a[hi - 1]


@spec("A_float, int, int -> real", fold=True)
def nansum(a, lo, hi):
    return 0.0 if hi <= lo else (nansum(a, lo, hi - 1) if isnan(a[hi - 1]) else nansum(a, lo, hi - 1) + a[hi - 1])


@spec("A_float, int, int -> int", fold=True)
def ncount(a, lo, hi):
    return 0 if hi <= lo else (ncount(a, lo, hi - 1) if isnan(a[hi - 1]) else ncount(a, lo, hi - 1) + 1)


@spec("A_int, int, int -> int", fold=True)
def isum(a, lo, hi):
    return 0 if hi <= lo else isum(a, lo, hi - 1) + a[hi - 1]


@spec("A_bool, int, int -> int", fold=True)
def bcount(a, lo, hi):
    return 0 if hi <= lo else bcount(a, lo, hi - 1) + (1 if a[hi - 1] else 0)


@spec("A_real, int, int -> real", fold=2)
def amax(a, lo, hi):
    return a[lo] if hi <= lo + 1 else max(amax(a, lo, hi - 1), a[hi - 1])


@spec("A_real, int, int -> real", fold=2)
def amin(a, lo, hi):
    return a[lo] if hi <= lo + 1 else min(amin(a, lo, hi - 1), a[hi - 1])


@spec("A_int, int, int -> int", fold=2)
def imax(a, lo, hi):
    return a[lo] if hi <= lo + 1 else max(imax(a, lo, hi - 1), a[hi - 1])


@spec("A_int, int, int -> int", fold=2)
def imin(a, lo, hi):
    return a[lo] if hi <= lo + 1 else min(imin(a, lo, hi - 1), a[hi - 1])


@spec("A_real, A_real, int, int -> real", fold=True)
def dotp(a, b, lo, hi):
    return 0.0 if hi <= lo else dotp(a, b, lo, hi - 1) + a[hi - 1] * b[hi - 1]


from .dsl import isnan  # noqa: E402
