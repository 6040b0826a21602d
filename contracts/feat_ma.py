from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np

M = "finmlkit/feature/core/ma.py:"
O = "finmlkit/feature/core/momentum.py:"


def series(rng, n, lo=None, nan=0.0):
    """values whose sums and squares are exact in binary floating point (the proof is over the reals: no rounding)"""
    x = np.array([rng.choice([1.0, 2.0, 0.5, -1.0, 2.5, 3.0]) if rng.random() < 0.7 else rng.randrange(-40, 41) / 16 for _ in range(n)])
    if lo is not None:
        x = np.abs(x) + lo
    if rng.random() < 0.15:
        x[:] = abs(x[0]) + 1
    for i in range(n):
        if rng.random() < nan:
            x[i] = np.nan
    return x


def scaled(g, *idx, ks=(2.0 ** -24, 2.0 ** -30, 2.0 ** 16)):
    """now and then the same inputs in other units: tiny prices or volumes, or huge ones"""
    def h(rng, n):
        a = g(rng, n)
        if rng.random() < 0.8:
            return a
        k = rng.choice(ks)
        return tuple(x * k if i in idx else x for i, x in enumerate(a))
    return h


def pow2(rng, n, nan=0.0):
    """signed powers of two: a weighted mean of equal values is exact whatever the weights"""
    x = np.array([rng.choice([1.0, 2.0, 0.5, -1.0, 4.0, 0.25, -2.0]) for _ in range(n)])
    for i in range(n):
        if rng.random() < nan:
            x[i] = np.nan
    return x


def win(rng, n, lo=1):
    return max(lo, rng.choice([1, 2, 3, n, n + 1, 4, n - 1]))


# ---- exponential average: weights (1 - alpha)^k, alpha = 2 / (span + 1), normalised
@spec("A_real, int, int -> real")
def ew_num(y, span, t):
    return y[0] if t <= 0 else y[t] + (1.0 - 2.0 / (span + 1.0)) * ew_num(y, span, t - 1)


@spec("int, int -> real")
def ew_den(span, t):
    return 1.0 if t <= 0 else 1.0 + (1.0 - 2.0 / (span + 1.0)) * ew_den(span, t - 1)


Contract(M + "ewma", ["y: A_real", "span: int"], requires=["len(y) >= 1"],
         raises=[("ValueError", "span < 1")],
         pointwise=[(None, "len(y)", "ew_num(y, span, b) / ew_den(span, b)")],
         templates=["same($x, ew_num(y, span, $k))", "same($x, ew_den(span, $k))", "forall(0, $k, lambda b: ew_den(span, b) >= 1)", "$x >= 1"],
         gen=lambda rng, n: (series(rng, n), rng.choice([0, 1, 2, 3, 10, -1])))

Contract(M + "sma", ["array: A_real", "window: int"], requires=["window >= 1"],
         pointwise=[(None, "len(array)", "ite(b < window - 1, nan, 1.0 / window * asum(array, b - window + 1, b + 1))", 1)],
         templates=["same($x, asum(array, $u, $k))", "same($x, asum(array, $u - window + 1, $u - window + 1 + $k))"],
         gen=scaled(lambda rng, n: (series(rng, n), win(rng, n)), 0))

Contract(O + "roc", ["price: A_real", "period: int"], requires=["period >= 1", "forall(0, len(price), lambda i: price[i] != 0)"],
         pointwise=[(None, "len(price)", "ite(b < period, nan, (price[b] - price[b - period]) / price[b - period] * 100)", 1)],
         gen=scaled(lambda rng, n: (series(rng, n), win(rng, n)), 0))


# ---- Wilder RSI
@spec("A_real, int -> real", macro=True)
def up_move(c, i):
    return ite(c[i] - c[i - 1] > 0, c[i] - c[i - 1], 0.0)


@spec("A_real, int -> real", macro=True)
def down_move(c, i):
    return ite(c[i] - c[i - 1] < 0, c[i - 1] - c[i], 0.0)


@spec("A_real, int -> real")
def ups(c, i):
    return 0.0 if i <= 0 else ups(c, i - 1) + up_move(c, i)


@spec("A_real, int -> real")
def downs(c, i):
    return 0.0 if i <= 0 else downs(c, i - 1) + down_move(c, i)


@spec("A_real, int, int -> real")
def avg_up(c, w, t):
    return ups(c, w) / w if t <= w else ((w - 1) * avg_up(c, w, t - 1) + up_move(c, t)) / w


@spec("A_real, int, int -> real")
def avg_down(c, w, t):
    return downs(c, w) / w if t <= w else ((w - 1) * avg_down(c, w, t - 1) + down_move(c, t)) / w


Contract(O + "rsi_wilder", ["close: A_real", "window: int"], requires=["window >= 1"],
         pointwise=[(None, "len(close)", "ite(b < window, nan, ite(avg_down(close, window, b) > 0, 100.0 - 100.0 / (1.0 + avg_up(close, window, b) / avg_down(close, window, b)), nan))", 1)],
         ensures=["forall(0, len(close), lambda b: isnan(result[b]) or (0 <= result[b] and result[b] <= 100))"],
         templates=["same($x, ups(close, $k))", "same($x, downs(close, $k))", "same($x, avg_up(close, window, $k))", "same($x, avg_down(close, window, $k))",
                    "forall(0, len($A), lambda b: implies(b < $k, isnan($A[b]) or (0 <= $A[b] and $A[b] <= 100)))"],
         gen=scaled(lambda rng, n: (series(rng, n, 1.0), win(rng, n)), 0))


# ---- stochastic %K
def g_stoch(rng, n):
    lo = series(rng, n, 1.0)
    hi = lo + np.array([rng.choice([0.0, 0.5, 1.0]) for _ in range(n)])
    if rng.random() < 0.2:
        lo[:], hi[:] = 1.0, 1.0
    return (np.array([rng.choice([a, b, (a + b) / 2]) for a, b in zip(lo, hi)]), lo, hi, win(rng, n))


LO, HI = "amin(low, b - length + 1, b + 1)", "amax(high, b - length + 1, b + 1)"
DROP = "induct(1, len(close), lambda m: forall(0, len(close), lambda i: implies(i + 1 < m, {f}({a}, i, m) == {g}({a}[i], {f}({a}, i + 1, m)))))"
MEM = "induct(1, len(close), lambda m: forall(0, len(close), lambda i: implies(i < m, forall(i, m, lambda q: {a}[q] {op} {f}({a}, i, m)))))"
Contract(O + "stoch_k", ["close: A_real", "low: A_real", "high: A_real", "length: int"],
         requires=["length >= 1", "len(low) == len(close)", "len(high) == len(close)"],
         pointwise=[(None, "len(close)", f"ite(b < length - 1, nan, ite({HI} > {LO}, 100.0 * (close[b] - {LO}) / ({HI} - {LO}), nan))", 1)],
         ensures=[f"forall(0, len(close), lambda b: implies(low[b] <= close[b] and close[b] <= high[b], isnan(result[b]) or (0 <= result[b] and result[b] <= 100)))"],
         prelemmas=[DROP.format(f="amin", g="min", a="low"), DROP.format(f="amax", g="max", a="high")],
         lemmas=[MEM.format(f="amin", a="low", op=">="), MEM.format(f="amax", a="high", op="<=")],
         templates=["same($x, amin(low, $k - length, $k))", "same($x, amax(high, $k - length, $k))"],
         gen=scaled(g_stoch, 0, 1, 2))
