from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np
from .feat_ma import scaled


# ---- lagged returns
def g_lag(rng, n):
    t = np.cumsum([rng.choice([0, 1, 1, 2, 5]) for _ in range(n)]).astype(np.int64) * 500_000_000 + rng.choice([0, 10**9])
    if rng.random() < 0.4:  # real clocks: milliseconds around the year 2023
        t = t + 1_700_000_000_000_000_000 + rng.randrange(1000) * 1_000_000
    c = np.array([rng.choice([100.0, 101.0, 99.5, 0.0, 50.0]) if rng.random() < 0.5 else 100.0 + rng.random() for _ in range(n)])
    return (t, c, rng.choice([0.5, 1.0, 2.0, 2.5, 0.25, 0.0, -1.0]), rng.random() < 0.5)


W = "round_(return_window_sec * 1000000000.0)"
RET = "ite(close[{j}] != 0, ite(is_log, log_(close[{i}] / close[{j}]), close[{i}] / close[{j}] - 1.0), inf)"
DEF = (f"forall(0, {{n}}, lambda i: forall(0, len(close) - 1, lambda j: implies(j < i and timestamps[j] <= timestamps[i] - {W} and timestamps[i] - {W} < timestamps[j + 1], "
       f"same({{r}}[i], " + RET.format(i="i", j="j") + "))))")
NIL = f"implies({W} <= 0, forall(0, {{n}}, lambda i: isnan({{r}}[i])))"     # a window below half a nanosecond
UND = f"forall(0, {{n}}, lambda i: implies(timestamps[i] - {W} < timestamps[0], isnan({{r}}[i])))"
Contract("finmlkit/feature/core/utils.py:comp_lagged_returns", ["timestamps: A_int", "close: A_real", "return_window_sec: real", "is_log: bool"],
         requires=["len(timestamps) == len(close)", "len(close) >= 1", "forall(0, len(close), lambda i: close[i] >= 0)",
                   "implies(is_log, forall(0, len(close), lambda i: close[i] > 0))",
                   "forall(0, len(timestamps), lambda i: forall(i, len(timestamps), lambda j: timestamps[i] <= timestamps[j]))"],
         raises=[("ValueError", "return_window_sec <= 0")],
         ensures=["len(result) == len(close)", DEF.format(n="len(close)", r="result"), UND.format(n="len(close)", r="result"), NIL.format(n="len(close)", r="result")],
         templates=[DEF.format(n="$k", r="$A"), UND.format(n="$k", r="$A"), NIL.format(n="$k", r="$A")],
         gen=scaled(g_lag, 1))


# ---- z-score over the last `window` values
@spec("A_real, int, int -> real", macro=True)
def wmean(x, w, b):
    return asum(x, b - w + 1, b + 1) / w


@spec("A_real, int, int -> real", macro=True)
def wss(x, w, b):
    """sum of squared deviations from the window mean"""
    return sumof(b - w + 1, b + 1, lambda q: (x[q] - wmean(x, w, b)) ** 2)


def g_win(extra):
    def g(rng, n):
        w = rng.choice([1, 2, 3, n, n + 1, 4])
        x = np.array([rng.choice([1.0, 2.0, 0.0, -1.0, 2.5, 3.0]) if rng.random() < 0.7 else 1.0 for _ in range(n)])
        if rng.random() < 0.2:
            x[:] = 2.0
        if rng.random() < 0.15:  # a level far above the spread
            x = x + 2.0 ** 22
        return (x, w) + extra(rng, w)
    return g


Contract("finmlkit/feature/core/utils.py:comp_zscore", ["x: A_real", "window: int", "ddof: int"],
         requires=["window >= 1", "ddof >= 0", "window > ddof"],
         pointwise=[(None, "len(x)", "ite(b < window - 1, nan, ite(sqrt_(wss(x, window, b) / (window - ddof)) == 0, nan, "
                     "(x[b] - wmean(x, window, b)) / sqrt_(wss(x, window, b) / (window - ddof))))", 1)],
         gen=scaled(g_win(lambda rng, w: (rng.choice([0, 1]) if w > 1 else 0,)), 0))

Contract("finmlkit/feature/core/utils.py:comp_burst_ratio", ["series: A_real", "window: int"],
         requires=["window >= 1"],
         pointwise=[(None, "len(series)", "ite(b < window - 1, nan, ite(median_(series, b - window + 1, b + 1) > 0, series[b] / median_(series, b - window + 1, b + 1), nan))", 1)],
         gen=scaled(g_win(lambda rng, w: ()), 0))

Contract("finmlkit/feature/core/utils.py:pct_change", ["x: A_float", "periods: int"],
         requires=["periods >= 0"],
         pointwise=[(None, "len(x)", "ite(b < periods, nan, ite(x[b - periods] > 0, (x[b] - x[b - periods]) / x[b - periods], nan))", 1)],
         gen=scaled(g_win(lambda rng, w: ()), 0))
