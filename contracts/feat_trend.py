from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
from .feat_ma import series, win, scaled
import numpy as np

T = "finmlkit/feature/core/trend.py:"
HLC = "high, low, close"


@spec("A_real, A_real, A_real, int -> real")
def ad_tr(h, l, c, i):
    """true range"""
    return 0.0 if i <= 0 else max(h[i] - l[i], abs(h[i] - c[i - 1]), abs(l[i] - c[i - 1]))


@spec("A_real, A_real, int -> real")
def ad_pdm(h, l, i):
    """upward directional move: the rise of the high where it is positive and exceeds the fall of the low"""
    return 0.0 if i <= 0 else h[i] - h[i - 1] if h[i] - h[i - 1] > l[i - 1] - l[i] and h[i] - h[i - 1] > 0 else 0.0


@spec("A_real, A_real, int -> real")
def ad_mdm(h, l, i):
    return 0.0 if i <= 0 else l[i - 1] - l[i] if l[i - 1] - l[i] > h[i] - h[i - 1] and l[i - 1] - l[i] > 0 else 0.0


@spec("A_real, A_real, A_real, int, int -> real")
def w_tr(h, l, c, n, i):
    """Wilder's smoothing: the sum of the first n values, then s - s / n + x"""
    return 0.0 if i < n else sumof(1, n + 1, lambda q: ad_tr(h, l, c, q)) if i == n else w_tr(h, l, c, n, i - 1) - w_tr(h, l, c, n, i - 1) / n + ad_tr(h, l, c, i)


@spec("A_real, A_real, int, int -> real")
def w_pdm(h, l, n, i):
    return 0.0 if i < n else sumof(1, n + 1, lambda q: ad_pdm(h, l, q)) if i == n else w_pdm(h, l, n, i - 1) - w_pdm(h, l, n, i - 1) / n + ad_pdm(h, l, i)


@spec("A_real, A_real, int, int -> real")
def w_mdm(h, l, n, i):
    return 0.0 if i < n else sumof(1, n + 1, lambda q: ad_mdm(h, l, q)) if i == n else w_mdm(h, l, n, i - 1) - w_mdm(h, l, n, i - 1) / n + ad_mdm(h, l, i)


@spec("A_real, A_real, A_real, int, int -> real")
def di_p(h, l, c, n, i):
    return 100 * (w_pdm(h, l, n, i) / w_tr(h, l, c, n, i)) if i >= n and w_tr(h, l, c, n, i) > 0 else 0.0


@spec("A_real, A_real, A_real, int, int -> real")
def di_m(h, l, c, n, i):
    return 100 * (w_mdm(h, l, n, i) / w_tr(h, l, c, n, i)) if i >= n and w_tr(h, l, c, n, i) > 0 else 0.0


@spec("A_real, A_real, A_real, int, int -> real")
def dxi(h, l, c, n, i):
    return 100 * (abs(di_p(h, l, c, n, i) - di_m(h, l, c, n, i)) / (di_p(h, l, c, n, i) + di_m(h, l, c, n, i))) if i >= n and di_p(h, l, c, n, i) + di_m(h, l, c, n, i) > 0 else 0.0


@spec("A_real, A_real, A_real, int, int -> real")
def adxi(h, l, c, n, i):
    return 0.0 if i < 2 * n - 1 else sumof(n, 2 * n, lambda q: dxi(h, l, c, n, q)) / n if i == 2 * n - 1 else (adxi(h, l, c, n, i - 1) * (n - 1) + dxi(h, l, c, n, i)) / n


def g_adx(rng, n):
    n = rng.choice([n, n + 4])
    lo = series(rng, n, 1.0)
    hi = lo + np.array([rng.choice([0.0, 0.5, 1.0]) for _ in range(n)])
    c = np.array([rng.choice([a, b, (a + b) / 2]) for a, b in zip(lo, hi)])
    return hi, lo, c, rng.choice([1, 2, 3, 4, n, n // 2 + 1])


per = [("ad_tr", "ad_tr(high, low, close, b)"), ("ad_pdm", "ad_pdm(high, low, b)"), ("ad_mdm", "ad_mdm(high, low, b)")]
late = [("w_tr", "w_tr(high, low, close, length, b)"), ("w_pdm", "w_pdm(high, low, length, b)"), ("w_mdm", "w_mdm(high, low, length, b)"),
        ("di_p", "di_p(high, low, close, length, b)"), ("di_m", "di_m(high, low, close, length, b)"), ("dxi", "dxi(high, low, close, length, b)"), ("adxi", "adxi(high, low, close, length, b)")]
LIM = "implies(b < length, same($A[b], 0))"
Contract(T + "adx_core", ["high: A_real", "low: A_real", "close: A_real", "length: int"],
         requires=["len(low) == len(high)", "len(close) == len(high)", "length >= 1", "forall(0, len(high), lambda i: low[i] <= close[i] and close[i] <= high[i])"],
         pointwise=[(None, "len(high)", "adxi(high, low, close, length, b)", 1)],
         ensures=["forall(0, len(high), lambda b: 0 <= result[b] and result[b] <= 100)"],
         prelemmas=["induct(1, length + 2, lambda m: sumof(1, m, lambda q: ad_pdm(high, low, q)) >= 0 and sumof(1, m, lambda q: ad_mdm(high, low, q)) >= 0)",
                    "induct(length, len(high), lambda m: w_pdm(high, low, length, m) >= 0 and w_mdm(high, low, length, m) >= 0)",
                    "forall(0, len(high), lambda i: di_p(high, low, close, length, i) >= 0 and di_m(high, low, close, length, i) >= 0)",
                    "forall(0, len(high), lambda i: 0 <= dxi(high, low, close, length, i) and dxi(high, low, close, length, i) <= 100)",
                    "induct(length, 2 * length, lambda m: 0 <= sumof(length, m, lambda q: dxi(high, low, close, length, q)) and (m > len(high) or sumof(length, m, lambda q: dxi(high, low, close, length, q)) <= 100 * (m - length)))",
                    "implies(2 * length <= len(high), 0 <= sumof(length, 2 * length, lambda q: dxi(high, low, close, length, q)) / length and sumof(length, 2 * length, lambda q: dxi(high, low, close, length, q)) / length <= 100)",
                    "induct(2 * length - 1, len(high) - 1, lambda m: 0 <= adxi(high, low, close, length, m) and adxi(high, low, close, length, m) <= 100)"],
         templates=[f"forall(0, $k, lambda b: same($A[b], {e}))" for _, e in per] + [f"forall(0, len(high), lambda b: implies(b < $k, same($A[b], {e})))" for _, e in late]
         + ["forall($k, len(high), lambda b: $A[b] == 0)"],
         gen=scaled(g_adx, 0, 1, 2))
