from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
from .feat_ma import series, win, scaled
from .feat_vol import define
import numpy as np

V = "finmlkit/feature/core/volume.py:"
R = "finmlkit/feature/core/reversion.py:"
K = "finmlkit/feature/core/correlation.py:"


def vols(rng, n, nan=0.0):
    x = np.array([rng.choice([0.0, 1.0, 2.0, 0.5, 3.0, 0.25]) for _ in range(n)])
    if rng.random() < 0.1:
        x[:] = 0.0
    for i in range(n):
        if rng.random() < nan:
            x[i] = np.nan
    return x


# ---- VPIN
@spec("A_float, A_float, int, int -> real", fold=True)
def obs_sum(x, y, lo, hi):
    """sum of x over the bars where both volumes are known"""
    return 0.0 if hi <= lo else obs_sum(x, y, lo, hi - 1) + (0.0 if isnan(x[hi - 1]) or isnan(y[hi - 1]) else x[hi - 1])


@spec("A_float, A_float, int, int -> real", fold=True)
def imb_sum(x, y, lo, hi):
    return 0.0 if hi <= lo else imb_sum(x, y, lo, hi - 1) + (0.0 if isnan(x[hi - 1]) or isnan(y[hi - 1]) else abs(x[hi - 1] - y[hi - 1]))


@spec("A_float, A_float, int, int -> int", fold=True)
def nan_count(x, y, lo, hi):
    return 0 if hi <= lo else nan_count(x, y, lo, hi - 1) + (1 if isnan(x[hi - 1]) or isnan(y[hi - 1]) else 0)


BS = "volume_buy, volume_sell"
SB = "volume_sell, volume_buy"
WN = "b + 1 - window, b + 1"
parts = [("obs_sum", BS), ("obs_sum", SB), ("imb_sum", BS), ("nan_count", BS)]
Contract(V + "vpin", ["volume_buy: A_float", "volume_sell: A_float", "window: int"],
         requires=["window >= 1", "len(volume_sell) == len(volume_buy)", "forall(0, len(volume_buy), lambda i: (isnan(volume_buy[i]) or volume_buy[i] >= 0) and (isnan(volume_sell[i]) or volume_sell[i] >= 0))"],
         prelemmas=[f"induct(0, len(volume_buy), lambda m: forall(0, len(volume_buy) + 1, lambda j: implies(j <= m, {f}({a}, 0, m) == {f}({a}, 0, j) + {f}({a}, j, m))))" for f, a in parts]
         + [f"induct(0, len(volume_buy), lambda m: forall(0, len(volume_buy) + 1, lambda j: implies(j <= m, 0 <= imb_sum({BS}, j, m) and imb_sum({BS}, j, m) <= obs_sum({BS}, j, m) + obs_sum({SB}, j, m))))"],
         pointwise=[(None, "len(volume_buy)", f"ite(b >= window - 1 and nan_count({BS}, {WN}) == 0 and obs_sum({BS}, {WN}) + obs_sum({SB}, {WN}) > 1e-9, imb_sum({BS}, {WN}) / (obs_sum({BS}, {WN}) + obs_sum({SB}, {WN})), nan)")],
         ensures=["forall(0, len(volume_buy), lambda b: isnan(result[b]) or (0 <= result[b] and result[b] <= 1))"],
         templates=[f"forall(0, $k, lambda b: same($A[b], {f}({a}, 0, b)))" for f, a in parts] + ["forall(0, $k, lambda b: isnan($A[b]) or (0 <= $A[b] and $A[b] <= 1))"],
         gen=scaled(lambda rng, n: (lambda p: (vols(rng, n, p), vols(rng, n, p), win(rng, n)))(rng.choice([0, 0, 0.1])), 0, 1, ks=(2.0 ** -24, 2.0 ** 16)), opts={"single": (0,)})

# ---- flow acceleration
ADD = "induct(0, len(volumes), lambda m: forall(0, len(volumes) + 1, lambda j: implies(j <= m, asum(volumes, 0, m) == asum(volumes, 0, j) + asum(volumes, j, m))))"
Contract(V + "comp_flow_acceleration", ["volumes: A_real", "window: int", "recent_periods: int"],
         requires=["window >= 1", "recent_periods >= 0", "forall(0, len(volumes), lambda i: volumes[i] >= 0)"],
         prelemmas=[ADD, "induct(0, len(volumes), lambda m: forall(0, len(volumes) + 1, lambda j: implies(j <= m, asum(volumes, j, m) >= 0)))"],
         pointwise=[(None, "len(volumes)", "ite(b < window - 1 or recent_periods >= window, nan, log_((asum(volumes, b + 1 - recent_periods, b + 1) + 1e-12) / (asum(volumes, b + 1 - window, b + 1 - recent_periods) + 1e-12)))", 1)],
         templates=["forall(0, $k, lambda b: same($A[b], asum(volumes, 0, b)))"],
         gen=scaled(lambda rng, n: (vols(rng, n), win(rng, n), rng.choice([0, 1, 2, 3])), 0))

# ---- rolling correlation of returns and volumes
@spec("A_float, int -> float")
def p_ret(p, i):
    return nan if i < 1 or isnan(p[i]) or isnan(p[i - 1]) or p[i - 1] == 0 else (p[i] - p[i - 1]) / p[i - 1]


@spec("A_float, A_float, int -> bool", macro=True)
def both(p, v, i):
    return not isnan(p_ret(p, i)) and not isnan(v[i])


for nm, e, t in (("n", "1", "int"), ("r", "p_ret(p, hi - 1)", "real"), ("v", "v[hi - 1]", "real"), ("rr", "p_ret(p, hi - 1) * p_ret(p, hi - 1)", "real"), ("vv", "v[hi - 1] * v[hi - 1]", "real"), ("rv", "p_ret(p, hi - 1) * v[hi - 1]", "real")):
    z = "0" if t == "int" else "0.0"
    define(globals(), f"A_float, A_float, int, int -> {t}", f"def pv_{nm}(p, v, lo, hi):\n    return {z} if hi <= lo else pv_{nm}(p, v, lo, hi - 1) + ({e} if both(p, v, hi - 1) else {z})\n", fold=True)


@spec("int, real, real, real, real, real -> float")
def pearson(n, r, v, rr, vv, rv):
    """correlation from the count, the sums, the sums of squares and the sum of products"""
    if n < 2:
        return nan
    m1 = r / n
    m2 = v / n
    sr = rr - 2 * (m1 * r) + n * (m1 * m1)
    sv = vv - 2 * (m2 * v) + n * (m2 * m2)
    c = rv - m2 * r - m1 * v + n * (m1 * m2)
    return max(-1.0, min(1.0, c / (sqrt_(sr) * sqrt_(sv)))) if sr > 0 and sv > 0 else nan


@spec("A_float, int, int -> bool")
def rising(x, lo, hi):
    return True if hi - 1 <= lo else rising(x, lo, hi - 1) and not x[hi - 1] <= x[hi - 2]


@spec("A_float, int, int -> bool")
def falling(x, lo, hi):
    return True if hi - 1 <= lo else falling(x, lo, hi - 1) and not x[hi - 1] >= x[hi - 2]


PV = "price, volume"
PW = "b - window + 1, b + 1"
SPECIAL = f"(4 <= b and b < 10 and rising(price, {PW}) and (rising(volume, {PW}) or falling(volume, {PW})))"
CORR = f"ite(b < window or not both(price, volume, b), nan, pearson(" + ", ".join(f"pv_{x}({PV}, {PW})" for x in ("n", "r", "v", "rr", "vv", "rv")) + "))"
LO = "$u9 - window + 1"
MB, M7, M8 = (f"(asum($B{i}, 0, len($B{i})) / len($B{i}))" for i in ("", "7", "8"))
Contract(K + "rolling_price_volume_correlation", ["price: A_float", "volume: A_float", "window: int"],
         requires=["len(volume) == len(price)", "len(price) >= 1", "window >= 1"],
         ensures=["len(result) == len(price)", f"forall(0, len(price), lambda b: implies(not {SPECIAL}, same(result[b], {CORR})))", "forall(0, len(price), lambda b: isnan(result[b]) or (-1 <= result[b] and result[b] <= 1))"],
         templates=["forall(0, $k, lambda b: same($A[b], p_ret(price, b)))", f"forall(0, len(price), lambda b: implies(b < $k and not {SPECIAL}, same($A[b], {CORR})))",
                    "forall(0, len(price), lambda b: implies(b < $k, isnan($A[b]) or (-1 <= $A[b] and $A[b] <= 1)))",
                    f"len($L) == pv_n({PV}, {LO}, $k)", f"asum($L, 0, len($L)) == pv_r({PV}, {LO}, $k)", f"asum($L, 0, len($L)) == pv_v({PV}, {LO}, $k)",
                    f"dotp($L7, $L8, 0, len($L7)) == pv_rv({PV}, {LO}, $k)", f"dotp($L, $L, 0, len($L)) == pv_rr({PV}, {LO}, $k)", f"dotp($L, $L, 0, len($L)) == pv_vv({PV}, {LO}, $k)",
                    "len($L7) == len($L8)", "forall(0, len($L), lambda b: not isnan($L[b]))",
                    f"same($x, dotp($B7, $B8, 0, $k) - {M8} * asum($B7, 0, $k) - {M7} * asum($B8, 0, $k) + $k * ({M7} * {M8}))",
                    f"same($x, dotp($B, $B, 0, $k) - 2 * ({MB} * asum($B, 0, $k)) + $k * ({MB} * {MB}))",
                    f"$q == rising(price, {LO}, $k)", f"$q == rising(volume, {LO}, $k)", f"$q == falling(volume, {LO}, $k)"],
         gen=scaled(lambda rng, n: (lambda m, p: (np.where(np.array([rng.random() < p for _ in range(m)]), np.nan, np.array([rng.choice([1.0, 2.0, 4.0, 8.0, 0.5]) for _ in range(m)]) if rng.random() < 0.7 else np.cumprod([rng.choice([2.0, 2.0, 4.0, 8.0, 0.5]) for _ in range(m)])), vols(rng, m, p), rng.choice([1, 2, 3, 4])))(rng.choice([n, n + 6]), rng.choice([0, 0, 0.1])), 0))

# ---- distance of the price from the volume-weighted mean of the window
@spec("A_real, A_real, int, bool, int -> float")
def vw_dist(close, volume, n, is_log, b):
    """the last known value is carried while the window holds no volume"""
    return (nan if b < n - 1 else
            (log_(close[b] / (dotp(close, volume, b - n + 1, b + 1) / asum(volume, b - n + 1, b + 1))) if is_log else close[b] / (dotp(close, volume, b - n + 1, b + 1) / asum(volume, b - n + 1, b + 1)) - 1.0)
            if asum(volume, b - n + 1, b + 1) > 0 else vw_dist(close, volume, n, is_log, b - 1))


CV = "close, volume"
Contract(R + "vwap_distance", ["close: A_real", "volume: A_real", "n_periods: int", "is_log: bool"],
         requires=["len(volume) == len(close)", "n_periods >= 1", "forall(0, len(close), lambda i: close[i] > 0 and volume[i] >= 0)"],
         prelemmas=["induct(0, len(close), lambda m: forall(0, len(close), lambda i: implies(i <= m, asum(volume, i, m) >= 0 and dotp(close, volume, i, m) >= 0 and (asum(volume, i, m) > 0) == (dotp(close, volume, i, m) > 0))))",
                    "induct(1, len(close), lambda m: forall(0, len(close), lambda i: implies(i < m, asum(volume, i, m) == volume[i] + asum(volume, i + 1, m) and dotp(close, volume, i, m) == close[i] * volume[i] + dotp(close, volume, i + 1, m))))"],
         pointwise=[(None, "len(close)", f"vw_dist({CV}, n_periods, is_log, b)", 1)],
         templates=["same($x, asum(volume, $k - n_periods, $k))", "same($x, dotp(close, volume, $k - n_periods, $k))", "same($x, asum(volume, 0, $k))", "same($x, dotp(close, volume, 0, $k))"],
         gen=scaled(lambda rng, n: (series(rng, n, 1.0), vols(rng, n), win(rng, n), rng.random() < 0.5), 0))
