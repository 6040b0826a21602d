from pyvc.decl import Contract
from pyvc.dsl import *
import numpy as np


# ---- tick bars: a bar closes at trade i when the number of trades since the last close reaches the threshold
@spec("int, int -> int")
def tick_run(thr, i):
    """trades counted at i after processing trade i (0 just after a close); the first trade counts"""
    return 1 if i <= 0 else (0 if tick_run(thr, i - 1) + 1 >= thr else tick_run(thr, i - 1) + 1)


@spec("int, int -> bool")
def tick_close(thr, i):
    return i <= 0 or tick_run(thr, i - 1) + 1 >= thr


@spec("int, int -> int")
def tick_closes(thr, i):
    """closes among trades 0..i"""
    return 1 if i <= 0 else tick_closes(thr, i - 1) + (1 if tick_close(thr, i) else 0)


def g_tick(rng, n):
    return (np.arange(n, dtype=np.int64), rng.choice([1, 2, 3, 5]))


Contract("finmlkit/bar/logic.py:_tick_bar_indexer", ["timestamps: A_int", "threshold: int"],
         requires=["len(timestamps) >= 1"],
         ensures=["len(result) == tick_closes(threshold, len(timestamps) - 1)",
                  "forall(0, len(timestamps), lambda j: implies(tick_close(threshold, j), result[tick_closes(threshold, j) - 1] == j))"],
         templates=["$f == tick_run(threshold, $k)", "$f == threshold - tick_run(threshold, $k)", "len($L) == tick_closes(threshold, $k)",
                    "forall(0, $k, lambda j: implies(tick_close(threshold, j), $L[tick_closes(threshold, j) - 1] == j and tick_closes(threshold, j) <= len($L) and tick_closes(threshold, j) >= 1))"],
         gen=g_tick)


# ---- volume bars: running volume is reset (no carry-over) when it reaches the threshold
@spec("A_real, real, int -> real")
def vol_run(v, thr, i):
    return v[0] if i <= 0 else (0.0 if vol_run(v, thr, i - 1) + v[i] >= thr else vol_run(v, thr, i - 1) + v[i])


@spec("A_real, real, int -> bool")
def vol_close(v, thr, i):
    return i <= 0 or vol_run(v, thr, i - 1) + v[i] >= thr


@spec("A_real, real, int -> int")
def vol_closes(v, thr, i):
    return 1 if i <= 0 else vol_closes(v, thr, i - 1) + (1 if vol_close(v, thr, i) else 0)


def g_vol(rng, n):
    return (np.array([rng.choice([0.5, 1.0, 2.0, 3.25, 7.0]) for _ in range(n)]), rng.choice([1.0, 2.5, 4.0, 9.0]))


Contract("finmlkit/bar/logic.py:_volume_bar_indexer", ["volumes: A_real", "threshold: real"],
         requires=["len(volumes) >= 1"],
         ensures=["len(result) == vol_closes(volumes, threshold, len(volumes) - 1)",
                  "forall(0, len(volumes), lambda j: implies(vol_close(volumes, threshold, j), result[vol_closes(volumes, threshold, j) - 1] == j))"],
         templates=["$f == vol_run(volumes, threshold, $k)", "$f == threshold - vol_run(volumes, threshold, $k)", "len($L) == vol_closes(volumes, threshold, $k)",
                    "forall(0, $k, lambda j: implies(vol_close(volumes, threshold, j), $L[vol_closes(volumes, threshold, j) - 1] == j and vol_closes(volumes, threshold, j) <= len($L) and vol_closes(volumes, threshold, j) >= 1))"],
         gen=g_vol)


# ---- dollar bars: the overshoot beyond the threshold is carried into the next bar
@spec("A_real, A_real, real, int -> real")
def dol_run(p, v, thr, i):
    return p[0] * v[0] if i <= 0 else (dol_run(p, v, thr, i - 1) + p[i] * v[i] - thr if dol_run(p, v, thr, i - 1) + p[i] * v[i] >= thr
                                       else dol_run(p, v, thr, i - 1) + p[i] * v[i])


@spec("A_real, A_real, real, int -> bool")
def dol_close(p, v, thr, i):
    return i <= 0 or dol_run(p, v, thr, i - 1) + p[i] * v[i] >= thr


@spec("A_real, A_real, real, int -> int")
def dol_closes(p, v, thr, i):
    return 1 if i <= 0 else dol_closes(p, v, thr, i - 1) + (1 if dol_close(p, v, thr, i) else 0)


def g_dol(rng, n):
    return (np.array([rng.choice([10.0, 10.5, 11.0, 9.5]) for _ in range(n)]),
            np.array([rng.choice([0.5, 1.0, 2.0, 3.25, 7.0]) for _ in range(n)]), rng.choice([10.0, 25.0, 44.0, 90.0]))


Contract("finmlkit/bar/logic.py:_dollar_bar_indexer", ["prices: A_real", "volumes: A_real", "threshold: real"],
         requires=["len(volumes) >= 1", "len(prices) == len(volumes)"],
         ensures=["len(result) == dol_closes(prices, volumes, threshold, len(volumes) - 1)",
                  "forall(0, len(volumes), lambda j: implies(dol_close(prices, volumes, threshold, j), result[dol_closes(prices, volumes, threshold, j) - 1] == j))"],
         templates=["same($f, dol_run(prices, volumes, threshold, $k))", "len($L) == dol_closes(prices, volumes, threshold, $k)",
                    "forall(0, $k, lambda j: implies(dol_close(prices, volumes, threshold, j), $L[dol_closes(prices, volumes, threshold, j) - 1] == j and dol_closes(prices, volumes, threshold, j) <= len($L) and dol_closes(prices, volumes, threshold, j) >= 1))"],
         gen=g_dol)


# ---- time bars: the grid of multiples of the interval; a bar holds the trades after the previous grid point up to its own
def g_time(rng, n):
    base = rng.choice([0, 10**9, 1_700_000_000 * 10**9, 1_700_000_000 * 10**9 - 100])
    itv = rng.choice([1.0, 0.5, 0.001, 5.0, 60.0, 1e-6])
    step = int(round(itv * 1e9))
    t = [base + rng.choice([0, 1, step // 2, step - 1, 37])]
    for _ in range(n - 1):
        t.append(t[-1] + rng.choice([0, 1, step // 3, step - 1, step, step + 1, 2 * step + 5]))
    return (np.array(t, dtype=np.int64), itv)


Contract("finmlkit/bar/logic.py:_time_bar_indexer", ["timestamps: A_int", "interval_seconds: real"],
         requires=["len(timestamps) >= 1", "forall(0, len(timestamps), lambda i: forall(i, len(timestamps), lambda j: timestamps[i] <= timestamps[j]))",
                   "round_(interval_seconds * 1e9) >= 1"],
         ensures=["len(result[0]) == len(result[1])",
                  "len(result[0]) >= 2",
                  "result[0][0] == timestamps[0] // round_(interval_seconds * 1e9) * round_(interval_seconds * 1e9)",
                  "result[0][0] <= timestamps[0] and timestamps[0] < result[0][0] + round_(interval_seconds * 1e9)",
                  "forall(0, len(result[0]) - 1, lambda b: result[0][b + 1] - result[0][b] == round_(interval_seconds * 1e9))",
                  "result[0][len(result[0]) - 1] >= timestamps[len(timestamps) - 1]",
                  "result[0][len(result[0]) - 1] < timestamps[len(timestamps) - 1] + 2 * round_(interval_seconds * 1e9)",
                  "forall(0, len(result[0]), lambda b: result[1][b] >= -1 and result[1][b] < len(timestamps))",
                  "forall(0, len(result[0]), lambda b: forall(0, len(timestamps), lambda m: (timestamps[m] <= result[0][b]) == (m <= result[1][b])))",
                  ],
         gen=g_time)


# ---- CUSUM bars
@spec("A_float, int -> float")
def ffill(s, i):
    """last known value at or before i"""
    return nan if i < 0 else (ffill(s, i - 1) if isnan(s[i]) else s[i])


@spec("A_int, int, int -> bool", macro=True)
def same_ts_next(ts, n, i):
    return i + 1 < n and ts[i] == ts[i + 1]


@spec("A_int, int, A_real, A_float, real, real, int, int -> real")
def cus_pos(ts, n, p, s, fl, mu, f, i):
    """upward sum at trade i, before a possible close at i; f is the first trade with a known sigma"""
    return 0.0 if i <= f else max(0.0, (0.0 if cus_up(ts, n, p, s, fl, mu, f, i - 1) else cus_pos(ts, n, p, s, fl, mu, f, i - 1)) + log_(p[i] / p[i - 1]))


@spec("A_int, int, A_real, A_float, real, real, int, int -> real")
def cus_neg(ts, n, p, s, fl, mu, f, i):
    return 0.0 if i <= f else min(0.0, (0.0 if cus_dn(ts, n, p, s, fl, mu, f, i - 1) else cus_neg(ts, n, p, s, fl, mu, f, i - 1)) + log_(p[i] / p[i - 1]))


@spec("A_int, int, A_real, A_float, real, real, int, int -> bool", macro=True)
def cus_up(ts, n, p, s, fl, mu, f, i):
    return i > f and (not same_ts_next(ts, n, i)) and cus_pos(ts, n, p, s, fl, mu, f, i) >= max(mu * ffill(s, i), fl)


@spec("A_int, int, A_real, A_float, real, real, int, int -> bool", macro=True)
def cus_dn(ts, n, p, s, fl, mu, f, i):
    return i > f and (not same_ts_next(ts, n, i)) and (not cus_up(ts, n, p, s, fl, mu, f, i)) and cus_neg(ts, n, p, s, fl, mu, f, i) <= -max(mu * ffill(s, i), fl)


@spec("A_int, int, A_real, A_float, real, real, int, int -> bool", macro=True)
def cus_close(ts, n, p, s, fl, mu, f, i):
    return i == f or cus_up(ts, n, p, s, fl, mu, f, i) or cus_dn(ts, n, p, s, fl, mu, f, i)


@spec("A_int, int, A_real, A_float, real, real, int, int -> int")
def cus_closes(ts, n, p, s, fl, mu, f, i):
    return 1 if i <= f else cus_closes(ts, n, p, s, fl, mu, f, i - 1) + (1 if cus_close(ts, n, p, s, fl, mu, f, i) else 0)


def g_cusum(rng, n):
    n = max(n, 2)
    t = np.cumsum([rng.choice([0, 1, 1, 5]) for _ in range(n)]).astype(np.int64)
    p = 100.0 * np.exp(np.cumsum([rng.gauss(0, 0.01) for _ in range(n)]))
    s = np.array([rng.choice([math.nan, 0.004, 0.01, 0.02]) for _ in range(n)])
    k = rng.choice([0, 0, 1, 2])
    s[:k] = math.nan
    if np.isnan(s).all():
        s[-1] = 0.01
    if rng.random() < 0.1:
        t = t[:-1]
    return (t, p, s, rng.choice([0.0005, 0.012]), rng.choice([1.0, 2.0]))


A_ = "timestamps, len(prices), prices, sigma, sigma_floor, sigma_mult, "
Contract("finmlkit/bar/logic.py:_cusum_bar_indexer", ["timestamps: A_int", "prices: A_real", "sigma: A_float", "sigma_floor: real", "sigma_mult: real"],
         requires=["len(prices) >= 1", "forall(0, len(prices), lambda b: prices[b] > 0)",
                   "exists(0, len(sigma), lambda b: not isnan(sigma[b]))"],
         raises=[("ValueError", "len(prices) != len(sigma) or len(prices) != len(timestamps)")],
         modifies=["sigma"],
         ensures=["forall(0, len(sigma), lambda b: same(new_sigma[b], ffill(sigma, b)))",
                  "len(result) >= 1",
                  "0 <= result[0] and result[0] < len(sigma) and not isnan(sigma[result[0]])",
                  "forall(0, result[0], lambda b: isnan(sigma[b]))",
                  f"len(result) == cus_closes({A_} result[0], len(prices) - 1)",
                  f"forall(result[0], len(prices), lambda j: implies(cus_close({A_} result[0], j), result[cus_closes({A_} result[0], j) - 1] == j))"],
         templates=["forall(0, $k, lambda b: same($A[b], ffill(sigma, b)))", "forall($k, len($A), lambda b: same($A[b], sigma[b]))",
                    "forall(0, $k, lambda b: isnan(sigma[b]))", "forall(0, $k, lambda b: isnan(ffill(sigma, b)))", "forall($u, $k, lambda b: not isnan(ffill(sigma, b)))",
                    f"len($L) == cus_closes({A_} $u, $k)",
                    f"same($x, ite(cus_up({A_} $u, $k), 0.0, cus_pos({A_} $u, $k)))", f"same($x, ite(cus_dn({A_} $u, $k), 0.0, cus_neg({A_} $u, $k)))",
                    f"forall($u, $k, lambda j: implies(cus_close({A_} $u, j), $L[cus_closes({A_} $u, j) - 1] == j and cus_closes({A_} $u, j) <= len($L) and cus_closes({A_} $u, j) >= 1))"],
         gen=g_cusum)
