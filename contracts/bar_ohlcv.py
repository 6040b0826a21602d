from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np


# bar b holds the trades (c[b], c[b+1]]; first(c, b) .. c[b+1] inclusive
@spec("A_int, int -> bool")
def empty(c, b):
    return c[b] == c[b + 1]


def g_bars(rng, n, allow_empty=True):
    c = [rng.choice([-1, 0])]
    wide = rng.random() < 0.15
    while c[-1] < n - 1:
        step = rng.randint(1, n) if wide else rng.choice([0, 1, 2, 3, 5]) if allow_empty and c[-1] >= 0 else rng.choice([1, 2, 3])
        c.append(min(n - 1, c[-1] + step))
        if len(c) > n + 3:
            break
    if len(c) < 2:
        c.append(c[-1])
    if c[0] == -1 and c[1] == -1:
        c[0] = 0
    return np.array(c, dtype=np.int64)


def g_ohlcv(rng, n):
    p = np.array([rng.choice([9.5, 10.0, 10.5, 11.0, 12.25]) for _ in range(n)])
    v = np.array([rng.choice([0.0, 0.5, 1.0, 2.0, 3.25]) for _ in range(n)])
    if rng.random() < 0.3:
        p, v = np.array([rng.uniform(5, 50) for _ in range(n)]), np.array([rng.expovariate(0.3) for _ in range(n)])
    return (p, v, g_bars(rng, n))


N = "len(bar_close_indices) - 1"
Contract("finmlkit/bar/base.py:comp_bar_ohlcv", ["prices: A_real", "volumes: A_real", "bar_close_indices: A_int"],
         requires=["forall(0, len(bar_close_indices) - 1, lambda b: bar_close_indices[b] <= bar_close_indices[b + 1])",
                   "forall(0, len(bar_close_indices) - 1, lambda b: bar_close_indices[b + 1] >= 0)",
                   "forall(0, len(bar_close_indices), lambda b: bar_close_indices[b] >= -1 and bar_close_indices[b] < len(prices))",
                   "forall(0, len(volumes), lambda b: volumes[b] >= 0)",
                   ],
         raises=[("ValueError", "len(prices) != len(volumes) or len(bar_close_indices) < 2")],
         pointwise=[
             (0, N, "ite(empty(bar_close_indices, b), prices[bar_close_indices[b + 1]], prices[bar_close_indices[b] + 1])"),
             (1, N, "ite(empty(bar_close_indices, b), prices[bar_close_indices[b + 1]], amax(prices, bar_close_indices[b] + 1, bar_close_indices[b + 1] + 1))"),
             (2, N, "ite(empty(bar_close_indices, b), prices[bar_close_indices[b + 1]], amin(prices, bar_close_indices[b] + 1, bar_close_indices[b + 1] + 1))"),
             (3, N, "prices[bar_close_indices[b + 1]]"),
             (4, N, "asum(volumes, bar_close_indices[b] + 1, bar_close_indices[b + 1] + 1)"),
             (5, N, "ite(asum(volumes, bar_close_indices[b] + 1, bar_close_indices[b + 1] + 1) > 0, dotp(prices, volumes, bar_close_indices[b] + 1, bar_close_indices[b + 1] + 1) / asum(volumes, bar_close_indices[b] + 1, bar_close_indices[b + 1] + 1), 0.0)"),
             (6, N, "bar_close_indices[b + 1] - bar_close_indices[b]"),
             (7, N, "ite(empty(bar_close_indices, b), 0.0, median_(volumes, bar_close_indices[b] + 1, bar_close_indices[b + 1] + 1))"),
         ],
         templates=["same($f, asum(volumes, $u, $k))", "same($f, dotp(prices, volumes, $u, $k))",
                    "same($f, amax(prices, $u, $k))", "same($f, amin(prices, $u, $k))",
                    "forall(0, $i, lambda m: same($A[m], volumes[$u + m]))"],
         gen=g_ohlcv, opts={"single": (4,)})


# ---- directional features: only trades with side 1 or -1 count; a spread is the price move at a side change
@spec("A_int, int -> bool", macro=True)
def signed(s, j):
    return s[j] == 1 or s[j] == -1


@spec("A_int, int, int, int -> int")
def nside(s, d, lo, hi):
    return 0 if hi <= lo else nside(s, d, lo, hi - 1) + (1 if s[hi - 1] == d else 0)


@spec("A_int, A_real, int, int, int -> real")
def vside(s, v, d, lo, hi):
    return 0.0 if hi <= lo else (vside(s, v, d, lo, hi - 1) + v[hi - 1] if s[hi - 1] == d else vside(s, v, d, lo, hi - 1))


@spec("A_int, A_real, A_real, int, int, int -> real")
def dside(s, p, v, d, lo, hi):
    return 0.0 if hi <= lo else (dside(s, p, v, d, lo, hi - 1) + p[hi - 1] * v[hi - 1] if s[hi - 1] == d else dside(s, p, v, d, lo, hi - 1))


@spec("A_real, A_int, int -> real")
def sprd(p, s, j):
    return abs(p[j] - p[j - 1]) if j > 0 and s[j] != s[j - 1] else 0.0


@spec("A_real, A_int, int, int -> real")
def sprd_sum(p, s, lo, hi):
    return 0.0 if hi <= lo else sprd_sum(p, s, lo, hi - 1) + sprd(p, s, hi - 1)


@spec("A_real, A_int, int, int -> real")
def sprd_max(p, s, lo, hi):
    return 0.0 if hi <= lo else max(sprd_max(p, s, lo, hi - 1), sprd(p, s, hi - 1))


@spec("A_int, int, int -> int")
def ctick(s, lo, hi):
    """net signed trade count over [lo, hi)"""
    return 0 if hi <= lo else ctick(s, lo, hi - 1) + (1 if s[hi - 1] == 1 else (-1 if s[hi - 1] == -1 else 0))


@spec("A_int, A_real, int, int -> real")
def cvol(s, v, lo, hi):
    return 0.0 if hi <= lo else (cvol(s, v, lo, hi - 1) + v[hi - 1] if s[hi - 1] == 1 else (cvol(s, v, lo, hi - 1) - v[hi - 1] if s[hi - 1] == -1 else cvol(s, v, lo, hi - 1)))


@spec("A_int, A_real, A_real, int, int -> real")
def cdol(s, p, v, lo, hi):
    return 0.0 if hi <= lo else (cdol(s, p, v, lo, hi - 1) + p[hi - 1] * v[hi - 1] if s[hi - 1] == 1 else (cdol(s, p, v, lo, hi - 1) - p[hi - 1] * v[hi - 1] if s[hi - 1] == -1 else cdol(s, p, v, lo, hi - 1)))


@spec("A_int, int, int -> int")
def nsigned(s, lo, hi):
    return nside(s, 1, lo, hi) + nside(s, -1, lo, hi)


@spec("A_int, int, int -> int")
def ctick_min(s, lo, hi):
    return 0 if hi <= lo else (ctick_min(s, lo, hi - 1) if not signed(s, hi - 1) else (ctick(s, lo, hi) if nsigned(s, lo, hi - 1) == 0 else min(ctick_min(s, lo, hi - 1), ctick(s, lo, hi))))


@spec("A_int, int, int -> int")
def ctick_max(s, lo, hi):
    return 0 if hi <= lo else (ctick_max(s, lo, hi - 1) if not signed(s, hi - 1) else (ctick(s, lo, hi) if nsigned(s, lo, hi - 1) == 0 else max(ctick_max(s, lo, hi - 1), ctick(s, lo, hi))))


@spec("A_int, A_real, int, int -> real")
def cvol_min(s, v, lo, hi):
    return 0.0 if hi <= lo else (cvol_min(s, v, lo, hi - 1) if not signed(s, hi - 1) else (cvol(s, v, lo, hi) if nsigned(s, lo, hi - 1) == 0 else min(cvol_min(s, v, lo, hi - 1), cvol(s, v, lo, hi))))


@spec("A_int, A_real, int, int -> real")
def cvol_max(s, v, lo, hi):
    return 0.0 if hi <= lo else (cvol_max(s, v, lo, hi - 1) if not signed(s, hi - 1) else (cvol(s, v, lo, hi) if nsigned(s, lo, hi - 1) == 0 else max(cvol_max(s, v, lo, hi - 1), cvol(s, v, lo, hi))))


@spec("A_int, A_real, A_real, int, int -> real")
def cdol_min(s, p, v, lo, hi):
    return 0.0 if hi <= lo else (cdol_min(s, p, v, lo, hi - 1) if not signed(s, hi - 1) else (cdol(s, p, v, lo, hi) if nsigned(s, lo, hi - 1) == 0 else min(cdol_min(s, p, v, lo, hi - 1), cdol(s, p, v, lo, hi))))


@spec("A_int, A_real, A_real, int, int -> real")
def cdol_max(s, p, v, lo, hi):
    return 0.0 if hi <= lo else (cdol_max(s, p, v, lo, hi - 1) if not signed(s, hi - 1) else (cdol(s, p, v, lo, hi) if nsigned(s, lo, hi - 1) == 0 else max(cdol_max(s, p, v, lo, hi - 1), cdol(s, p, v, lo, hi))))


def g_dir(rng, n):
    p, v, c = g_ohlcv(rng, n)
    return (p, v, c, np.array([rng.choice([1, -1, 1, -1, 0]) for _ in range(n)], dtype=np.int8))


LO, HI = "bar_close_indices[b] + 1", "bar_close_indices[b + 1] + 1"
BARS = ["forall(0, len(bar_close_indices) - 1, lambda b: bar_close_indices[b] <= bar_close_indices[b + 1])",
        "forall(0, len(bar_close_indices) - 1, lambda b: bar_close_indices[b + 1] >= 0)",
        "forall(0, len(bar_close_indices), lambda b: bar_close_indices[b] >= -1 and bar_close_indices[b] < len(prices))"]
Contract("finmlkit/bar/base.py:comp_bar_directional_features", ["prices: A_real", "volumes: A_real", "bar_close_indices: A_int", "trade_sides: A_int"],
         requires=["len(prices) == len(volumes)", "len(prices) == len(trade_sides)", "len(bar_close_indices) >= 1"] + BARS,
         pointwise=[
             (0, N, f"nside(trade_sides, 1, {LO}, {HI})"), (1, N, f"nside(trade_sides, -1, {LO}, {HI})"),
             (2, N, f"vside(trade_sides, volumes, 1, {LO}, {HI})"), (3, N, f"vside(trade_sides, volumes, -1, {LO}, {HI})"),
             (4, N, f"dside(trade_sides, prices, volumes, 1, {LO}, {HI})"), (5, N, f"dside(trade_sides, prices, volumes, -1, {LO}, {HI})"),
             (6, N, f"ite(nsigned(trade_sides, {LO}, {HI}) > 0, sprd_sum(prices, trade_sides, {LO}, {HI}) / nsigned(trade_sides, {LO}, {HI}), 0.0)"),
             (7, N, f"sprd_max(prices, trade_sides, {LO}, {HI})"),
             (8, N, f"ctick_min(trade_sides, {LO}, {HI})"), (9, N, f"ctick_max(trade_sides, {LO}, {HI})"),
             (10, N, f"cvol_min(trade_sides, volumes, {LO}, {HI})"), (11, N, f"cvol_max(trade_sides, volumes, {LO}, {HI})"),
             (12, N, f"cdol_min(trade_sides, prices, volumes, {LO}, {HI})"), (13, N, f"cdol_max(trade_sides, prices, volumes, {LO}, {HI})"),
         ],
         templates=["$f == nside(trade_sides, 1, $u, $k)", "$f == nside(trade_sides, -1, $u, $k)",
                    "same($f, vside(trade_sides, volumes, 1, $u, $k))", "same($f, vside(trade_sides, volumes, -1, $u, $k))",
                    "same($f, dside(trade_sides, prices, volumes, 1, $u, $k))", "same($f, dside(trade_sides, prices, volumes, -1, $u, $k))",
                    "same($f, sprd_sum(prices, trade_sides, $u, $k))", "same($f, sprd_max(prices, trade_sides, $u, $k))",
                    "$f == ctick(trade_sides, $u, $k)", "same($f, cvol(trade_sides, volumes, $u, $k))", "same($f, cdol(trade_sides, prices, volumes, $u, $k))",
                    "$f == ctick_min(trade_sides, $u, $k)", "$f == ctick_max(trade_sides, $u, $k)",
                    "same($f, cvol_min(trade_sides, volumes, $u, $k))", "same($f, cvol_max(trade_sides, volumes, $u, $k))",
                    "same($f, cdol_min(trade_sides, prices, volumes, $u, $k))", "same($f, cdol_max(trade_sides, prices, volumes, $u, $k))",
                    "$f == trade_sides[ite($k > 0, $k - 1, 0)]", "$q == (nsigned(trade_sides, $u, $k) > 0)"],
         gen=g_dir, opts={"single": (2, 3, 4, 5, 6, 7, 10, 11, 12, 13)})


# ---- trade-size features, relative to theta * mult; NaN for a bar without trades, without a typical size, or without volume
def g_size(rng, n):
    v = np.array([rng.choice([0.0, 0.5, 1.0, 2.0, 3.25, 40.0]) for _ in range(n)])
    if rng.random() < 0.4:
        v = np.array([rng.expovariate(0.3) for _ in range(n)])
    c = g_bars(rng, n)
    th = np.array([rng.choice([0.0, 0.5, 1.0, 2.0]) for _ in range(max(0, len(c) - 1 - (rng.random() < 0.1)))])
    return (v, th, c, rng.choice([1.0, 2.0, 5.0]))


TOT = f"asum(amounts, {LO}, {HI})"
THR = "(theta[b] * theta_mult)"
UNDEF_ = "bar_close_indices[b] >= bar_close_indices[b + 1] or theta[b] == 0"
Contract("finmlkit/bar/base.py:comp_bar_trade_size_features", ["amounts: A_real", "theta: A_real", "bar_close_indices: A_int", "theta_mult: real"],
         requires=["len(bar_close_indices) >= 1", "theta_mult > 0", "forall(0, len(theta), lambda b: theta[b] >= 0)", "forall(0, len(amounts), lambda b: amounts[b] >= 0)"] + [x.replace("prices", "amounts") for x in BARS],
         raises=[("ValueError", "len(theta) != len(bar_close_indices) - 1")],
         pointwise=[
             (0, N, f"ite({UNDEF_}, nan, log1p_({TOT} / ({HI} - ({LO})) / {THR}))"),
             (1, N, f"ite({UNDEF_}, nan, log1p_(percentile_(amounts, {LO}, {HI}, 95) / {THR}))"),
             (2, N, f"ite({UNDEF_} or {TOT} == 0, nan, sumof({LO}, {HI}, lambda j: ite(amounts[j] > {THR}, amounts[j], 0.0)) / {TOT})"),
             (3, N, f"ite({UNDEF_} or {TOT} == 0, nan, ite({HI} - ({LO}) == 1, 0.0, 1.0 - sumof({LO}, {HI}, lambda j: (amounts[j] / {TOT}) ** 2)))"),
         ],
         templates=["same($f, sumof($u, $u + $k, lambda j: ite(amounts[j] > $g, amounts[j], 0.0)))", "same($f, sumof($u, $k, lambda j: ite(amounts[j] > $g, amounts[j], 0.0)))"],
         gen=g_size, opts={"single": (0, 1, 2, 3)})
