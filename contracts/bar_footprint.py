from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np

B = "finmlkit/bar/base.py:"


@spec("A_bool, A_bool, int -> int", macro=True)
def imb(b, s, k):
    """sign of the imbalance of level k"""
    return 1 if b[k] else -1 if s[k] else 0


@spec("A_bool, A_bool, int -> int")
def imb_run(b, s, k):
    """length of the run of equal non-zero signs ending at level k"""
    return 0 if k < 0 else 0 if imb(b, s, k) == 0 else 1 if k == 0 else (imb_run(b, s, k - 1) + 1 if imb(b, s, k) == imb(b, s, k - 1) else 1)


@spec("A_bool, A_bool, int -> int")
def imb_best(b, s, n):
    """signed length of the first longest run among the levels below n"""
    return 0 if n <= 0 else (imb_run(b, s, n - 1) * imb(b, s, n - 1) if imb_run(b, s, n - 1) > imb_longest(b, s, n - 1) else imb_best(b, s, n - 1))


@spec("A_bool, A_bool, int -> int")
def imb_longest(b, s, n):
    return 0 if n <= 0 else max(imb_longest(b, s, n - 1), imb_run(b, s, n - 1))


@spec("A_real, A_real, int -> int")
def vmax(v, w, n):
    """first position of the largest v + w among the first n"""
    return 0 if n <= 1 else (n - 1 if v[n - 1] + w[n - 1] > v[vmax(v, w, n - 1)] + w[vmax(v, w, n - 1)] else vmax(v, w, n - 1))


@spec("A_real, A_real, int -> real")
def concentration(v, w, n):
    """one minus the sum of the squared volume shares of the n levels (0 without volume)"""
    return concentration(v, w, 0) if n < 0 else 0.0 if sumof(0, n, lambda q: v[q] + w[q]) <= 0 else 1.0 - sumof(0, n, lambda q: ((v[q] + w[q]) / sumof(0, n, lambda r: v[r] + w[r])) ** 2)


N = "len(price_levels)"
TOP = "vmax(buy_volumes, sell_volumes, {0})"
VOL = f"sumof(0, {N}, lambda q: buy_volumes[q] + sell_volumes[q])"
VWAP = f"(sumof(0, {N}, lambda q: price_levels[q] * (buy_volumes[q] + sell_volumes[q])) / {VOL})"
TV = "(buy_volumes[{0}] + sell_volumes[{0}])"


def g_fp(rng, n):
    lo = rng.choice([-3, 0, 1, 100, 41234])
    def vol():
        z = rng.random()
        return np.array([0.0 if rng.random() < z else rng.choice([0.25, 0.5, 1.0, 1.5, 3.0, 4.0, 12.0]) for _ in range(n)], dtype=np.float32)
    return (np.arange(lo, lo + n, dtype=np.int32), vol(), vol(), rng.choice([0.5, 1.0, 1.5, 3.0, 3.0]))


Contract(B + "comp_footprint_features", ["price_levels: A_int", "buy_volumes: A_real/float32", "sell_volumes: A_real/float32", "imbalance_multiplier: real"],
         requires=[f"{N} >= 1", f"len(buy_volumes) == {N}", f"len(sell_volumes) == {N}", "imbalance_multiplier >= 0",
                   f"forall(0, {N}, lambda k: price_levels[k] == price_levels[0] + k)", f"forall(0, {N}, lambda k: buy_volumes[k] >= 0 and sell_volumes[k] >= 0)"],
         ensures=[f"len(result[0]) == {N}", f"len(result[1]) == {N}",
                  "result[2] == imb_best(result[0], result[1], len(price_levels))",
                  f"-{N} <= result[2] and result[2] <= {N}", f"result[3] == price_levels[0] + {TOP.format(N)}", f"price_levels[0] <= result[3] and result[3] < price_levels[0] + {N}",
                  f"forall(0, {N}, lambda k: {TV.format('k')} <= {TV.format('result[3] - price_levels[0]')})",
                  f"forall(0, result[3] - price_levels[0], lambda k: {TV.format('k')} < {TV.format('result[3] - price_levels[0]')})",
                  f"same(result[4], ite({VOL} <= 0, 0.0, sumof(0, {N}, lambda q: (price_levels[q] - {VWAP}) * (buy_volumes[q] + sell_volumes[q])) / {VOL}))", f"same(result[5], concentration(buy_volumes, sell_volumes, {N}))"],
         prelemmas=[f"induct(1, {N}, lambda m: 0 <= {TOP.format('m')} and {TOP.format('m')} < m and forall(0, m, lambda j: {TV.format('j')} <= {TV.format(TOP.format('m'))}) and forall(0, {TOP.format('m')}, lambda j: {TV.format('j')} < {TV.format(TOP.format('m'))}))"],
         pointwise=[(0, N, f"b > 0 and buy_volumes[b] > sell_volumes[b - 1] * imbalance_multiplier"),
                    (1, N, f"b < {N} - 1 and sell_volumes[b] > buy_volumes[b + 1] * imbalance_multiplier")],
         templates=["$n == imb_longest($B1, $B2, $k)", "$n == imb_run($B1, $B2, $k - 1)", "$n1 * $n2 == imb_best($B1, $B2, $k)", "implies($k > 0, $n == imb($B1, $B2, ite($k > 0, $k - 1, 0)))", "-$k <= $n1 * $n2 and $n1 * $n2 <= $k", "0 <= $n1 and $n1 <= $k"],
         result=("A_bool", "A_bool", "int", "int", "real", "real"), modular=True,
         gen=g_fp)


@spec("A_real, A_real, A_int, real, int, int, int, int -> real", fold=True)
def fvol(p, a, s, t, side, level, lo, hi):
    """volume of the trades lo..hi-1 of one side at one price level"""
    return 0.0 if hi <= lo else fvol(p, a, s, t, side, level, lo, hi - 1) + (a[hi - 1] if s[hi - 1] == side and round_(p[hi - 1] / t) == level else 0.0)


@spec("A_real, A_int, real, int, int, int, int -> int", fold=True)
def ftick(p, s, t, side, level, lo, hi):
    """number of the trades lo..hi-1 of one side at one price level"""
    return 0 if hi <= lo else ftick(p, s, t, side, level, lo, hi - 1) + (1 if s[hi - 1] == side and round_(p[hi - 1] / t) == level else 0)


C = "bar_close_indices"
M = f"len({C}) - 1"
LOW, HIGH = "round_(bar_lows[b] / price_tick_size)", "round_(bar_highs[b] / price_tick_size)"
NL = f"{HIGH} - {LOW} + 1"


def FV(side, lv, lo, hi):
    return f"fvol(prices, amounts, trade_sides, price_tick_size, {side}, {lv}, {lo}, {hi})"


def FT(side, lv, lo, hi):
    return f"ftick(prices, trade_sides, price_tick_size, {side}, {lv}, {lo}, {hi})"


def cells(r, n, f):
    """for every one of the n bars b and levels k of its array in r"""
    return f"forall(0, {n}, lambda b: forall(0, {NL}, lambda k: {f}))"


SPAN = (f"{C}[b] + 1", f"{C}[b + 1] + 1")
BUYI = "{0}[b][k] == (k > 0 and " + FV(1, f"{LOW} + k", *SPAN) + " > " + FV(-1, f"{LOW} + k - 1", *SPAN) + " * imbalance_factor)"
SELLI = "{0}[b][k] == (k < " + NL + " - 1 and " + FV(-1, f"{LOW} + k", *SPAN) + " > " + FV(1, f"{LOW} + k + 1", *SPAN) + " * imbalance_factor)"


def poc(a, v, w, n):
    """a holds the lowest of the levels of bar b with the largest volume"""
    return [f"forall(0, {n}, lambda b: {a}[b] == {LOW} + vmax({v}[b], {w}[b], len({v}[b])))"]


def side_totals(v, t, n):
    return [f"forall(0, {n}, lambda b: asum({v}[b], 0, len({v}[b])) == sumof({SPAN[0]}, {SPAN[1]}, lambda j: ite(trade_sides[j] == {sd}, amounts[j], 0.0)))" for sd in t]


def shares(g, v, w, n):
    return [f"forall(0, {n}, lambda b: same({g}[b], concentration({v}[b], {w}[b], len({v}[b]))))"]


def g_foot(rng, n):
    from contracts.bar_ohlcv import g_bars
    tick = rng.choice([0.25, 0.5, 1.0])
    p = np.array([100.0 + tick * rng.randint(0, 6) for _ in range(n)])
    a = np.array([rng.choice([0.0, 0.5, 1.0, 2.0, 3.25]) for _ in range(n)])
    s = np.array([rng.choice([-1, 0, 1, 1, -1]) for _ in range(n)], dtype=np.int8)
    c = g_bars(rng, n)
    lo = np.array([p[c[b] + 1:c[b + 1] + 1].min() if c[b + 1] > c[b] else p[c[b]] for b in range(len(c) - 1)])
    hi = np.array([p[c[b] + 1:c[b + 1] + 1].max() if c[b + 1] > c[b] else p[c[b]] for b in range(len(c) - 1)])
    return (p, a, c, s, tick, lo, hi, rng.choice([0.5, 1.0, 1.5, 3.0]))


PAR = ["prices: A_real", "amounts: A_real", "bar_close_indices: A_int", "trade_sides: A_int", "price_tick_size: real", "bar_lows: A_real", "bar_highs: A_real", "imbalance_factor: real"]
REQ = ["price_tick_size > 0", "imbalance_factor >= 0", "len(amounts) == len(prices)", "len(trade_sides) == len(prices)", f"len({C}) >= 1", f"len(bar_lows) == {M}", f"len(bar_highs) == {M}",
       f"forall(0, {M}, lambda b: {C}[b] <= {C}[b + 1])", f"forall(0, len({C}), lambda b: {C}[b] >= -1 and {C}[b] < len(prices))",
       f"forall(0, {M}, lambda b: bar_lows[b] <= bar_highs[b])",
       f"forall(0, {M}, lambda b: forall({C}[b] + 1, {C}[b + 1] + 1, lambda j: bar_lows[b] <= prices[j] and prices[j] <= bar_highs[b]))",
       "forall(0, len(amounts), lambda j: amounts[j] >= 0)", f"forall(0, {M}, lambda b: {NL} <= 32767 and {LOW} >= -2000000000 and {HIGH} <= 2000000000)", "len(prices) <= 2000000000"]
LENS = [f"len(result[{r}]) == {M}" for r in range(13)] + [f"forall(0, {M}, lambda b: len(result[{r}][b]) == {NL})" for r in range(7)] + [cells(0, M, f"result[0][b][k] == {LOW} + k")]
TLENS = [f"forall(0, $k, lambda b: len($L[b]) == {NL})", cells(0, "$k", f"$L[b][k] == {LOW} + k"), "len($L) == $k"]
# the volumes of the levels of the bar in progress
TINNER = ["forall(0, len($A), lambda k: 0 <= $A[k] and $A[k] <= $k - $u)", "forall(0, len($A), lambda k: $A[k] >= 0)"]

Contract(B + "comp_bar_footprints", PAR,
         requires=REQ,
         ensures=LENS +
                 [cells(r, M, f"result[{r}][b][k] == " + FV(sd, f"{LOW} + k", *SPAN)) for r, sd in ((1, 1), (2, -1))] +
                 [cells(r, M, f"result[{r}][b][k] == " + FT(sd, f"{LOW} + k", *SPAN)) for r, sd in ((3, 1), (4, -1))] +
                 side_totals("result[1]", [1], M) + side_totals("result[2]", [-1], M) +
                 [cells(0, M, BUYI.format("result[5]")), cells(0, M, SELLI.format("result[6]"))] +
                 [f"forall(0, {M}, lambda b: result[{7 + i}][b] == bcount(result[{5 + i}][b], 0, len(result[{5 + i}][b])))" for i in (0, 1)],
         templates=TLENS + TINNER +
                   [cells(0, "$k", f"$L[b][k] == " + FV(sd, f"{LOW} + k", *SPAN)) for sd in (1, -1)] +
                   [cells(0, "$k", f"$L[b][k] == " + FT(sd, f"{LOW} + k", *SPAN)) for sd in (1, -1)] +
                   ["forall(0, len($A), lambda k: $A[k] == " + FV(sd, "$u1 + k", "$u2", "$k") + ")" for sd in (1, -1)] +
                   ["forall(0, len($A), lambda k: $A[k] == " + FT(sd, "$u1 + k", "$u2", "$k") + ")" for sd in (1, -1)] +
                   [cells(0, "$k", BUYI.format("$L")), cells(0, "$k", SELLI.format("$L"))] +
                   ["forall(0, $k, lambda b: $A[b] == bcount($L[b], 0, len($L[b])))"] +
                   side_totals("$L", [1, -1], "$k") + [f"asum($A, 0, len($A)) == sumof($u, $k, lambda j: ite(trade_sides[j] == {sd}, amounts[j], 0.0))" for sd in (1, -1)],
         gen=g_foot, opts={"single": (1, 2)})

Contract(B + "comp_bar_footprints#features", PAR,
         requires=REQ,
         ensures=LENS + [f"forall(0, {M}, lambda b: result[10][b] == imb_best(result[5][b], result[6][b], len(result[5][b])))"] +
                 poc("result[9]", "result[1]", "result[2]", M) + shares("result[12]", "result[1]", "result[2]", M),
         templates=TLENS + TINNER + ["forall(0, $k, lambda b: $A[b] == imb_best($L1[b], $L2[b], len($L1[b])))"] + poc("$A", "$L1", "$L2", "$k") + shares("$A", "$L1", "$L2", "$k"),
         gen=g_foot, opts={"single": (1, 2)})
