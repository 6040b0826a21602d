from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np


# ---- tick rule
@spec("A_real, int -> int")
def tick_side(p, i):
    return 0 if i <= 0 else (ite(p[i] > p[i - 1], 1, -1) if abs(p[i] - p[i - 1]) > 1e-12 else tick_side(p, i - 1))


def g_prices(rng, n):
    p = [rng.choice([100.0, 0.5])]
    for _ in range(n - 1):
        p.append(p[-1] + rng.choice([0, 0, 0.5, -0.5, 0.01, -0.01, 1e-13, 1e-9]))
    return (np.array(p),)


Contract("finmlkit/bar/utils.py:comp_trade_side_vector", ["prices: A_real"], requires=["len(prices) >= 1"],
         pointwise=[(None, "len(prices)", "tick_side(prices, b)")],
         ensures=["forall(0, len(result), lambda b: result[b] == -1 or result[b] == 0 or result[b] == 1)"],
         templates=["$n == tick_side(prices, $k)", "same($x, tick_side(prices, $k))", "forall(0, $k, lambda b: -1 <= tick_side(prices, b) and tick_side(prices, b) <= 1)", "-1 <= $n and $n <= 1",
                    "same($f, prices[$k])", "same($f, prices[$k - 1])"],
         gen=g_prices)
Contract("finmlkit/bar/utils.py:comp_trade_side", ["price: real", "prev_price: real", "prev_tick: int"],
         requires=["-1 <= prev_tick and prev_tick <= 1"],
         ensures=["implies(price - prev_price > 1e-12, result == 1)", "implies(prev_price - price > 1e-12, result == -1)",
                  "implies(abs(price - prev_price) <= 1e-12, result == prev_tick)"],
         gen=lambda rng, n: (lambda a: (a, a + rng.choice([0.0, 1e-13, -1e-13, 0.5, -0.5]), rng.choice([-1, 0, 1])))(rng.choice([1.0, 0.5, 2.0])))


# ---- split trades
for SIDE in (False, True):
    sfx = "_s" if SIDE else "_n"
    if SIDE:
        @spec("A_int, A_real, A_bool, int -> bool", macro=True)
        def joins_s(t, p, m, i):
            """trade i continues the run trade i - 1 belongs to"""
            return t[i] == t[run_start_s(t, p, m, i - 1)] and abs(p[i] - p[run_start_s(t, p, m, i - 1)]) < 1e-8 and (m[i] == m[run_start_s(t, p, m, i - 1)])

        @spec("A_int, A_real, A_bool, int -> int")
        def run_start_s(t, p, m, i):
            return 0 if i <= 0 else (run_start_s(t, p, m, i - 1) if joins_s(t, p, m, i) else i)

        @spec("A_int, A_real, A_bool, int -> int")
        def run_no_s(t, p, m, i):
            return 0 if i <= 0 else (run_no_s(t, p, m, i - 1) + (0 if joins_s(t, p, m, i) else 1))

        @spec("A_int, A_real, A_bool, A_real, int -> real")
        def run_amt_s(t, p, m, a, i):
            return a[i] if i <= 0 else (run_amt_s(t, p, m, a, i - 1) + a[i] if joins_s(t, p, m, i) else a[i])
    else:
        @spec("A_int, A_real, int -> bool", macro=True)
        def joins_n(t, p, i):
            return t[i] == t[run_start_n(t, p, i - 1)] and abs(p[i] - p[run_start_n(t, p, i - 1)]) < 1e-8

        @spec("A_int, A_real, int -> int")
        def run_start_n(t, p, i):
            return 0 if i <= 0 else (run_start_n(t, p, i - 1) if joins_n(t, p, i) else i)

        @spec("A_int, A_real, int -> int")
        def run_no_n(t, p, i):
            return 0 if i <= 0 else (run_no_n(t, p, i - 1) + (0 if joins_n(t, p, i) else 1))

        @spec("A_int, A_real, A_real, int -> real")
        def run_amt_n(t, p, a, i):
            return a[i] if i <= 0 else (run_amt_n(t, p, a, i - 1) + a[i] if joins_n(t, p, i) else a[i])


def g_merge(side):
    def g(rng, n):
        t = np.cumsum([rng.choice([0, 0, 0, 1]) for _ in range(n)]).astype(np.int64)
        p = np.array([100.0 + rng.choice([0.0, 0.0, 0.5]) for _ in range(n)])
        if rng.random() < 0.1:
            p[rng.randrange(n)] += 2e-8
        a = np.array([rng.choice([0.25, 0.5, 1.0, 3.0]) for _ in range(n)], dtype=np.float32)
        m = np.array([rng.random() < 0.5 if rng.random() < 0.6 else True for _ in range(n)], dtype=bool) if side else None
        return (t, p, a, m)
    return g


for SIDE in (False, True):
    s = "_s" if SIDE else "_n"
    A = "timestamps, prices, is_buyer_maker" if SIDE else "timestamps, prices"
    NO, ST, AM, JO = (lambda i, f=f, x=x: f"{f}{s}({A}{x}, {i})" for f, x in (("run_no", ""), ("run_start", ""), ("run_amt", ", amounts"), ("joins", "")))
    N = "len(timestamps)"
    LASTOF = lambda i, n: f"({i} + 1 == {n} or {NO(i + ' + 1')} != {NO(i)})"
    SIDEOF = lambda i: f"ite(is_buyer_maker[{i}], -1, 1)"
    Contract("finmlkit/bar/utils.py:merge_split_trades" + ("#side" if SIDE else "#plain"),
             ["timestamps: A_int", "prices: A_real", "amounts: A_real/float32", "is_buyer_maker: " + ("A_bool" if SIDE else "none")],
             cases=[{}] if SIDE else [{"is_buyer_maker": None}],
             requires=["len(timestamps) >= 1", "len(prices) == len(timestamps)", "len(amounts) == len(timestamps)"] + (["len(is_buyer_maker) == len(timestamps)"] if SIDE else []),
             ensures=[f"len(result[{k}]) == {NO(N + ' - 1')} + 1" for k in range(4 if SIDE else 3)] + ([] if SIDE else ["len(result[3]) == 0"]) + [
                 f"forall(0, {N}, lambda i: result[0][{NO('i')}] == timestamps[i])",
                 f"forall(0, {N}, lambda i: same(result[1][{NO('i')}], prices[{ST('i')}]))",
                 f"forall(0, {N}, lambda i: abs(result[1][{NO('i')}] - prices[i]) < 1e-8)",
                 f"forall(0, {N}, lambda i: implies({LASTOF('i', N)}, same(result[2][{NO('i')}], {AM('i')})))",
                 f"forall(1, {N}, lambda i: ({NO('i')} == {NO('i - 1')}) == {JO('i')})",
                 f"same(asum(result[2], 0, len(result[2])), asum(amounts, 0, {N}))"]
             + ([f"forall(0, {N}, lambda i: result[3][{NO('i')}] == {SIDEOF('i')})"] if SIDE else []),
             templates=[f"$n == {NO('$k')}",
                        f"forall(0, $k, lambda i: {NO('i')} >= 0 and {NO('i')} <= $n)",
                        f"forall(0, $k, lambda i: $A[{NO('i')}] == timestamps[i])",
                        f"forall(0, $k, lambda i: same($A[{NO('i')}], prices[{ST('i')}]))",
                        f"forall(0, $k, lambda i: abs(prices[{ST('i')}] - prices[i]) < 1e-8)",
                        f"$A[$n] == timestamps[{ST('$k')}]", f"same($A[$n], prices[{ST('$k')}])", f"same($A[$n], {AM('$k')})",
                        f"forall(0, $k, lambda i: implies({NO('i')} < $n and {LASTOF('i', '$k')}, same($A[{NO('i')}], {AM('i')})))",
                        f"forall(0, $k, lambda i: {ST('i')} >= 0 and {ST('i')} <= i)",
                        "same(asum($A, 0, $n + 1), asum(amounts, 0, $k))"]
             + ([f"forall(0, $k, lambda i: $A[{NO('i')}] == {SIDEOF('i')})", f"$A[$n] == {SIDEOF(ST('$k'))}", f"forall(0, $k, lambda i: is_buyer_maker[{ST('i')}] == is_buyer_maker[i])"] if SIDE else []),
             gen=g_merge(SIDE), opts={"single": (2,)})


# ---- is a trade file in time order
Contract("finmlkit/bar/utils.py:check_timestamps_order", ["timestamps: A_int"],
         ensures=["implies(result, forall(1, len(timestamps), lambda i: timestamps[i - 1] <= timestamps[i]))",
                  "implies(not result, exists(1, len(timestamps), lambda i: timestamps[i - 1] > timestamps[i]))"],
         templates=["forall(1, $k, lambda i: timestamps[i - 1] <= timestamps[i])"],
         gen=lambda rng, n: ((lambda t: (np.array(t if rng.random() < 0.3 else sorted(t), dtype=np.int64),))([rng.randrange(0, 2 * n + 2) for _ in range(n - 1)])))
