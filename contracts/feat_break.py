from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
from .feat_vol import define
import numpy as np

C = "finmlkit/feature/core/structural_break/cusum.py:"


# p: prices, o: first bar of the sample, t: bar under test (counted from o), n: reference bar, s: deviation of the log returns
@spec("A_real, int, int -> real")
def br_sigma(p, o, t):
    return sqrt_(sumof(0, t, lambda q: (log_(p[o + (q + 1)]) - log_(p[o + q])) ** 2) / (t - 1))


def side(nm, z, doc):
    src = f"""def br_{nm}(p, o, s, t, m):
    return (-1e-6 if m <= 1 else br_{nm}(p, o, s, t, m - 1) if s * sqrt_(t - (m - 1)) <= 1e-16
            else max(br_{nm}(p, o, s, t, m - 1), {z} / (s * sqrt_(t - (m - 1)))))
"""
    define(globals(), "A_real, int, real, int, int -> real", src)
    src = f"""def br_{nm}_crit(p, o, s, t, m):
    return (0.0 if m <= 1 else sqrt_(4.6 + log_(t - (m - 1))) if s * sqrt_(t - (m - 1)) > 1e-16 and {z} / (s * sqrt_(t - (m - 1))) > br_{nm}(p, o, s, t, m - 1)
            else br_{nm}_crit(p, o, s, t, m - 1))
"""
    define(globals(), "A_real, int, real, int, int -> real", src)


D = "(log_(p[o + t]) - log_(p[o + m - 1]))"
side("up", f"max(0.0, {D})", "largest upward departure over the references 1 .. m - 1")
side("down", f"(-min(0.0, {D}))", "largest downward departure over the references 1 .. m - 1")
DL = "(p[t] - p[m - 1])"


def stat(nm, p, o, t, crit=False):
    s = f"br_sigma({p}, {o}, {t})"
    return f"ite({t} < 1 or {s} <= 0, {'0.0' if crit else '-1e-6'}, br_{nm}{'_crit' if crit else ''}({p}, {o}, {s}, {t}, {t} - 1))"


PARTS = [("up", False), ("down", False), ("up", True), ("down", True)]
POS = "forall(0, len({0}), lambda i: {0}[i] > 0)"


def inner(p):
    """running maximum inside the innermost loop, for the current test bar (an unmodified integer) and deviation"""
    return [f"same($x, br_{nm}{'_crit' if c else ''}({p}, {{o}}, $g9, $u8, $k))" for nm, c in PARTS]


def prices(rng, n):
    """powers of two: log returns are small multiples of log 2"""
    if rng.random() < 0.15:  # nearly flat prices: tiny returns
        return np.array([1.0 + rng.choice([0, 1, 2, 3, 5]) * 2.0 ** -18 for _ in range(n)])
    return np.array([rng.choice([1.0, 2.0, 4.0, 8.0, 0.5]) for _ in range(n)])


def tpl(p, o):
    return [t.format(o=o) for t in inner(p)]


Contract(C + "cusum_test_developing", ["y: A_real", "warmup_period: int"], requires=["len(y) >= 1", "warmup_period >= 2", POS.format("y")],
         pointwise=[(i, "len(y)", f"ite(b < warmup_period, nan, {stat(nm, 'y', '0', 'b', c)})", 1) for i, (nm, c) in enumerate(PARTS)],
         templates=tpl("y", "0"),
         gen=lambda rng, n: (prices(rng, rng.choice([n, n + 3])), rng.choice([2, 3, 4])))
Contract(C + "cusum_test_last", ["y: A_real"], requires=["len(y) >= 3", POS.format("y")],
         ensures=[f"same(result[{i}], {stat(nm, 'y', '0', '(len(y) - 1)', c)})" for i, (nm, c) in enumerate(PARTS)],
         templates=tpl("y", "0"),
         gen=lambda rng, n: (prices(rng, n + 3),))

# the same two, of a prefix y = p[:len(y)] and of any window y = p[o : o + len(y)] of any price array p: what the rolling test relies on
VPOS = "forall(o, o + len(y), lambda i: p[i] > 0)"
Contract(C + "cusum_test_developing#prefix", ["y: A_real", "warmup_period: int"], requires=["len(y) >= 1", "warmup_period >= 2", VPOS.replace("o + ", "").replace("o, ", "0, ")], views={"y": ("p", None)},
         modular=True, result=("A_float",) * 4,
         pointwise=[(i, "len(y)", f"ite(b < warmup_period, nan, {stat(nm, 'p', '0', 'b', c)})", 1) for i, (nm, c) in enumerate(PARTS)],
         templates=tpl("p", "0"),
         gen=lambda rng, n: (prices(rng, rng.choice([n, n + 3])), rng.choice([2, 3, 4])))
Contract(C + "cusum_test_last#window", ["y: A_real"], requires=["len(y) >= 3", VPOS], views={"y": ("p", "o")}, modular=True, result=("real",) * 4,
         ensures=[f"same(result[{i}], {stat(nm, 'p', 'o', '(len(y) - 1)', c)})" for i, (nm, c) in enumerate(PARTS)],
         templates=tpl("p", "o"),
         gen=lambda rng, n: (prices(rng, n + 3),))

WIN = "max(window_size, warmup_period + 2)"
OFF = f"max(0, b - {WIN})"
Contract(C + "cusum_test_rolling", ["close_prices: A_real", "window_size: int", "warmup_period: int"], requires=["len(close_prices) >= 1", "warmup_period >= 2"],
         raises=[("ValueError", "exists(0, len(close_prices), lambda i: close_prices[i] <= 0)")],
         pointwise=[(i, "len(close_prices)", f"ite(len(close_prices) < warmup_period + 2 or b < warmup_period, nan, {stat(nm, 'close_prices', OFF, f'(b - {OFF})', c)})", 1) for i, (nm, c) in enumerate(PARTS)],
         templates=tpl("close_prices", "0") + tpl("close_prices", "$u7")
         + [f"forall(0, len($A), lambda b: implies(b < $k, same($A[b], ite(b < warmup_period, nan, {stat(nm, 'close_prices', '0', 'b', c)}))))" for nm, c in PARTS]
         + [f"forall(0, len(close_prices), lambda b: implies(b < $k and $k > {WIN}, same($A[b], ite(b < warmup_period, nan, {stat(nm, 'close_prices', OFF, f'(b - {OFF})', c)}))))" for nm, c in PARTS]
         + [f"forall(0, len(close_prices), lambda b: implies(b < $k + {WIN} and $k > 0, same($A[b], ite(b < warmup_period, nan, {stat(nm, 'close_prices', OFF, f'(b - {OFF})', c)}))))" for nm, c in PARTS],
         gen=lambda rng, n: (prices(rng, rng.choice([n, n + 4])) * (-1 if rng.random() < 0.03 else 1), rng.choice([1, 3, 4, 5, 6]), rng.choice([2, 3])))
