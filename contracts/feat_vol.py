from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
from .feat_ma import series, win, pow2, scaled
import numpy as np

V = "finmlkit/feature/core/volatility.py:"


# ---- index-based exponentially weighted deviation (weights (1 - alpha)^age over the defined observations)
@spec("A_float, int, int -> real")
def ew_w(y, s, t):
    return 0.0 if t < 0 else (1.0 - 2.0 / (s + 1.0)) * ew_w(y, s, t - 1) + (0.0 if isnan(y[t]) else 1.0)


@spec("A_float, int, int -> real")
def ew_w2(y, s, t):
    return 0.0 if t < 0 else (1.0 - 2.0 / (s + 1.0)) ** 2 * ew_w2(y, s, t - 1) + (0.0 if isnan(y[t]) else 1.0)


@spec("A_float, int, int -> real")
def ew_y(y, s, t):
    return 0.0 if t < 0 else (1.0 - 2.0 / (s + 1.0)) * ew_y(y, s, t - 1) + (0.0 if isnan(y[t]) else y[t])


@spec("A_float, int, int -> real")
def ew_yy(y, s, t):
    return 0.0 if t < 0 else (1.0 - 2.0 / (s + 1.0)) * ew_yy(y, s, t - 1) + (0.0 if isnan(y[t]) else y[t] ** 2)


SW, SW2, SY, SYY = (f"{f}(y, span, b)" for f in ("ew_w", "ew_w2", "ew_y", "ew_yy"))
Contract(V + "ewms", ["y: A_float", "span: int"],
         pointwise=[(None, "len(y)", f"ite(span > 1 and {SW} > 0 and {SW} - {SW2} / {SW} > 0, sqrt_(max(({SYY} / {SW} - ({SY} / {SW}) ** 2) * {SW} / ({SW} - {SW2} / {SW}), 0.0)), nan)")],
         ensures=["forall(0, len(y), lambda b: isnan(result[b]) or result[b] >= 0)"],
         templates=[f"same($x, {f}(y, span, $k))" for f in ("ew_w", "ew_w2", "ew_y", "ew_yy")] + ["forall(0, $k, lambda b: isnan($A[b]) or $A[b] >= 0)"],
         gen=scaled(lambda rng, n: (pow2(rng, n, rng.choice([0, 0.3])), rng.choice([0, 1, 3, 7, 15])), 0))


# ---- time-based deviations
def g_ewt(rng, n):
    n = rng.choice([n, n, n, 0])
    t = np.cumsum([rng.choice([0, 1, 2, 10]) for _ in range(n)]).astype(np.int64) * 500_000_000
    return (t, pow2(rng, n, rng.choice([0, 0.3])), rng.choice([0.5, 1.0, 5.0]), rng.choice([1e-12, 0.1, 0.0]))


@spec("A_int, real, int -> real", macro=True)
def ew_alpha(t, h, i):
    return 1.0 - exp_(-((t[i] - t[i - 1]) / 1000000000.0) / h)


@spec("A_int, A_float, real, int -> real")
def m0_u(t, y, h, i):
    return 0.0 if i <= 0 else ((1.0 - ew_alpha(t, h, i)) * m0_u(t, y, h, i - 1) if isnan(y[i]) else ew_alpha(t, h, i) * (y[i] * y[i]) + (1.0 - ew_alpha(t, h, i)) * m0_u(t, y, h, i - 1))


@spec("A_int, A_float, real, int -> real")
def m0_v(t, y, h, i):
    return 0.0 if i <= 0 else ((1.0 - ew_alpha(t, h, i)) * m0_v(t, y, h, i - 1) if isnan(y[i]) else ew_alpha(t, h, i) + (1.0 - ew_alpha(t, h, i)) * m0_v(t, y, h, i - 1))


REQT = ["len(timestamps) == len(y)", "half_life > 0", "sigma_floor >= 0", "forall(0, len(y), lambda i: forall(i, len(y), lambda j: timestamps[i] <= timestamps[j]))"]
A4 = "timestamps, y, half_life"
Contract(V + "ewmst_mean0", ["timestamps: A_int", "y: A_float", "half_life: real", "sigma_floor: real"], requires=REQT,
         pointwise=[(None, "len(y)", f"ite(m0_v({A4}, b) > 0, max(sqrt_(max(m0_u({A4}, b) / m0_v({A4}, b), 0.0)), sigma_floor), nan)", 1)],
         ensures=["forall(0, len(y), lambda b: isnan(result[b]) or result[b] >= 0)"],
         templates=[f"same($x, m0_u({A4}, $k))", f"same($x, m0_v({A4}, $k))", "same($f, timestamps[$k])", "forall(0, $k, lambda b: isnan($A[b]) or $A[b] >= 0)"],
         gen=g_ewt)


# ---- true range, ATR
def g_ohlc(rng, n, nan=True):
    lo = series(rng, n, 1.0, nan=rng.choice([0, 0.2]) if nan else 0)
    hi = lo + np.array([rng.choice([0.0, 0.5, 1.0]) for _ in range(n)])
    c = np.array([rng.choice([a, b, (a + b) / 2]) for a, b in zip(lo, hi)])
    if nan and rng.random() < 0.3:
        c[rng.randrange(n)] = np.nan
        hi[rng.randrange(n)] = np.nan
    return (hi, lo, c)


@spec("A_float, A_float, A_float, int -> float")
def trng(h, l, c, i):
    """largest of high - low, |high - previous close|, |low - previous close|"""
    return (nan if isnan(h[0]) or isnan(l[0]) else h[0] - l[0]) if i <= 0 else (nan if isnan(h[i]) or isnan(l[i]) or isnan(c[i - 1]) else max(h[i] - l[i], abs(h[i] - c[i - 1]), abs(l[i] - c[i - 1])))


EQL = ["len(low) == len(high)", "len(close) == len(high)", "len(high) >= 1"]
HLC = "high, low, close"
Contract(V + "true_range", modular=True, result="A_float", params=["high: A_float", "low: A_float", "close: A_float"], requires=["len(high) >= 1", "forall(0, min(len(high), len(low)), lambda i: isnan(high[i]) or isnan(low[i]) or low[i] <= high[i])"],
         raises=[("ValueError", "not (len(high) == len(low) and len(low) == len(close))")],
         pointwise=[(None, "len(high)", f"trng({HLC}, b)")],
         ensures=["forall(0, len(high), lambda b: isnan(result[b]) or result[b] >= 0)"],
         templates=["forall(0, $k, lambda b: isnan($A[b]) or $A[b] >= 0)"],
         gen=scaled(lambda rng, n: (lambda h, l, c: (h, l, c[:-1] if rng.random() < 0.1 and n > 1 else c))(*g_ohlc(rng, n)), 0, 1, 2))


@spec("A_float, int, int -> int", fold=True)
def vcount(x, lo, hi):
    """number of defined values"""
    return 0 if hi <= lo else vcount(x, lo, hi - 1) + (0 if isnan(x[hi - 1]) else 1)


@spec("A_float, int, int -> real", fold=True)
def vsum(x, lo, hi):
    return 0.0 if hi <= lo else vsum(x, lo, hi - 1) + (0.0 if isnan(x[hi - 1]) else x[hi - 1])


@spec("A_float, int, int -> real", fold=True)
def vsumsq(x, lo, hi):
    return 0.0 if hi <= lo else vsumsq(x, lo, hi - 1) + (0.0 if isnan(x[hi - 1]) else x[hi - 1] * x[hi - 1])


# ---- realised volatility of the defined returns of a window
DC = "vcount(r, b - window + 1, b + 1)"
Contract(V + "realized_vol", ["r: A_float", "window: int", "is_sample: bool"], requires=["window >= 1"],
         pointwise=[(None, "len(r)", f"ite(b < window - 1 or {DC} <= 1, nan, sqrt_(sumof(b - window + 1, b + 1, lambda q: ite(isnan(r[q]), 0.0, r[q] ** 2)) / ite(is_sample, {DC} - 1, {DC})))", 1)],
         ensures=["forall(0, len(r), lambda b: isnan(result[b]) or result[b] >= 0)"],
         templates=["$n == vcount(r, $u - window + 1, $u - window + 1 + $k)",
                    "same($x, sumof($u - window + 1, $u - window + 1 + $k, lambda q: ite(isnan(r[q]), 0.0, r[q] ** 2)))", "forall(0, $k, lambda b: isnan($A[b]) or $A[b] >= 0)"],
         gen=scaled(lambda rng, n: (series(rng, n, nan=rng.choice([0, 0.3])), win(rng, n), rng.random() < 0.5), 0))

# ---- Bollinger %B
MEAN, SQ = "(asum(close, b - window + 1, b + 1) / window)", "sumof(b - window + 1, b + 1, lambda q: close[q] ** 2)"
SD = f"sqrt_(max(({SQ} - window * {MEAN} ** 2) / (window - 1), 0.0))"
LOWER, UPPER = f"({MEAN} - num_std * {SD})", f"({MEAN} + num_std * {SD})"
Contract(V + "bollinger_percent_b", ["close: A_real", "window: int", "num_std: real"], requires=["window >= 2"],
         pointwise=[(None, "len(close)", f"ite(b < window - 1, nan, ite({UPPER} > {LOWER}, (close[b] - {LOWER}) / ({UPPER} - {LOWER}), nan))", 1)],
         prelemmas=["induct(1, len(close), lambda m: forall(0, len(close), lambda i: implies(i < m, asum(close, i, m) == close[i] + asum(close, i + 1, m))))",
                    "induct(1, len(close), lambda m: forall(0, len(close), lambda i: implies(i < m, sumof(i, m, lambda q: close[q] ** 2) == close[i] ** 2 + sumof(i + 1, m, lambda q: close[q] ** 2))))"],
         templates=["same($x, asum(close, $k - window, $k))", "same($x, sumof($k - window, $k, lambda q: close[q] ** 2))", "same($x, asum(close, 0, $k))", "same($x, sumof(0, $k, lambda q: close[q] ** 2))"],
         gen=scaled(lambda rng, n: (series(rng, n, 1.0), win(rng, n, 2), rng.choice([1.0, 2.0, 0.0])), 0))

Contract(V + "parkinson_range", ["high: A_real", "low: A_real"], requires=["len(high) == len(low)", "forall(0, len(high), lambda i: low[i] > 0 and high[i] > 0)"],
         pointwise=[(None, "len(high)", "log_(high[b] / low[b]) ** 2 / (log_(2.0) * 4.0)")],
         ensures=["forall(0, len(high), lambda b: result[b] >= 0)"],
         templates=["forall(0, $k, lambda b: $A[b] >= 0)"],
         gen=scaled(lambda rng, n: g_ohlc(rng, n, False)[:2], 0, 1))


# ---- rolling variance of the defined values of a window
CNT, SM, SS = "vcount({x}, {lo}, {hi})", "vsum({x}, {lo}, {hi})", "vsumsq({x}, {lo}, {hi})"
w = dict(lo="b - window + 1", hi="b + 1", x="series")
C_, M_, S_ = CNT.format(**w), SM.format(**w), SS.format(**w)
Contract(V + "rolling_variance_nb", ["series: A_float", "window: int", "ddof: int", "min_periods: int"], requires=["window >= 1", "ddof >= 0"],
         pointwise=[(None, "len(series)", f"ite(b < window - 1 or {C_} < min_periods or {C_} <= ddof, nan, max(0.0, ({S_} / {C_} - ({M_} / {C_}) * ({M_} / {C_})) * ({C_} / ({C_} - ddof))))", 1)],
         ensures=["forall(0, len(series), lambda b: isnan(result[b]) or result[b] >= 0)"],
         templates=[f"{h} == " + e.format(lo="$u - window + 1", hi="$u - window + 1 + $k", x="series") for h, e in (("$n", CNT), ("$x", SM), ("$x", SS))] + ["forall(0, $k, lambda b: isnan($A[b]) or $A[b] >= 0)"],
         gen=scaled(lambda rng, n: (series(rng, n, nan=rng.choice([0, 0.3])), win(rng, n), rng.choice([0, 1]), rng.choice([1, 2])), 0))


# ---- time-based deviation around the weighted mean (a missing observation carries no weight)
def define(ns, sig, src, **kw):
    """a spec function from generated source text"""
    import linecache
    nm = src[4:src.index("(")]
    fn = f"<spec {nm}>"
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    exec(compile(src, fn, "exec"), ns)
    ns[nm] = spec(sig, **kw)(ns[nm])


def rec(name, new):
    return spec("A_int, A_float, real, int -> real")(_mk(name, new))


def _mk(name, new):
    import linecache
    src = (f"def {name}(t, y, h, i):\n    return 0.0 if i <= 0 else ((1.0 - ew_alpha(t, h, i)){'**2' if name == 'es_v2' else ''} * {name}(t, y, h, i - 1) + (0.0 if isnan(y[i]) else {new}))\n")
    fn = f"<spec {name}>"
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = globals()
    exec(compile(src, fn, "exec"), ns)
    return ns[name]


es_v = rec("es_v", "ew_alpha(t, h, i)")
es_v2 = rec("es_v2", "ew_alpha(t, h, i) ** 2")
es_y = rec("es_y", "ew_alpha(t, h, i) * y[i]")
es_yy = rec("es_yy", "ew_alpha(t, h, i) * y[i] * y[i]")
EV, EV2, EY, EYY = (f"es_{x}({A4}, b)" for x in ("v", "v2", "y", "yy"))


@spec("real, real, real, real, real -> float")
def ew_sigma(v, v2, sy, syy, floor):
    """deviation from the weighted sums of weights, squared weights, values and squares"""
    if v > 0:
        raw = syy / v - sy / v * (sy / v)
        den = v - v2 / v
        return max(sqrt_(raw * (v / den)) if raw > 0 and den > 0 else 0.0, floor)
    return nan


Contract(V + "ewmst", ["timestamps: A_int", "y: A_float", "half_life: real", "sigma_floor: real"], requires=REQT,
         pointwise=[(None, "len(y)", f"ew_sigma({EV}, {EV2}, {EY}, {EYY}, sigma_floor)", 1)],
         ensures=["forall(0, len(y), lambda b: isnan(result[b]) or result[b] >= 0)"],
         templates=[f"same($x, es_{x}({A4}, $k))" for x in ("v", "v2", "y", "yy")] + ["same($f, timestamps[$k])", "forall(0, $k, lambda b: isnan($A[b]) or $A[b] >= 0)"],
         gen=g_ewt, opts={"name_merges": True, "cut": True})


# ---- average true range: mean of the defined ranges of a window, or Wilder's recurrence seeded with it
@spec("A_float, A_float, A_float, int, int -> int", fold=True)
def tcount(high, low, close, lo, hi):
    return 0 if hi <= lo else tcount(high, low, close, lo, hi - 1) + (0 if isnan(trng(high, low, close, hi - 1)) else 1)


@spec("A_float, A_float, A_float, int, int -> real", fold=True)
def tsum(high, low, close, lo, hi):
    return 0.0 if hi <= lo else tsum(high, low, close, lo, hi - 1) + (0.0 if isnan(trng(high, low, close, hi - 1)) else trng(high, low, close, hi - 1))


@spec("A_float, A_float, A_float, int, int -> float")
def atr_mean(high, low, close, window, b):
    return tsum(high, low, close, b - window + 1, b + 1) / tcount(high, low, close, b - window + 1, b + 1) if tcount(high, low, close, b - window + 1, b + 1) > 0 else nan


@spec("A_float, A_float, A_float, int, int -> float")
def atr_sma(high, low, close, window, b):
    return nan if b < window - 1 or (isnan(high[b]) and isnan(low[b]) and isnan(close[b])) else atr_mean(high, low, close, window, b)


@spec("A_float, A_float, A_float, int, int -> float")
def atr_ema(high, low, close, window, b):
    return (nan if b < window - 1 else atr_mean(high, low, close, window, b) if b == window - 1
            else nan if isnan(trng(high, low, close, b)) or isnan(atr_ema(high, low, close, window, b - 1))
            else ((window - 1) * atr_ema(high, low, close, window, b - 1) + trng(high, low, close, b)) / window)


MID = "((high[b] + low[b]) / 2.0)"
for tag, ema, nm in (("sma", False, "atr_sma"), ("ema", True, "atr_ema")):
    E_ = f"{nm}({HLC}, window, b)"
    Contract(V + "atr#" + tag, ["high: A_float", "low: A_float", "close: A_float", "window: int", "ema_based: bool", "normalize: bool"], cases=[{"ema_based": ema}],
             requires=EQL + ["window >= 1", "forall(0, min(len(high), len(low)), lambda i: isnan(high[i]) or isnan(low[i]) or low[i] <= high[i])"],
             pointwise=[(None, "len(high)", f"ite(normalize and not isnan({MID}) and {MID} > 0, {E_} / {MID}, {E_})", 1)],
             ensures=["forall(0, len(high), lambda b: isnan(result[b]) or result[b] >= 0)"],
             templates=[f"forall(0, len(high), lambda b: implies(b < $k, same($A[b], {E_})))", f"forall($k, len(high), lambda b: same($A[b], {E_}))", "forall(0, len(high), lambda b: isnan($A[b]) or $A[b] >= 0)",
                        f"$n == tcount({HLC}, $u - window + 1, $u - window + 1 + $k)", f"$x == tsum({HLC}, $u - window + 1, $u - window + 1 + $k)",
                        f"$n == tcount({HLC}, 0, $k)", f"$x == tsum({HLC}, 0, $k)"],
             gen=lambda rng, n, ema=ema: g_ohlc(rng, n) + (win(rng, n), ema, rng.random() < 0.5))


# ---- ratio of the one-bar variance to a quarter of the four-bar variance
for kind in ("log", "simple"):
    lg = kind == "log"
    ret = "log_(p[i] / p[i - 1])" if lg else "p[i] / p[i - 1] - 1.0"
    bad = " or p[i] <= 0" if lg else ""
    for nm, src in (
            (f"r1_{kind}", f"return nan if i < 1 or isnan(p[i]) or isnan(p[i - 1]) or p[i - 1] <= 0{bad} else {ret}"),
            (f"r4_{kind}", f"return nan if i < 4 or isnan(r1_{kind}(p, i)) or isnan(r1_{kind}(p, i - 1)) or isnan(r1_{kind}(p, i - 2)) or isnan(r1_{kind}(p, i - 3)) else r1_{kind}(p, i) + r1_{kind}(p, i - 1) + r1_{kind}(p, i - 2) + r1_{kind}(p, i - 3)")):
        define(globals(), "A_float, int -> float", f"def {nm}(p, i):\n    {src}\n")
    for q in ("r1", "r4"):
        r = f"{q}_{kind}(p, hi - 1)"
        define(globals(), "A_float, int, int -> int", f"def {q}_{kind}_n(p, lo, hi):\n    return 0 if hi <= lo else {q}_{kind}_n(p, lo, hi - 1) + (0 if isnan({r}) else 1)\n", fold=True)
        define(globals(), "A_float, int, int -> real", f"def {q}_{kind}_s(p, lo, hi):\n    return 0.0 if hi <= lo else {q}_{kind}_s(p, lo, hi - 1) + (0.0 if isnan({r}) else {r})\n", fold=True)
        define(globals(), "A_float, int, int -> real", f"def {q}_{kind}_q(p, lo, hi):\n    return 0.0 if hi <= lo else {q}_{kind}_q(p, lo, hi - 1) + (0.0 if isnan({r}) else {r} * {r})\n", fold=True)
        n_, s_, q_ = (f"{q}_{kind}_{x}(p, b - window + 1, b + 1)" for x in "nsq")
        define(globals(), "A_float, int, int, int -> float", f"def {q}_{kind}_var(p, window, ddof, b):\n    return nan if b < window - 1 or {n_} < 1 or {n_} <= ddof else max(0.0, ({q_} / {n_} - ({s_} / {n_}) * ({s_} / {n_})) * ({n_} / ({n_} - ddof)))\n")
    V1, V4 = f"r1_{kind}_var(price, window, ddof, b)", f"r4_{kind}_var(price, window, ddof, b)"
    tpl = [f"forall(0, $k, lambda b: same($A[b], {q}_{kind}(price, b)))" for q in ("r1", "r4")]
    for q in ("r1", "r4"):
        lo, hi = "$u - window + 1", "$u - window + 1 + $k"
        tpl += [f"forall(0, len(price), lambda b: implies(b < $k, same($A[b], {q}_{kind}_var(price, window, ddof, b))))", f"forall($k, len(price), lambda b: same($A[b], {q}_{kind}(price, b)))",
                f"$n == {q}_{kind}_n(price, {lo}, {hi})", f"$x == {q}_{kind}_s(price, {lo}, {hi})", f"$x == {q}_{kind}_q(price, {lo}, {hi})"]
    Contract(V + "variance_ratio_1_4_core#" + kind, ["price: A_float", "window: int", "ddof: int", "ret_type: int"], cases=[{"ret_type": kind}], requires=["window >= 1", "ddof >= 0"],
             pointwise=[(None, "len(price)", f"ite(len(price) >= window + 4 and not isnan({V1}) and not isnan({V4}) and {V4} > 0, {V1} / ({V4} / 4), nan)", 1)],
             ensures=["forall(0, len(price), lambda b: isnan(result[b]) or result[b] >= 0)"],
             templates=tpl + ["forall(0, $k, lambda b: isnan($A[b]) or $A[b] >= 0)"],
             gen=lambda rng, n, kind=kind: (lambda m: (np.abs(series(rng, m, 1.0, nan=rng.choice([0, 0.1]))) * rng.choice([1, 1, 1, -1]), rng.choice([1, 2, 3]), rng.choice([0, 1]), kind))(rng.choice([n, n + 6])))
