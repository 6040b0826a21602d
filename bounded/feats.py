"""Feature transforms (finmlkit/feature/transforms.py) against the contracts of the kernels they wrap: argument order, parameters, columns, names, index, backends."""
import copy
import math
import numpy as np
import pandas as pd
from pyvc.decl import REGISTRY, bounded
from .util import clause_fail, same
import contracts.feat_utils, contracts.feat_ma, contracts.feat_vol, contracts.feat_trend, contracts.feat_volume, contracts.feat_break, contracts.feat_time  # noqa: F401, E401

F = "finmlkit/feature/core/"
T0 = 1_600_000_000_000_000_000
BOUND = "inputs drawn by the generator of the wrapped kernel's contract (series of 0 to about 40 values, seeded), shuffled column order, custom column names"
UNITS = ["ns", "ns", "us", "ms", "s"]


def frame(rng, cols, ts=None):
    """DataFrame with the given columns among distractors"""
    n = len(next(iter(cols.values()))) if cols else len(ts)
    d = dict(cols)
    for k in ("decoy", "open", "ret9"):
        if k not in d:
            d[k] = np.array([rng.uniform(1, 9) for _ in range(n)])
    names = list(d)
    rng.shuffle(names)
    if ts is None:
        idx = pd.to_datetime(np.arange(n, dtype=np.int64) * 60_000_000_000 + T0)
    else:
        idx = pd.to_datetime(np.asarray(ts, dtype=np.int64))
        u = rng.choice(UNITS)
        if all(int(t) % 10**9 == 0 for t in ts):
            idx = idx.as_unit(u)
    return pd.DataFrame({k: d[k] for k in names}, index=idx)


def compare(key, args, df, tr, names, backend, cols_ok=True):
    before = df.copy(deep=True)
    try:
        out = tr(df, backend=backend)
    except Exception as e:
        return f"raised {type(e).__name__}: {e}"
    if not before.equals(df) or list(before.columns) != list(df.columns):
        return "the input frame was modified"
    outs = out if isinstance(out, tuple) else (out,)
    if len(outs) != len(names):
        return f"{len(outs)} outputs instead of {len(names)}"
    for s, nm in zip(outs, names):
        if not isinstance(s, pd.Series) or not s.index.equals(df.index):
            return "output is not a series on the input's index"
        if s.name != nm:
            return f"output is named {s.name!r}, not {nm!r}"
    if list(tr.output_name if isinstance(tr.output_name, list) else [tr.output_name]) != list(names):
        return f"output_name is {tr.output_name!r}, not {names!r}"
    res = tuple(s.values for s in outs)
    f = clause_fail(key, args, res if len(res) > 1 else res[0])
    return f


def backends_agree(df, tr):
    """the pandas backend equals the compiled one wherever both are defined (for estimators whose pandas form is numerically looser)"""
    a, b = tr(df, backend="nb"), tr(df, backend="pd")
    if a.name != b.name or not a.index.equals(b.index):
        return "the backends disagree on name or index"
    x, y = a.values, b.values
    ok = np.isfinite(x) & np.isfinite(y)
    if not np.allclose(x[ok], y[ok], rtol=1e-5, atol=1e-5):
        i = int(np.argmax(ok & ~np.isclose(x, y, rtol=1e-5, atol=1e-5)))
        return f"backends disagree at {i}: {x[i]} (compiled) {y[i]} (pandas)"
    return ""


def wrap(pid, name, key, make, covers, backends=("nb", "pd"), pd_ok=lambda a: True, agree=False):
    c = REGISTRY[key]

    def run(rng, budget, tier):
        for i in range(100000):
            try:
                args = c.gen(rng, rng.choice([1, 2, 3, 5, 8, 13, 21, 34]))
            except (IndexError, ValueError, ZeroDivisionError):
                continue
            if args is None or clause_in(c, args) is False:
                continue
            tr, cols, ts, names = make(rng, *copy.deepcopy(args))
            df = frame(rng, cols, ts)
            for b in backends:
                if b == "pd" and not pd_ok(args):
                    continue
                if b == "pd" and agree:
                    f = backends_agree(df, tr)
                else:
                    f = compare(key, args, df, tr, names, b)
                if f is None:
                    continue
                yield f"{name} #{i} {b}", not f, {"transform": repr(type(tr).__name__), "args": [str(a)[:300] for a in args], "clause": f} if f else ""

    run.__name__ = name
    bounded(BOUND, covers)(run)


def clause_in(c, args):
    """do the arguments satisfy the precondition"""
    from pyvc import dsl, trace
    g = trace.spec_globals()
    dsl.reset()
    env = {a: b for (a, _), b in zip(c.params, args)}
    return all(trace.eval_expr(r, env, g) for r in c.requires) and not any(trace.eval_expr(cond, env, g) for _, cond in c.raises)


def col(rng, base):
    return rng.choice([base, "x1", "px", "a_b"])


def tdelta(sec):
    return pd.Timedelta(int(round(sec * 1e9)), unit="ns")


def tr():
    import finmlkit.feature.transforms as t
    return t


def siso(build, suffix):
    """one input column; parameters follow"""
    def make(rng, x, *p):
        c = col(rng, "close")
        return build(c, *p), {c: np.asarray(x, dtype=float)}, None, [f"{c}_{suffix(*p)}"]
    return make


def miso(build, cols, name):
    def make(rng, *a):
        xs, p = a[:len(cols)], a[len(cols):]
        if rng.random() < 0.5:
            cs = list(cols)
        else:
            cs = [f"{c}_{k}" for c, k in zip(cols, "qrs")]
        return build(cs, *p), {c: np.asarray(x, dtype=float) for c, x in zip(cs, xs)}, None, [name(*p)]
    return make


def lagret(rng, ts, close, w, is_log):
    c = col(rng, "close")
    w = tdelta(w)
    s = w.total_seconds()
    t = tr().ReturnT(w, is_log, c)
    return t, {c: close}, ts, [f"{c}_" + (f"ret{s}s" if s > 1e-6 else "ret1")]


wrap("C17", "return_t", F + "utils.py:comp_lagged_returns", lagret, "ReturnT")
wrap("C17", "zscore", F + "utils.py:comp_zscore", siso(lambda c, w, d: tr().ZScore(w, c, d), lambda w, d: f"z{w}"), "ZScore")
wrap("C17", "burst_ratio", F + "utils.py:comp_burst_ratio", siso(lambda c, w: tr().BurstRatio(w, c), lambda w: f"burst{w}"), "BurstRatio")
wrap("C17", "pct_change_t", F + "utils.py:pct_change", siso(lambda c, w: tr().PctChange(w, c), lambda w: f"pctc{w}"), "PctChange", pd_ok=lambda a: len(a[0]) > 0 and np.all(a[0] > 0) and np.all(np.isfinite(a[0])))
wrap("C18", "ewma_t", F + "ma.py:ewma", siso(lambda c, w: tr().EWMA(w, c), lambda w: f"ewma{w}"), "EWMA")
wrap("C18", "sma_t", F + "ma.py:sma", siso(lambda c, w: tr().SMA(w, c), lambda w: f"sma{w}"), "SMA")
wrap("C18", "roc_t", F + "momentum.py:roc", siso(lambda c, w: tr().ROC(w, c), lambda w: f"roc{w}"), "ROC")
wrap("C18", "rsi_t", F + "momentum.py:rsi_wilder", siso(lambda c, w: tr().RSIWilder(w, c), lambda w: f"rsiw{w}"), "RSIWilder", pd_ok=lambda a: len(a[0]) > a[1] >= 1, agree=True)
wrap("C18", "stoch_k_t", F + "momentum.py:stoch_k", miso(lambda cs, close_low_high_len: tr().StochK(close_low_high_len, [cs[2], cs[1], cs[0]]), ["close", "low", "high"], lambda w: f"stochk{w}"), "StochK")


def ewmst_t(rng, ts, y, hl, floor):
    c = col(rng, "y")
    h = tdelta(hl)
    return tr().EWMST(h, c), {c: y}, ts, [f"{c}_ewms{h.total_seconds()}s"]


def hlc(build, name):
    def make(rng, high, low, close, *p):
        cs = ["high", "low", "close"] if rng.random() < 0.5 else ["h1", "l1", "c1"]
        return build(cs, *p), dict(zip(cs, (high, low, close))), None, [name(*p)]
    return make


def clean_corr(a):
    """finite, varied windows: the pandas estimator loses all digits on constant ones"""
    p, v, w = a
    if not (np.all(np.isfinite(p)) and np.all(np.isfinite(v)) and np.all(p > 0) and w >= 3):
        return False
    if len(p) < w + 1:
        return False
    r = np.diff(p) / p[:-1]
    return all(np.std(r[i:i + w]) > 1e-3 and np.std(v[i + 1:i + 1 + w]) > 1e-2 for i in range(len(r) - w + 1)) and not any(mono(p, v, i, w) for i in range(4, min(10, len(p))))


def mono(p, v, i, w):
    """the window the known finding `correlation_special` is about"""
    a, b = np.diff(p[max(i - w + 1, 0):i + 1]), np.diff(v[max(i - w + 1, 0):i + 1])
    return bool(np.all(a > 0) and (np.all(b > 0) or np.all(b < 0)))


atrname = lambda w, e, n: f"atr{w}" + ("_ema" if e else "") + ("_norm" if n else "")
wrap("C19", "realized_vol_t", F + "volatility.py:realized_vol", siso(lambda c, w, s: tr().RealizedVolatility(w, s, c), lambda w, s: f"rv{w}"), "RealizedVolatility")
wrap("C19", "bollinger_t", F + "volatility.py:bollinger_percent_b", siso(lambda c, w, k: tr().BollingerPercentB(w, k, c), lambda w, k: f"bollb{w}"), "BollingerPercentB")
wrap("C19", "parkinson_t", F + "volatility.py:parkinson_range", miso(lambda cs: tr().ParkinsonRange(cs), ["high", "low"], lambda: "parkrange"), "ParkinsonRange")
wrap("C19", "atr_sma_t", F + "volatility.py:atr#sma", hlc(lambda cs, w, e, n: tr().ATR(w, e, n, cs), atrname), "ATR (simple mean)")
wrap("C19", "atr_ema_t", F + "volatility.py:atr#ema", hlc(lambda cs, w, e, n: tr().ATR(w, e, n, cs), atrname), "ATR (exponential mean)")
for v in ("log", "simple"):
    wrap("C19", "variance_ratio_" + v, F + "volatility.py:variance_ratio_1_4_core#" + v, siso(lambda c, w, d, r: tr().VarianceRatio14(w, c, r, d), lambda w, d, r: f"var_ratio_1_4_{w}"), "VarianceRatio14 " + v)
wrap("C20", "adx_t", F + "trend.py:adx_core", hlc(lambda cs, w: tr().ADX(w, cs), lambda w: f"adx_{w}"), "ADX")
wrap("C22", "vpin_t", F + "volume.py:vpin", miso(lambda cs, w: tr().VPIN(w, cs), ["volume_buy", "volume_sell"], lambda w: f"vpin_{w}"), "VPIN")
wrap("C22", "flow_t", F + "volume.py:comp_flow_acceleration", siso(lambda c, w, r: tr().FlowAcceleration(w, r, c), lambda w, r: f"flowacc_{w}_{r}"), "FlowAcceleration")
wrap("C22", "correlation_t", F + "correlation.py:rolling_price_volume_correlation", miso(lambda cs, w: tr().PriceVolumeCorrelation(w, cs), ["close", "volume"], lambda w: f"corr_pv_{w}"), "PriceVolumeCorrelation", pd_ok=clean_corr, agree=True)
wrap("C22", "vwap_t", F + "reversion.py:vwap_distance", miso(lambda cs, w, l: tr().VWAPDistance(w, l, cs), ["close", "volume"], lambda w, l: f"vwapd{w}"), "VWAPDistance")
CUES = ['sin_td', 'cos_td', 'sin_dw', 'cos_dw', 'asia', 'eu', 'us', 'sess_x', 'top_hr']


def cues(rng, ts):
    return tr().TimeCues("close"), {"close": np.ones(len(ts))}, ts, CUES


wrap("C24", "time_cues_t", F + "time.py:time_cues", cues, "TimeCues")


def ewmst_gen():
    import inspect
    from finmlkit.feature.core.volatility import ewmst
    d = inspect.signature(getattr(ewmst, "py_func", ewmst)).parameters["sigma_floor"].default
    return d


def ewmst_make(rng, ts, y, hl, floor):
    c = col(rng, "y")
    h = tdelta(hl)
    return tr().EWMST(h, c), {c: y}, ts, [f"{c}_ewms{h.total_seconds()}s"]


@bounded(BOUND, "EWMST (default floor)")
def ewmst_t(rng, budget, tier):
    c = REGISTRY[F + "volatility.py:ewmst"]
    floor = ewmst_gen()
    for i in range(100000):
        try:
            a = list(c.gen(rng, rng.choice([1, 2, 3, 5, 8, 13, 21])))
        except (IndexError, ValueError):
            continue
        a[3] = floor
        a[2] = tdelta(a[2]).total_seconds()
        if not clause_in(c, a):
            continue
        t, cols, ts, names = ewmst_make(rng, *copy.deepcopy(a))
        for b in ("nb", "pd"):
            f = compare(c.key, a, frame(rng, cols, ts), t, names, b)
            if f is not None:
                yield f"ewmst_t #{i} {b}", not f, {"args": [str(x)[:300] for x in a], "clause": f} if f else ""


@bounded("random positive price series of 5 to 60, some of 280 and 420 bars (seeded)", "CUSUMTest: scores, flags and ages from the rolling statistics")
def cusum_test_t(rng, budget, tier):
    from finmlkit.feature.core.structural_break.cusum import cusum_test_rolling
    for i in range(100000):
        n = rng.choice([5, 8, 13, 21, 34, 60])
        px = np.exp(np.cumsum([rng.choice([0.0, 0.01, -0.01, 0.03, 0.1 if rng.random() < 0.2 else 0.0]) for _ in range(n)])) * 10
        w, wu, ma = rng.choice([3, 5, 8, 20]), rng.choice([2, 3, 5]), rng.choice([1, 3, 144, 255])
        if rng.random() < 0.03:         # hundreds of bars without a break
            n, ma = rng.choice([280, 420]), rng.choice([144, 255, 300, 400])
            px = np.exp(rng.choice([1, -1]) * 0.01 * np.arange(n) + np.array([rng.choice([0.0, 0.001]) for _ in range(n)])) * 10
        c = col(rng, "close")
        t = tr().CUSUMTest(w, wu, ma, c)
        df = frame(rng, {c: px})
        before = df.copy()
        out = t(df, backend=rng.choice(["nb", "pd"]))
        up, dn, cu, cd = cusum_test_rolling(px.copy(), w, wu)
        want = []
        for s, k in ((up, cu), (dn, cd)):
            b = s - k
            flag = np.array([bool(x > 0) for x in b])
            age, last = [], 0
            for j in range(n):
                last = 0 if flag[j] or j == 0 else last + 1
                age.append(min(last, ma))
            want.append((np.where(np.isnan(b), np.nan, np.minimum(10, np.maximum(-10, b))), flag, age))
        names = [f"{c}_cumote_{d}{w}_{k}" for k in ("score", "flag", "age") for d in ("up", "down")]
        exp = [want[0][0], want[1][0], want[0][1], want[1][1], want[0][2], want[1][2]]
        f = ""
        if not before.equals(df):
            f = "input modified"
        for s, e, nm in zip(out, exp, names):
            if not same(s.values.astype(float), np.asarray(e, dtype=float)):
                f = f or f"{nm} differs"
        yield f"cusum_test_t #{i}", not f and len(out) == 6, {"px": px.tolist(), "window": w, "warmup": wu, "max_age": ma, "clause": f} if f else ""


@bounded("one fixed series", "rolling correlation on a monotone window at positions 4 to 9")
def correlation_special(rng, budget, tier):
    from finmlkit.feature.core.correlation import rolling_price_volume_correlation as k
    p = np.array([1.0, 2.0, 3.0, 5.0, 8.0, 9.0, 20.0, 21.0])
    v = np.array([1.0, 2.0, 4.0, 5.0, 9.0, 10.0, 11.0, 30.0])
    r = np.concatenate([[np.nan], np.diff(p) / p[:-1]])
    got = k(p, v, 4)
    want = np.array([np.nan] * 4 + [np.corrcoef(r[b - 3:b + 1], v[b - 3:b + 1])[0, 1] for b in range(4, 8)])
    yield "monotone prices and volumes, window 4, bars 4-7", same(got, want), {"got": got.tolist(), "want": want.tolist()}


# ------------------------------------------------------------------ C29: transforms without a kernel
def oracle_cases(rng):
    n = rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 70])
    gaps = [rng.choice([1, 1, 1, 2, 5, 60]) * rng.choice([1, 60, 900, 900]) for _ in range(n)]
    regular = rng.random() < 0.6
    if regular:
        start = 1_599_955_200 + 900 * rng.choice([0, 0, 88, 92, 95, 40])
        sec = start + 900 * np.arange(n)
        if rng.random() < 0.4 and n > 4:
            sec = np.delete(sec, rng.randrange(n))
    else:
        sec = 1_599_955_200 + np.cumsum(gaps)
    if rng.random() < 0.25:         # a few bars of several days, weeks, months and years
        days, sec = sorted(rng.sample([0, 1, 2, 7, 30, 31, 61, 365, 366], rng.choice([2, 3, 4]))), []
        for d in days:
            sec += [1_599_955_200 + 86400 * d + rng.choice([0, 0, 0, 900, 3600]) + rng.choice([900, 3600, 60]) * k for k in range(rng.choice([2, 4, 5, 9]))] if rng.random() < 0.5 else [1_599_955_200 + 86400 * d + 7200 * k for k in range(rng.choice([3, 5, 7]))]
        sec = np.array(sorted(set(sec)))
    n = len(sec)
    close = np.array([rng.choice([1.0, 2.0, 3.0, 4.0, 8.0, 9.5]) for _ in range(n)])
    op = np.array([rng.choice([1.0, 2.0, 3.0, 4.0, 8.0]) for _ in range(n)])
    high = np.maximum(op, close) + np.array([rng.choice([0.0, 0.5, 1.0]) for _ in range(n)])
    low = np.minimum(op, close) - np.array([rng.choice([0.0, 0.25, 0.5]) for _ in range(n)])
    vwap = (high + low) / 2
    ret = np.array([np.nan if i == 0 else rng.choice([0.0, 0.01, -0.02, 0.005, 0.03]) for i in range(n)])
    if rng.random() < 0.1:
        k = rng.choice([130, 300])
        ret, close, op, high, low, vwap = np.full(k, 0.01), np.ones(k), np.ones(k), np.ones(k), np.ones(k), np.ones(k)
        sec = 1_599_955_200 + 900 * np.arange(k)
    return np.asarray(sec, dtype=np.int64), op, high, low, close, vwap, ret


def day(s):
    return int(s) // 86400


def o_gap(sec, close):
    out = np.full(len(sec), np.nan)
    for i in range(1, len(sec)):
        if sec[i] % 86400 == 0:
            out[i] = (close[i] - close[i - 1]) / close[i - 1]
    return out


def o_orb(sec, high, low, close, up):
    out = np.zeros(len(sec), dtype=bool)
    for d in set(day(s) for s in sec):
        ix = [i for i in range(len(sec)) if day(sec[i]) == d]
        if sec[ix[0]] % 86400 // 60 != 0 or len(ix) < 4:
            continue
        hi, lo = max(high[i] for i in ix[:4]), min(low[i] for i in ix[:4])
        for i in ix[4:]:
            out[i] = close[i] > hi if up else close[i] < lo
    return out


def o_run(ret):
    out, last, run = [], 0.0, 0
    for i, r in enumerate(ret):
        s = 0 if i == 0 or not r == r else int(r > 0) - int(r < 0)
        run = run + 1 if s != 0 and s == last else (1 if s != 0 else 0)
        last = s
        out.append(run)
    return np.array(out)


def windowed(x, w, f, first=None):
    out = np.full(len(x), np.nan)
    for i in range((w - 1 if first is None else first), len(x)):
        out[i] = f(x[i - w + 1:i + 1])
    return out


def o_slope(w):
    def f(y):
        t = np.arange(w) - (w - 1) / 2
        return math.degrees(math.atan(float(np.sum(t * np.log(y)) / np.sum(t * t))))
    return f


def o_kurt(y):
    if np.isnan(y).any():
        return np.nan
    m2 = np.mean((y - y.mean()) ** 2)
    return np.nan if m2 < 1e-18 else np.mean((y - y.mean()) ** 4) / m2 ** 2 - 3


def o_hurst(y):
    if np.isnan(y).any():
        return np.nan
    c = np.cumsum(y)
    t = [math.sqrt(np.var(c[k:] - c[:-k])) for k in (1, 2, 4, 8) if k < len(c)]
    if len(t) < 4 or min(t) < 1e-12:
        return np.nan
    x, z = np.log([1, 2, 4, 8]), np.log(t)
    return float(np.sum((x - x.mean()) * (z - z.mean())) / np.sum((x - x.mean()) ** 2))


def ewm(x, span):
    a = 1 - 2 / (span + 1)
    out, num, den = [], 0.0, 0.0
    for v in x:
        num, den = num * a, den * a
        if v == v:
            num, den = num + v, den + 1
        out.append(num / den if den > 0 else np.nan)
    return np.array(out)


@bounded("random 15-minute and irregular bar series of 1 to 70 rows plus long one-sided runs of 130 and 300 (seeded)",
         "Lag, Return, CandleShape, DailyGap, ORBBreak, BarRate, BarDuration, BarDurationEWMA, DirRunLen, TrendSlope, MeanReversionZScore, KurtosisTransform, HurstExponent, BiPowerVariation")
def bar_features(rng, budget, tier):
    T = tr()
    for i in range(100000):
        sec, op, high, low, close, vwap, ret = oracle_cases(rng)
        n = len(sec)
        p, w = rng.choice([1, 2, 3, 5]), rng.choice([2, 3, 5, 8])
        wm = rng.choice([900, 1800, 3600, 90, 60])
        r = high - low + 1e-12
        lag = lambda x, k: np.concatenate([np.full(min(k, len(x)), np.nan), x[:max(0, len(x) - k)]])
        dur = np.concatenate([[np.nan], np.diff(sec).astype(float)])[:n]
        zs = lambda y: (y[-1] - y.mean()) / y.std(ddof=1) if y.std(ddof=1) > 1e-9 else "skip"
        wh = max(w, 9) + 1
        tests = [("Lag", T.Lag(p, "close"), [f"close_lag{p}"], [lag(close, p)]),
                 ("Return", T.Return(p, "close"), [f"close_ret{p}"], [close / lag(close, p) - 1]),
                 ("Return log", T.Return(p, "close", True), [f"close_ret{p}"], [np.log(close / lag(close, p))]),
                 ("CandleShape", T.CandleShape(), ['wick_up_ratio', 'wick_dn_ratio', 'body_ratio', 'vwap_drift'],
                  [(high - np.maximum(op, close)) / r, (np.minimum(op, close) - low) / r, np.abs(close - op) / r, (vwap - op) / op]),
                 ("DailyGap", T.DailyGap("close"), ["close_daily_gap"], [o_gap(sec, close)]),
                 ("ORBBreak", T.ORBBreak(), ["orb_long", "orb_short"], [o_orb(sec, high, low, close, True), o_orb(sec, high, low, close, False)]),
                 ("BarRate", T.BarRate(pd.Timedelta(seconds=wm), "close"), None, [np.array([np.sum((sec <= s) & (sec >= s - wm)) for s in sec]) / wm * 3600.0]),
                 ("BarDuration", T.BarDuration(p, "close"), [f"dur_{p}bar"], [(sec - lag(sec.astype(float), p))]),
                 ("BarDurationEWMA", T.BarDurationEWMA(w, "close"), [f"dur_ewma{w}"], [ewm(dur, w)]),
                 ("DirRunLen", T.DirRunLen("ret1"), ["ret1_dir_run_len"], [o_run(ret)]),
                 ("TrendSlope", T.TrendSlope(w, "close"), [f"close_trend_slope_{w}"], [windowed(close, w, o_slope(w))]),
                 ("MeanReversionZScore", T.MeanReversionZScore(w, "close"), [f"close_mr_z_{w}"], [windowed(close.astype(object) * 1.0, w, lambda y: (lambda q: np.nan if q == "skip" else q)(zs(y.astype(float))))]),
                 ("KurtosisTransform", T.KurtosisTransform(w, "ret1"), [f"ret1_kurt_{w}"], [windowed(ret, w, o_kurt)]),
                 ("HurstExponent", T.HurstExponent(wh, "ret1"), [f"ret1_hurst{wh}"], [windowed(ret, wh, o_hurst)]),
                 ("BiPowerVariation", T.BiPowerVariation(w, "ret1"), [f"ret1_bv_{w}"], [windowed(ret, w + 1, lambda y: math.sqrt(math.pi / 2) * np.sum(np.abs(y[1:] * y[:-1])))])]
        df = pd.DataFrame({"open": op, "high": high, "low": low, "close": close, "vwap": vwap, "ret1": ret}, index=pd.to_datetime(sec * 10**9))
        if rng.random() < 0.3:
            df.index = df.index.as_unit("s")
        if rng.random() < 0.2:
            df.index = df.index.tz_localize("UTC")
        for nm, t, names, exp in tests:
            before = df.copy()
            b = rng.choice(["nb", "pd"])
            try:
                with np.errstate(all="ignore"):
                    out = t(df, backend=b)
            except Exception as e:
                yield f"{nm} #{i}", False, {"n": n, "raised": f"{type(e).__name__}: {e}"}
                continue
            outs = out if isinstance(out, tuple) else (out,)
            f = "" if before.equals(df) else "input modified"
            for k, (s, e) in enumerate(zip(outs, exp)):
                if not s.index.equals(df.index):
                    f = f or "index differs"
                g, e = s.values.astype(float), np.asarray(e, dtype=float)
                if nm in ("MeanReversionZScore", "KurtosisTransform", "HurstExponent"):     # constant windows: 0/0 up to rounding
                    ok = ~np.isnan(e)
                    g, e = g[ok], e[ok]
                if not same(g, e, 1e-7, 1e-7):
                    f = f or f"value differs (output {k}): {g[:12]} expected {e[:12]}"
                if names and s.name != names[k]:
                    f = f or f"named {s.name}"
            if len(outs) != len(exp):
                f = "number of outputs"
            yield f"{nm} #{i}", not f, {"n": n, "p": p, "w": w, "clause": f, "sec": sec.tolist()[:40], "close": close.tolist()[:40], "ret": [str(x) for x in ret[:40]]} if f else ""
