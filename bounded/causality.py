"""C25 on the running code: computing on a prefix gives the prefix of the result (kernels, transforms, event filters)."""
import copy
import importlib
import warnings
import numpy as np
import pandas as pd
from pyvc.decl import REGISTRY, bounded
from pyvc.concrete import load_function
from contracts import bar_utils  # noqa: F401
from contracts.causal import CAUSAL
from .feats import clause_in, oracle_cases, tr
from .util import same

MINLEN = {"finmlkit/feature/core/structural_break/cusum.py:cusum_test_rolling": lambda a: a[2] + 2,
          **{f"finmlkit/feature/core/volatility.py:variance_ratio_1_4_core#{k}": (lambda a: a[1] + 4) for k in ("log", "simple")}}
EVENTS = "finmlkit/sampling/filters.py:cusum_filter"
KEYS = list(CAUSAL) + ["finmlkit/feature/core/structural_break/cusum.py:cusum_test_rolling", "finmlkit/bar/utils.py:comp_trade_side_vector"]
KEYS = [k for k in dict.fromkeys(KEYS)]


def first(r, k, events):
    """what a result says about the positions up to k"""
    if events:
        return [np.asarray(r)[np.asarray(r) <= k]]
    return [np.asarray(x)[:k + 1] for x in (r if isinstance(r, tuple) else (r,))]


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if not same(x, y):
            j = next((j for j in range(min(len(x), len(y))) if not same(x[j:j + 1], y[j:j + 1])), -1)
            return f"output {i}, position {j}: {x[j] if j >= 0 else len(x)} from the longer series, {y[j] if j >= 0 else len(y)} from the prefix"
    return ""


@bounded("inputs of up to about 40 values drawn by each contract's generator, cut at random positions (seeded)", "every kernel under contract, rolling CUSUM statistics, cusum_filter, trade side")
def kernel_prefix(rng, budget, tier):
    for i in range(10**6):
        key = KEYS[i % len(KEYS)]
        c = REGISTRY[key]
        try:
            args = list(c.gen(rng, rng.choice([3, 5, 8, 13, 21, 34, 60])))
        except (IndexError, ValueError, ZeroDivisionError):
            continue
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if args is None or not clause_in(c, args):
                continue
            ns = [len(a) for a, (_, t) in zip(args, c.params) if t.startswith("A_")]
            n = max(ns)
            lo = MINLEN.get(key, lambda a: 2)(args)
            if n <= lo:
                continue
            k = rng.randrange(lo, n) - 1 if rng.random() < 0.7 else n - 2
            k = max(k, lo - 1)
            cut = [a[:k + 1].copy() if t.startswith("A_") and len(a) == n else copy.deepcopy(a) for a, (_, t) in zip(args, c.params)]
            if not clause_in(c, cut):
                continue
            fn = load_function(c)
            d = ""
            try:
                full = fn(*copy.deepcopy(args))
                pre = fn(*cut)
                d = diff(first(full, k, key == EVENTS), first(pre, k, key == EVENTS))
            except Exception as e:
                d = f"raised {type(e).__name__}: {e}"
        yield f"{key} #{i}", not d, {"args": [np.asarray(a).tolist() if isinstance(a, np.ndarray) else str(a) for a in args], "cut after": k, "clause": d} if d else ""


def transforms(rng):
    T = tr()
    w, p, l = rng.choice([2, 3, 5, 8]), rng.choice([1, 2, 3]), rng.choice([10, 12])
    td = pd.Timedelta(seconds=rng.choice([900, 1800, 3600, 90]))
    return [T.Identity("close"), T.Lag(p, "close"), T.ReturnT(td, rng.random() < 0.5, "close"), T.Return(p, "close", rng.random() < 0.5), T.ROC(p, "close"), T.PctChange(p, "close"),
            T.RSIWilder(w, "close"), T.StochK(w), T.EWMST(td, "ret1"), T.ZScore(w, "close"), T.BurstRatio(w, "volume"), T.VWAPDistance(w), T.TimeCues("close"),
            T.RealizedVolatility(w, rng.random() < 0.5, "ret1"), T.BollingerPercentB(w, 2.0, "close"), T.ParkinsonRange(), T.SMA(w, "close"), T.EWMA(w, "close"), T.FlowAcceleration(w, 1, "volume"),
            T.CUSUMTest(w + 3, 3, 10, "close"), T.ATR(w, rng.random() < 0.5, rng.random() < 0.5), T.PriceVolumeCorrelation(w), T.VPIN(w), T.VarianceRatio14(w, "close", rng.choice(["log", "simple"])),
            T.KurtosisTransform(w, "ret1"), T.TrendSlope(w, "close"), T.ADX(w), T.MeanReversionZScore(w, "close"), T.DailyGap("close"), T.ORBBreak(), T.BarRate(td, "close"), T.CandleShape(),
            T.HurstExponent(l, "ret1"), T.BarDurationEWMA(w, "close"), T.BarDuration(p, "close"), T.BiPowerVariation(w, "ret1"),
            T.ExternalFunction(lambda x: np.cumsum(x), ["close"], "cum", pass_numpy=True)]


@bounded("random 15-minute and irregular bar series of 12 to 80 rows, cut at random positions (seeded)", "every transform of feature/transforms.py (but ApproximateEntropy: its package is not installed), both backends")
def transform_prefix(rng, budget, tier):
    for i in range(10**6):
        sec, op, high, low, close, vwap, ret = oracle_cases(rng)
        n = len(sec)
        if n < 18:
            continue
        n = min(n, 80)
        vol = np.array([rng.choice([1.0, 2.0, 4.0, 0.5, 8.0]) for _ in range(n)])
        buy = vol * np.array([rng.choice([0.0, 0.25, 0.5, 1.0]) for _ in range(n)])
        df = pd.DataFrame({"open": op[:n], "high": high[:n], "low": np.maximum(low[:n], 0.25), "close": close[:n], "vwap": vwap[:n], "ret1": ret[:n], "ret": ret[:n], "volume": vol, "volume_buy": buy, "volume_sell": vol - buy},
                          index=pd.to_datetime(sec[:n] * 10**9))
        k = rng.randrange(13, n - 1)
        for t in transforms(rng):
            b = rng.choice(["nb", "pd"])
            d = ""
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    full, pre = t(df.copy(), backend=b), t(df.iloc[:k + 1].copy(), backend=b)
                except Exception as e:
                    yield f"{type(t).__name__} #{i} {b}", False, {"raised": f"{type(e).__name__}: {e}"}
                    continue
            f, g = (x if isinstance(x, tuple) else (x,) for x in (full, pre))
            d = diff([np.asarray(x.values[:k + 1], dtype=float) for x in f], [np.asarray(x.values, dtype=float) for x in g])
            yield f"{type(t).__name__} #{i} {b}", not d, {"params": str(vars(t))[:300], "cut after": k, "clause": d, "rows": df.head(k + 3).to_csv()[:3000]} if d else ""
