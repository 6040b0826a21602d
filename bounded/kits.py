"""Feature arithmetic, composition, FeatureKit building and configuration round trips (finmlkit/feature/kit.py, utils.py)."""
import contextlib
import io
import json
import math
import os
import tempfile
import numpy as np
import pandas as pd
from pyvc.decl import bounded

TD = pd.Timedelta
BOUND = "random feature sets of 1 to 7 features, nesting depth up to 3 (seeded), on random bar tables of 24 to 40 rows"


def bars(rng):
    n = rng.choice([24, 32, 40])
    flat = rng.choice([0, 0, 0.15])
    close = 100 * np.exp(np.cumsum([rng.gauss(0, 0.01) if rng.random() >= flat else 0.0 for _ in range(n)]))
    op = close * np.exp([rng.gauss(0, 0.003) for _ in range(n)])
    high = np.maximum(op, close) * np.array([1 + rng.random() * 0.004 for _ in range(n)])
    low = np.minimum(op, close) * np.array([1 - rng.random() * 0.004 for _ in range(n)])
    vol = np.array([rng.uniform(1, 50) for _ in range(n)])
    buy = vol * np.array([rng.random() for _ in range(n)])
    ret = np.concatenate([[np.nan], np.diff(np.log(close))])
    sec = 1_599_955_200 + 82800 + np.cumsum([rng.choice([60, 300, 900]) for _ in range(n)])
    df = pd.DataFrame({"open": op, "high": high, "low": low, "close": close, "vwap": (high + low) / 2, "volume": vol, "volume_buy": buy, "volume_sell": vol - buy, "ret1": ret, "y": np.where(np.isnan(ret), 0.0, ret)},
                      index=pd.to_datetime(sec * 10**9))
    names = list(df.columns)
    rng.shuffle(names)
    return df[names]


def leaves(rng, T, single=False):
    """a random transform (fresh instance)"""
    c = lambda: rng.choice(["close", "open", "volume"])
    w = lambda *a: rng.choice(a or (2, 3, 5, 8))
    td = lambda: rng.choice([TD("60s"), TD("5min"), TD("1h"), TD("90s"), TD("1500ms"), TD("25h"), TD("3D")])
    one = [lambda: T.SMA(w(), c()), lambda: T.EWMA(w(), c()), lambda: T.Return(w(1, 2, 3), c(), rng.random() < .5), lambda: T.ROC(w(1, 2, 4), c()), lambda: T.ZScore(w(3, 5), c(), rng.choice([0, 1])),
           lambda: T.RSIWilder(w(14, 5), c()), lambda: T.ReturnT(td(), rng.random() < .5, c()), lambda: T.ReturnT(input_col=c()), lambda: T.EWMST(td(), "y"), lambda: T.PctChange(w(1, 2, 5), c()), lambda: T.Lag(w(1, 2, 3), c()),
           lambda: T.RealizedVolatility(w(3, 5), rng.random() < .5, "ret1"), lambda: T.BollingerPercentB(w(3, 5), rng.choice([2.0, 1.5]), c()), lambda: T.BurstRatio(w(2, 5), "volume"), lambda: T.FlowAcceleration(w(6, 8), w(2, 3), "volume"),
           lambda: T.VarianceRatio14(w(12, 16), c(), rng.choice(["log", "simple"]), rng.choice([0, 1])), lambda: T.BarRate(td(), "close"), lambda: T.BarDuration(w(1, 2), "close"), lambda: T.BarDurationEWMA(w(), "close"), lambda: T.DirRunLen("ret1"),
           lambda: T.TrendSlope(w(3, 6), "close"), lambda: T.MeanReversionZScore(w(4, 6), c()), lambda: T.KurtosisTransform(w(5, 7), "y"), lambda: T.BiPowerVariation(w(3, 4), "y"), lambda: T.HurstExponent(w(12, 16), "y"), lambda: T.Identity(c()),
           lambda: T.StochK(w(3, 5)), lambda: T.StochK(w(3, 5), ["high", "low", "vwap"]), lambda: T.VWAPDistance(w(3, 5), rng.random() < .5), lambda: T.ParkinsonRange(), lambda: T.ATR(w(3, 5), rng.random() < .5, rng.random() < .5), lambda: T.VPIN(w(3, 5)),
           lambda: T.PriceVolumeCorrelation(w(12, 14)), lambda: T.ADX(w(3, 5)), lambda: T.DailyGap("close"), lambda: T.ExternalFunction("numpy.sqrt", "volume", "root_v"), lambda: T.ExternalFunction("numpy.hypot", ["open", "close"], "hyp", pass_numpy=rng.random() < .5),
           lambda: T.ExternalFunction("numpy.round", "close", "rnd", args=[rng.choice([0, 1])])]
    many = [lambda: T.TimeCues(), lambda: T.CUSUMTest(w(8, 12), w(3, 5), rng.choice([4, 144]), "close"), lambda: T.CandleShape(), lambda: T.ORBBreak()]
    return rng.choice(one if single or rng.random() < 0.85 else many)()


def series(t, df, backend):
    return t(df, backend=backend)


CUSTOM = [False]      # may the set contain user functions (which a saved configuration cannot name)?


def tree(rng, T, K, depth, single=True):
    """(feature, evaluator(df, backend) -> Series, textual form)"""
    if depth == 0 or rng.random() < 0.25:
        if rng.random() < 0.15:
            a = rng.choice([lambda: T.SMA(rng.choice([2, 3]), "close"), lambda: T.Return(1, "open", True), lambda: T.ReturnT(TD("5min"), rng.random() < .5, "vwap")])()
            b = rng.choice([lambda: T.EWMA(rng.choice([3, 4]), a.output_name), lambda: T.Lag(2, a.output_name), lambda: T.ROC(1, a.output_name), lambda: T.EWMST(TD("10min"), "zz")])()

            def ev(df, backend):
                s = a(df, backend=backend)
                return b(pd.DataFrame({b.requires[0]: s.values}, index=df.index), backend=backend)
            return K.Feature(K.Compose(a, b)), ev, f"Compose({a.output_name}, {b.output_name})"
        t = leaves(rng, T, single=single)
        return K.Feature(t), (lambda df, backend: t(df, backend=backend)), f"{type(t).__name__}{ {k: str(v) for k, v in vars(t).items() if k not in ('_callable', 'antropy')} }"
    f, ev, nm = tree(rng, T, K, depth - 1)
    g = lambda fn: (lambda df, b: fn(ev(df, b)))
    r = rng.random()
    if r < 0.4:
        h, ev2, nm2 = tree(rng, T, K, depth - 1)
        op = rng.choice(["add", "sub", "mul", "div", "min", "max"])
        fn = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y, "min": lambda x, y: np.minimum(x, y), "max": lambda x, y: np.maximum(x, y)}[op]
        new = {"add": lambda: f + h, "sub": lambda: f - h, "mul": lambda: f * h, "div": lambda: f / h, "min": lambda: K.Feature.min(f, h), "max": lambda: K.Feature.max(f, h)}[op]()
        return new, (lambda df, b: fn(ev(df, b), ev2(df, b))), f"{op}({nm}, {nm2})"
    if r < 0.65:
        c = rng.choice([2, 0.5, -1, 3.25, 0])
        op = rng.choice(["add", "sub", "mul", "div", "radd", "rsub", "rmul", "rdiv", "min", "max", "minr"])
        c = 2 if op == "div" and c == 0 else c
        new, fn = {"add": (lambda: f + c, lambda x: x + c), "sub": (lambda: f - c, lambda x: x - c), "mul": (lambda: f * c, lambda x: x * c), "div": (lambda: f / c, lambda x: x / c), "radd": (lambda: c + f, lambda x: c + x),
                   "rsub": (lambda: c - f, lambda x: c - x), "rmul": (lambda: c * f, lambda x: c * x), "rdiv": (lambda: c / f, lambda x: c / x), "min": (lambda: K.Feature.min(f, c), lambda x: np.minimum(x, c)),
                   "max": (lambda: K.Feature.max(f, c), lambda x: np.maximum(x, c)), "minr": (lambda: K.Feature.min(c, f), lambda x: np.minimum(x, c))}[op]
        return new(), g(fn), f"{op}({nm}, {c})"
    w = rng.choice([2, 3, 5])
    lo, hi = rng.choice([(None, 1.5), (-0.5, None), (-0.25, 0.75), (0, 10)])
    adj = rng.random() < 0.5
    pos = lambda x, fn: pd.Series([fn(v) for v in x.values.astype(float)], index=x.index)
    nn = lambda ok, fn: (lambda v: fn(v) if ok(v) else np.nan)
    if CUSTOM[0] and rng.random() < 0.15:
        p = rng.choice([2, 3])
        sfx = rng.choice([None, f"p{p}"])
        return f.apply(np.power, p, suffix=sfx), g(lambda x: np.power(x, p)), f"apply power {p}({nm})"
    if CUSTOM[0] and rng.random() < 0.1:
        return f.apply(pd.Series.clip, lower=lo, upper=hi, suffix="cl"), g(lambda x: x.clip(lo, hi)), f"apply clip {lo} {hi}({nm})"
    new, fn, t = rng.choice([
        (lambda: f.abs(), lambda x: x.abs(), "abs"), (lambda: abs(f), lambda x: x.abs(), "abs"), (lambda: f.log(), lambda x: pos(x, nn(lambda v: v > 0, math.log)), "log"), (lambda: f.log1p(), lambda x: pos(x, nn(lambda v: v >= 0, math.log1p)), "log1p"),
        (lambda: f.square(), lambda x: x * x, "square"), (lambda: f.sqrt(), lambda x: pos(x, nn(lambda v: v >= 0, math.sqrt)), "sqrt"), (lambda: f.rolling_mean(w), lambda x: x.rolling(w).mean(), f"rmean{w}"), (lambda: f.rolling_sum(w), lambda x: x.rolling(w).sum(), f"rsum{w}"),
        (lambda: f.rolling_std(w), lambda x: x.rolling(w).std(), f"rstd{w}"), (lambda: f.lag(w), lambda x: x.shift(w), f"lag{w}"), (lambda: f.ema(w, adj), lambda x: x.ewm(span=w, adjust=adj).mean(), f"ema{w} {adj}"),
        (lambda: f.clip(lo, hi), lambda x: x.clip(lo, hi), f"clip {lo} {hi}"), (lambda: f.exp(), lambda x: np.exp(x), "exp")])
    return new(), g(fn), f"{t}({nm})"


def cols_of(f):
    n = f.transform.output_name
    return [n] if isinstance(n, str) else list(n)


def parts(t):
    """leaf transforms of a feature expression"""
    sub = [getattr(t, a) for a in ("left", "right", "transform") if hasattr(t, a)] + list(getattr(t, "transforms", []))
    return [x for u in sub for x in parts(u)] if sub else [t]


def consistent(seen, t):
    """no two different leaves share an output name (the documented cache is keyed by it; see the name_collision case)"""
    new = {}
    for u in parts(t):
        key = (type(u).__name__, str({k: v for k, v in vars(u).items() if k not in ("_callable", "antropy")}))
        for c in [u.output_name] if isinstance(u.output_name, str) else u.output_name:
            if (seen.get(c) or new.get(c) or key) != key:
                return False
            new[c] = key
    seen.update(new)
    return True


def feature_set(rng, T, K):
    """features with distinct output names; later ones may consume the output column of an earlier one"""
    feats, used, seen = [], set(), {}
    for _ in range(rng.choice([1, 2, 3, 4, 5, 7])):
        if feats and rng.random() < 0.3:
            src = rng.choice(feats)
            cs = cols_of(src[0])
            col = rng.choice(cs)
            t = rng.choice([lambda: T.Lag(2, col), lambda: T.Return(1, col), lambda: T.SMA(2, col)])()
            f = K.Feature(t)
            k = cs.index(col)

            def ev(df, b, t=t, src=src, k=k, col=col):
                s = src[1](df, b)
                s = s[k] if isinstance(s, tuple) else s
                return t(pd.DataFrame({col: s.values}, index=df.index), backend=b)
            e = (f, ev, f"{type(t).__name__} of {col}")
            if len(feats) > 1 and rng.random() < 0.4:       # two earlier columns
                src2 = rng.choice(feats)
                cs2 = cols_of(src2[0])
                col2 = rng.choice(cs2)
                k2 = cs2.index(col2)
                if col2 != col:
                    t = rng.choice([lambda: T.VPIN(2, [col, col2]), lambda: T.ExternalFunction("numpy.subtract", [col, col2], f"dif({col},{col2})"), lambda: T.ParkinsonRange([col, col2])])()
                    pick = lambda s, k: s[k] if isinstance(s, tuple) else s

                    def ev(df, b, t=t, src=src, src2=src2, k=k, k2=k2, col=col, col2=col2):
                        return t(pd.DataFrame({col: pick(src[1](df, b), k).values, col2: pick(src2[1](df, b), k2).values}, index=df.index), backend=b)
                    e = (K.Feature(t), ev, f"{type(t).__name__} of {col} and {col2}")
        else:
            e = tree(rng, T, K, rng.choice([0, 1, 1, 2, 3]), single=False)
        f = e[0]
        mine = cols_of(f) + ([f.name] if isinstance(f.name, str) else list(f.name))
        if any(c in used for c in mine) or any(c in BASE for c in mine if type(f.transform).__name__ != "Identity"):
            continue
        if not consistent(seen, f.transform):
            continue
        used.update(mine)
        if rng.random() < 0.25:
            f.name = f"feat_{len(feats)}" if isinstance(f.name, str) else [f"feat_{len(feats)}_{j}" for j in range(len(f.name))]
        feats.append(e)
    return feats


BASE = ["open", "high", "low", "close", "vwap", "volume", "volume_buy", "volume_sell", "ret1", "y"]
RT = dict(rtol=1e-9, atol=1e-9)


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, equal_nan=True, **RT))


def names_of(f):
    return [f.name] if isinstance(f.name, str) else list(f.name)


def expected(feats, df, b):
    out = {}
    for f, ev, nm in feats:
        with np.errstate(all="ignore"):
            r = ev(df.copy(), b)
        for n, s in zip(names_of(f), r if isinstance(r, tuple) else (r,)):
            out[n] = s
    return out


def diff(out, want, df, retain):
    if sorted(out.columns) != sorted(set(list(want) + retain)):
        return f"columns {sorted(out.columns)} instead of {sorted(set(list(want) + retain))}"
    if not out.index.equals(df.index):
        return "index differs"
    for n, s in want.items():
        if not eq(out[n], s):
            return f"column {n} differs: {np.asarray(out[n], dtype=float)[:10]} expected {np.asarray(s, dtype=float)[:10]}"
    for n in retain:
        if n not in want and not eq(out[n], df[n]):
            return f"retained column {n} differs"
    return ""


@bounded(BOUND, "FeatureKit.build: values, columns, build order (defined, permuted, topological), caching, backends, input untouched; Feature arithmetic; Compose")
def build(rng, budget, tier):
    import finmlkit.feature.kit as K
    import finmlkit.feature.transforms as T
    for i in range(10**6):
        df = bars(rng)
        CUSTOM[0] = True
        try:
            feats = feature_set(rng, T, K)
        finally:
            CUSTOM[0] = False
        if not feats:
            continue
        b = rng.choice(["nb", "pd"])
        retain = rng.sample(["close", "volume", "y"], rng.choice([0, 1, 2]))
        try:
            want = expected(feats, df, b)
        except Exception:       # some part is undefined on this table even on its own (integer column, window of constants, ...)
            continue
        before, labels = df.copy(deep=True), [df[c].name for c in df.columns]
        kit = K.FeatureKit([f for f, _, _ in feats], retain=retain)
        res = []
        with np.errstate(all="ignore"):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    res.append(("defined", kit.build(df, backend=b, timeit=rng.random() < 0.2)))
                res.append(("topo", kit.build(df, backend=b, order="topo")))
                sh = list(feats)
                rng.shuffle(sh)
                res.append(("shuffled topo", K.FeatureKit([f for f, _, _ in sh], retain=retain).build(df, backend=b, order="topo")))
                # cached inputs: the same columns precomputed by another kit
                pre = df.copy()
                f0 = feats[0][0]
                r0 = f0.transform(df, backend=b)
                for n, s in zip(cols_of(f0), r0 if isinstance(r0, tuple) else (r0,)):
                    pre[n] = s
                res.append(("first feature precomputed", K.FeatureKit([f for f, _, _ in feats], retain=retain).build(pre, backend=b)))
                f = ""
            except Exception as e:
                f = f"raised {type(e).__name__}: {e}"
        for nm, out in res:
            f = f or (lambda d: d and f"{nm}: {d}")(diff(out, want, df, retain))
        if not f:
            gr = kit.build_graph()
            o = gr.topological_sort()
            pos = {x: j for j, x in enumerate(o)}
            if len(o) != len(pos) or set(o) != gr.nodes:
                f = f"topological order {o} does not hold every node once"
            elif any(pos[x] >= pos[y] for x, ys in gr.edges.items() for y in ys):
                f = f"topological order {o} puts a node before one it needs"
            elif sorted(kit.topological_order()) != sorted(str(x[0].name) for x in feats):
                f = "the build order does not hold every feature once"
        if not f and (not before.equals(df) or [df[c].name for c in df.columns] != labels or list(df.columns) != list(before.columns)):
            f = "the input frame was modified"
        yield f"build #{i}", not f, {"features": [x[2][:300] for x in feats], "backend": b, "clause": f} if f else ""


@bounded("one fixed feature set", "two features with the same transform output name but different parameters")
def name_collision(rng, budget, tier):
    import finmlkit.feature.kit as K
    import finmlkit.feature.transforms as T
    df = bars(rng)
    a, b = K.Feature(T.Return(1, "close")), K.Feature(T.Return(1, "close", is_log=True))
    b.name = "log_ret"
    out = K.FeatureKit([a, b]).build(df)
    yield "Return(1) and renamed Return(1, is_log=True)", eq(out["log_ret"], np.log(df["close"] / df["close"].shift(1))), "the second feature gets the first one's cached column"


@bounded(BOUND, "FeatureKit.save_config / from_config, Feature.to_config: names, parameters, dependencies and values after a round trip through a JSON file")
def roundtrip(rng, budget, tier):
    import finmlkit.feature.kit as K
    import finmlkit.feature.transforms as T
    tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    for i in range(10**6):
        df = bars(rng)
        feats = feature_set(rng, T, K)
        if not feats:
            continue
        if rng.random() < 0.15:
            w = np.int64(rng.choice([2, 3]))
            t = T.SMA(w, "vwap")
            feats.append((K.Feature(t), lambda d, b, t=t: t(d, backend=b), "SMA(np.int64)"))
        b = rng.choice(["nb", "pd"])
        retain = rng.sample(["close", "volume", "y"], rng.choice([0, 1, 2]))
        try:
            want = expected(feats, df, b)
        except Exception:       # some part is undefined on this table even on its own (integer column, window of constants, ...)
            continue
        kit = K.FeatureKit([f for f, _, _ in feats], retain=retain)
        p = os.path.join(tmp, "k.json")
        f = ""
        try:
            kit.save_config(p)
            kit2 = K.FeatureKit.from_config(p)
            if [g.name for g in kit2.features] != [g.name for g in kit.features]:
                f = "feature names changed"
            if list(kit2.retain) != retain:
                f = f or "retained columns changed"
            if [g.transform.output_name for g in kit2.features] != [g.transform.output_name for g in kit.features]:
                f = f or f"output names changed: {[g.transform.output_name for g in kit2.features]}"
            if [sorted(g.transform.requires) for g in kit2.features] != [sorted(g.transform.requires) for g in kit.features]:
                f = f or "required columns changed"
            with np.errstate(all="ignore"):
                f = f or diff(kit2.build(df, backend=b), want, df, retain)
            p2 = os.path.join(tmp, "k2.json")
            kit2.save_config(p2)
            norm = lambda q: json.dumps(json.load(open(q)), sort_keys=True)
            kit3 = K.FeatureKit.from_config(p2)
            with np.errstate(all="ignore"):
                f = f or (lambda d: d and "second round trip: " + d)(diff(kit3.build(df, backend=b), want, df, retain))
        except Exception as e:
            f = f"raised {type(e).__name__}: {e}"
        yield f"roundtrip #{i}", not f, {"features": [x[2][:300] for x in feats], "backend": b, "clause": f} if f else ""
