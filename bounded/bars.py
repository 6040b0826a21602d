"""Bar builders (finmlkit/bar/kit.py, BarBuilderBase) against the contracts of the kernels they call and an independent row-wise oracle."""
import numpy as np
import pandas as pd
from pyvc.decl import bounded
from .util import clause_fail, same, trades, trades_data
import contracts.bar_logic  # noqa: F401
import contracts.bar_ohlcv  # noqa: F401

L = "finmlkit/bar/logic.py:"
BOUND = "random trade tables of 2 to 60 rows (seeded), every builder option drawn from a small set"


def kits(rng, ts, px, am):
    """(name, kit factory, contract key, args)"""
    from finmlkit.bar import kit as K
    n = len(ts)
    sig = np.array([np.nan if rng.random() < 0.15 else rng.choice([0.001, 0.005, 0.01, 0.0]) for _ in range(n)])
    per = rng.choice([1, 2, 5, 60])
    half = rng.choice(["500ms", "250ms", "1s", "2s", "60s", "1500ms", "90min", "1D", "36h", "7D"])
    sec = pd.Timedelta(half).total_seconds()
    tk, vo, do = rng.choice([1, 2, 3, 7]), rng.choice([0.5, 2.0, 8.0, 30.0]), rng.choice([50.0, 200.0, 1000.0])
    fl, mu = rng.choice([5e-4, 0.004]), rng.choice([0.5, 1.0, 2.0])
    return [("time", lambda t: K.TimeBarKit(t, pd.Timedelta(half)), L + "_time_bar_indexer", (ts, sec)),
            ("tick", lambda t: K.TickBarKit(t, tk), L + "_tick_bar_indexer", (ts, tk)),
            ("volume", lambda t: K.VolumeBarKit(t, vo), L + "_volume_bar_indexer", (am, vo)),
            ("dollar", lambda t: K.DollarBarKit(t, do), L + "_dollar_bar_indexer", (px, am, do)),
            ("cusum", lambda t: K.CUSUMBarKit(t, sig, fl, mu), L + "_cusum_bar_indexer", (ts, px, sig.copy(), fl, mu))]


def cases(rng, only=None, big=60):
    while True:
        n = rng.choice([2, 3, 5, 8, 13, 21, 34, rng.randint(2, big)])
        ts, px, am, side = trades(rng, n)
        for nm, mk, key, args in kits(rng, ts, px, am):
            if only is None or nm in only:
                td = trades_data(ts, px, am, side)
                yield nm, mk(td), key, args, (ts, px, am, side), td


def index_check(nm, k, key, args, ts):
    ci = np.asarray(k.bar_close_indices)
    ct = np.asarray(k.bar_close_timestamps)
    full_t, full_i = np.asarray(k._close_ts), np.asarray(k._close_indices)
    res = (full_t, full_i) if nm == "time" else full_i
    f = clause_fail(key, args, res, {"sigma": k._sigma} if nm == "cusum" else None)
    if nm == "cusum" and len(ci) and not same(k.get_sigma(), pd.Series(args[2]).ffill().values[ci]):
        return "get_sigma is not the volatility in force at the closing trades"
    if f:
        return f"bar boundaries: {f}"
    if not same(ci, full_i[1:]) or not same(ct, full_t[1:]):
        return "bar_close_indices / bar_close_timestamps are not the closes of the bars"
    if nm != "time" and not same(ct, ts[ci]):
        return "close timestamps are not those of the closing trades"
    return None


def idx_bounded(name, only):
    def run(rng, budget, tier):
        i = 0
        for nm, k, key, args, (ts, px, am, side), td in cases(rng, only):
            i += 1
            d = index_check(nm, k, key, args, ts)
            if d is None and not len(k.bar_close_indices):
                yield f"{nm}-{i}", True, "no bar"
                continue
            if d is None:
                o = k.build_ohlcv()
                if not np.array_equal(o.index.values.astype("datetime64[ns]").astype(np.int64), np.asarray(k.bar_close_timestamps)):
                    d = "index of build_ohlcv is not the bar close times"
            yield f"{nm}-{i}", d is None, d and {"what": d, "kit": nm, "ts": ts.tolist(), "price": px.tolist(), "amount": am.tolist(), "args": [a.tolist() if hasattr(a, "tolist") else a for a in args]}
    run.__name__ = name
    return bounded(BOUND, "kit constructors, _comp_bar_close, bar_close_indices, bar_close_timestamps")(run)


idx_bounded("time_bar_builder", ["time"])
idx_bounded("threshold_bar_builders", ["tick", "volume", "dollar"])
idx_bounded("cusum_bar_builder", ["cusum"])


def slices(ci, open_marker):
    lo = [open_marker] + list(ci[:-1])
    return [(a + 1, b + 1) for a, b in zip(lo, ci)]


def seg(k):
    full = np.asarray(k._close_indices)
    return [(full[j] + 1, full[j + 1] + 1) for j in range(len(full) - 1)]


OH = ["open", "high", "low", "close", "volume", "vwap", "trades", "median_trade_size"]


@bounded(BOUND, "BarBuilderBase.build_ohlcv over every kit")
def ohlcv_builder(rng, budget, tier):
    i = 0
    for nm, k, key, args, (ts, px, am, side), td in cases(rng):
        i += 1
        if len(k.bar_close_indices) == 0:
            continue
        o = k.build_ohlcv()
        d = None
        if list(o.columns) != ["open", "high", "low", "close", "volume", "trades", "median_trade_size", "vwap"]:
            d = f"columns {list(o.columns)}"
        else:
            f = clause_fail("finmlkit/bar/base.py:comp_bar_ohlcv", (px, am, np.asarray(k._close_indices)), tuple(o[c].values for c in OH))
            d = f or None
        if d is None:
            for j, (a, b) in enumerate(seg(k)):
                r = o.iloc[j]
                if b > a:
                    p, q = px[a:b], am[a:b]
                    w = [p[0], p.max(), p.min(), p[-1], q.sum(), (p * q).sum() / q.sum(), b - a, np.median(q)]
                    if not same(np.array([r[c] for c in OH], dtype=float), np.array(w), rtol=1e-6):
                        d = f"bar {j}: {[float(r[c]) for c in OH]} instead of {w}"
                        break
        yield f"ohlcv-{nm}-{i}", d is None, d and {"what": d, "ts": ts.tolist(), "price": px.tolist(), "amount": am.tolist(), "close_indices": np.asarray(k._close_indices).tolist()}


DC = ["ticks_buy", "ticks_sell", "volume_buy", "volume_sell", "dollars_buy", "dollars_sell", "mean_spread", "max_spread", "cum_ticks_min", "cum_ticks_max",
      "cum_volume_min", "cum_volume_max", "cum_dollars_min", "cum_dollars_max"]


@bounded(BOUND, "BarBuilderBase.build_directional_features over every kit")
def directional_builder(rng, budget, tier):
    i = 0
    for nm, k, key, args, (ts, px, am, side), td in cases(rng):
        i += 1
        if len(k.bar_close_indices) == 0:
            continue
        o = k.build_directional_features()
        d = None
        if list(o.columns) != DC:
            d = f"columns {list(o.columns)}"
        elif not np.array_equal(o.index.values.astype("datetime64[ns]").astype(np.int64), np.asarray(k.bar_close_timestamps)):
            d = "index is not the bar close times"
        else:
            f = clause_fail("finmlkit/bar/base.py:comp_bar_directional_features", (px, am, np.asarray(k._close_indices), side), tuple(o[c].values for c in DC))
            d = f or None
        if d is None:
            for j, (a, b) in enumerate(seg(k)):
                r, p, q, s = o.iloc[j], px[a:b], am[a:b], side[a:b].astype(float)
                if b <= a:
                    w = [0.0] * 14
                    if not same(np.array([r[c] for c in DC], dtype=float), np.array(w)):
                        d = f"empty bar {j} reports {[float(r[c]) for c in DC]}"
                        break
                    continue
                cs = [np.cumsum(s), np.cumsum(s * q), np.cumsum(s * q * p)]
                w = [(s > 0).sum(), (s < 0).sum(), q[s > 0].sum(), q[s < 0].sum(), (p * q)[s > 0].sum(), (p * q)[s < 0].sum()] + [x for c in cs for x in (c.min(), c.max())]
                g = np.array([r[c] for c in DC[:6] + DC[8:]], dtype=float)
                if not same(g, np.array(w, dtype=float), rtol=1e-6):
                    d = f"bar {j}: {g.tolist()} instead of {[float(x) for x in w]}"
                    break
        yield f"dir-{nm}-{i}", d is None, d and {"what": d, "ts": ts.tolist(), "price": px.tolist(), "amount": am.tolist(), "side": side.tolist(), "close_indices": np.asarray(k._close_indices).tolist()}


@bounded(BOUND, "BarBuilderBase.build_trade_size_features over every kit")
def trade_size_builder(rng, budget, tier):
    i = 0
    C = ["mean_size_rel", "size_95_rel", "pct_block", "size_gini"]
    for nm, k, key, args, (ts, px, am, side), td in cases(rng):
        i += 1
        m = len(k.bar_close_indices)
        if m == 0:
            continue
        theta = np.array([rng.choice([0.0, 0.5, 1.0, 2.0]) for _ in range(m)])
        mult = rng.choice([5.0, 1.0, 2.0])
        o = k.build_trade_size_features(theta, mult) if mult != 5.0 else k.build_trade_size_features(theta)
        d = None
        if list(o.columns) != C:
            d = f"columns {list(o.columns)}"
        elif not np.array_equal(o.index.values.astype("datetime64[ns]").astype(np.int64), np.asarray(k.bar_close_timestamps)):
            d = "index is not the bar close times"
        if d is None:
            for j, (a, b) in enumerate(seg(k)):
                q, t = am[a:b], theta[j] * mult
                r = np.array([o.iloc[j][c] for c in C], dtype=float)
                if b <= a or theta[j] == 0:
                    if not np.isnan(r).all():
                        d = f"bar {j} without trades or reference size reports {r.tolist()}"
                        break
                    continue
                w = np.array([np.log1p(q.mean() / t), np.log1p(np.percentile(q, 95) / t), q[q > t].sum() / q.sum(), 1 - ((q / q.sum()) ** 2).sum()])
                if not same(r, w, rtol=1e-5, atol=1e-6):
                    d = f"bar {j}: {r.tolist()} instead of {w.tolist()}"
                    break
        yield f"size-{nm}-{i}", d is None, d and {"what": d, "ts": ts.tolist(), "amount": am.tolist(), "theta": theta.tolist(), "mult": mult, "close_indices": np.asarray(k._close_indices).tolist()}


import contracts.bar_footprint  # noqa: E402,F401

FP = ["price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances", "buy_imbalances_sum", "sell_imbalances_sum",
      "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"]
LST = FP[:7]


def fp_oracle(px, am, side, a, b, lo, hi, tick, f):
    """footprint of the trades a..b-1, level by level"""
    lv = list(range(int(round(lo / tick)), int(round(hi / tick)) + 1))
    at = lambda j: int(round(px[j] / tick))
    cell = lambda L, s: [am[j] for j in range(a, b) if at(j) == L and side[j] == s]
    bv, sv = [sum(cell(L, 1)) for L in lv], [sum(cell(L, -1)) for L in lv]
    bt, st = [len(cell(L, 1)) for L in lv], [len(cell(L, -1)) for L in lv]
    n = len(lv)
    bi = [i > 0 and bv[i] > sv[i - 1] * f for i in range(n)]
    si = [i < n - 1 and sv[i] > bv[i + 1] * f for i in range(n)]
    sg = [1 if x else -1 if y else 0 for x, y in zip(bi, si)]
    best = 0
    for i in range(n):
        for j in range(i, n):
            if sg[i] and all(x == sg[i] for x in sg[i:j + 1]) and j - i + 1 > abs(best):
                best = sg[i] * (j - i + 1)
    # of several longest runs the lowest counts
    for i in range(n):
        if best and sg[i] and i + abs(best) <= n and all(x == sg[i] for x in sg[i:i + abs(best)]):
            best = sg[i] * abs(best)
            break
    tv = np.array(bv) + np.array(sv)
    V = tv.sum()
    gini = 1 - ((tv / V) ** 2).sum() if V > 0 else 0.0
    return [lv, bv, sv, bt, st, bi, si, sum(bi), sum(si), lv[int(np.argmax(tv))], best, 0.0, gini]


@bounded(BOUND + "; tick sizes 0.25, 0.5, 1 or inferred, imbalance factors 0.5 to 3", "BarBuilderBase.build_footprints over every kit, FootprintData views of it")
def footprint_builder(rng, budget, tier):
    i = 0
    for nm, k, key, args, (ts, px, am, side), td in cases(rng, big=40):
        i += 1
        if len(k.bar_close_indices) == 0:
            continue
        tick = rng.choice([0.25, 0.5, 1.0, None])
        if tick is None and len(np.unique(px)) < 2:
            continue
        f = rng.choice([3.0, 1.0, 1.5, 0.5])
        if rng.random() < 0.5:
            k.build_ohlcv()
        fp = k.build_footprints(tick, f) if f != 3.0 else k.build_footprints(tick)
        t = fp.price_tick
        d = None
        if tick is not None and t != tick:
            d = f"price_tick {t}"
        if not np.array_equal(np.asarray(fp.bar_timestamps), np.asarray(k.bar_close_timestamps)):
            d = "bar_timestamps are not the bar close times"
        if tick is None:
            q = np.diff(np.unique(px)) / t if t else np.array([0.5])
            if not same(q, np.round(q)):
                d = f"inferred tick {t} does not divide the price differences"
        res = tuple(getattr(fp, a) for a in FP)
        if d is None:
            for kk in ("", "#features"):
                c = clause_fail("finmlkit/bar/base.py:comp_bar_footprints" + kk, (px, am, np.asarray(k._close_indices), side, t, np.asarray(k._lows), np.asarray(k._highs), f), res)
                d = d or c or None
        if d is None:
            v = fp
            view = rng.choice(["as is", "numpy", "numpy and back", "slice"])
            off = 0
            if view.startswith("numpy"):
                fp.cast_to_numpy()
                if view.endswith("back"):
                    fp.cast_to_numba_list()
            if view == "slice":
                off = rng.randint(0, len(fp))
                v = fp[off:]
            if len(v) != len(fp) - off or not v.is_valid():
                d = f"{view}: {len(v)} bars"
            df = v.get_df() if d is None and len(v) else None
            rows = 0
            for j, (a, b) in enumerate(seg(k)):
                if d or j < off:
                    continue
                lo, hi = (px[a:b].min(), px[a:b].max()) if b > a else (k._lows[j], k._highs[j])
                w = fp_oracle(px, am, side, a, b, lo, hi, t, f)
                for nm2, x in zip(FP, w):
                    g = getattr(v, nm2)[j - off]
                    if not (same(np.asarray(g, dtype=float), np.asarray(x, dtype=float), rtol=1e-6, atol=1e-6)):
                        d = f"bar {j} {view}: {nm2} {np.asarray(g).tolist()} instead of {x}"
                        break
                    if nm2 in LST and np.asarray(g).dtype == object:
                        d = f"bar {j} {view}: {nm2} is an object array"
                        break
                m = len(w[0])
                if d is None:
                    r = df[df.index.get_level_values(0) == j - off].iloc[::-1]
                    if not (same(r["price_level"].values / t, np.array(w[0], dtype=float)) and same(r["buy_volume"].values.astype(float), np.array(w[1])) and same(r["sell_volume"].values.astype(float), np.array(w[2]))
                            and same(r["buy_ticks"].values, np.array(w[3])) and same(r["sell_ticks"].values, np.array(w[4]))
                            and same(r["buy_imbalance"].values.astype(int), np.array(w[5], dtype=int)) and same(r["sell_imbalance"].values.astype(int), np.array(w[6], dtype=int))
                            and len(r) == m and (r.index.get_level_values(1) == pd.Timestamp(int(np.asarray(k.bar_close_timestamps)[j]))).all()):
                        d = f"bar {j} {view}: rows of get_df are not the footprint"
                rows += m
            if d is None and df is not None and len(df) != rows:
                d = f"get_df has {len(df)} rows instead of {rows}"
        yield f"fp-{nm}-{i}", d is None, d and {"what": d, "ts": ts.tolist(), "price": px.tolist(), "amount": am.tolist(), "side": side.tolist(), "tick": tick, "factor": f, "close_indices": np.asarray(k._close_indices).tolist()}
