"""HDF5 persistence (TradesData.save_h5 / load_trades_h5, H5Inspector, AddTimeBarH5, TimeBarReader). Everything is written inside a scratch directory."""
import os
import tempfile
import shutil
import numpy as np
import pandas as pd
from pyvc.decl import bounded

BOUND = "random write histories of 1 to 5 saves over 4 calendar months (seeded), tables of 2 to 40 trades, 6 range queries each"
MONTHS = ["2023-01", "2023-02", "2023-03", "2024-02"]


def table(rng, month, n, with_side):
    """sorted trades inside one month, including its first and last nanosecond"""
    a, b = pd.Timestamp(month + "-01").value, (pd.Timestamp(month + "-01") + pd.offsets.MonthBegin(1)).value
    base = rng.choice([a, a, b - 40 * 10**9, (a + b) // 2 // 10**9 * 10**9])
    ts = base + np.cumsum([rng.choice([0, 0, 1, 10**6, 4 * 10**8, 10**9, 2 * 10**9]) for _ in range(n)]).astype(np.int64)
    ts = np.sort(np.clip(ts, a, b - 1))
    px = np.array([100 + rng.randint(0, 400) / 4 for _ in range(n)])
    am = np.array([rng.choice([0.25, 0.5, 1.0, 2.0, 4.0]) for _ in range(n)])
    side = np.array([rng.choice([-1, 1]) for _ in range(n)], dtype=np.int8) if with_side else None
    return ts, px, am, side


def make(ts, px, am, side, pre):
    from finmlkit.bar.data_model import TradesData
    if pre:
        return TradesData(ts.copy(), px.copy(), am.copy(), id=np.arange(len(ts)), timestamp_unit="ns", preprocess=True, is_buyer_maker=None if side is None else side < 0)
    return TradesData(ts.copy(), px.copy(), am.copy(), id=np.arange(len(ts)), timestamp_unit="ns", side=None if side is None else side.copy())


def rows(df, side):
    cols = [df["timestamp"].values, df["price"].values, df["amount"].values] + ([df["side"].values] if side else [])
    return [tuple(float(v) if i else int(v) for i, v in enumerate(r)) for r in zip(*cols)]


def query(rng, model):
    """(start, end) drawn near stored moments, or open"""
    moments = [r[0] for m in model.values() for r in m]
    pick = lambda: pd.Timestamp(rng.choice(moments) + rng.choice([0, 0, 1, -1, 10**9, -10**9]))
    return rng.choice([None, pick(), pick()]), rng.choice([None, pick(), pick()])


@bounded(BOUND, "save_h5 (create, append, overwrite, month keys, views), load_trades_h5 (key, range, sequential and parallel), H5Inspector keys, statistics and metadata")
def store_roundtrip(rng, budget, tier):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import H5Inspector
    root = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    for i in range(10**6):
        path = os.path.join(root, f"s{i}", "t.h5")
        with_side = rng.random() < 0.6
        model, hist, f = {}, [], ""
        try:
            for _ in range(rng.choice([1, 2, 3, 4, 5])):
                month = rng.choice(MONTHS)
                t = table(rng, month, rng.choice([2, 3, 5, 8, 40]), with_side)
                pre = with_side and rng.random() < 0.3
                td = make(*t, pre)
                data = td.data
                if rng.random() < 0.2 and t[0][0] < t[0][-1] - 1:
                    td.set_view_range(pd.Timestamp(t[0][0]), pd.Timestamp(t[0][-1] - 1))
                    data = td.data
                ov = rng.random() < 0.5
                key = rng.choice([None, month])
                if not ov and month in model and any(("id" in data.columns) != h[3] for h in hist if h[0] == month):
                    continue        # appending a table with other columns is refused by the store
                got = td.save_h5(path, month_key=key, overwrite_month=ov)
                hist.append((month, "overwrite" if ov else "append", len(data), "id" in data.columns))
                if got != "/trades/" + month:
                    f = f or f"saved under {got}"
                new = rows(data, with_side)
                model[month] = (model.get(month, []) if not ov else []) + new
            full = [r for m in sorted(model) for r in model[m]]
            insp = H5Inspector(path)
            if sorted(insp.list_keys()) != sorted("/trades/" + m for m in model):
                f = f or f"keys {insp.list_keys()}"
            for m, rs in model.items():
                st, md = insp.get_statistics("/trades/" + m), insp.get_metadata("/trades/" + m)
                if (st["record_count"], int(st["first_timestamp"]), int(st["last_timestamp"])) != (len(rs), min(r[0] for r in rs), max(r[0] for r in rs)):
                    f = f or f"statistics of {m}"
                if int(md["record_count"]) != len(rs):
                    f = f or f"record count of {m}: {md['record_count']} instead of {len(rs)}"
                if int(md["first_timestamp"]) > min(r[0] for r in rs) or int(md["last_timestamp"]) < max(r[0] for r in rs):
                    f = f or f"metadata of {m} does not span its rows"
            for q in range(6):
                s, e = query(rng, model)
                by_key = rng.choice(sorted(model)) if rng.random() < 0.25 else None
                par = rng.random() < (0.02 if tier == "quick" else 0.05)
                src = model[by_key] if by_key else full
                want = [r for r in src if (s is None or r[0] >= s.value) and (e is None or r[0] <= e.value)]
                want = sorted(want, key=lambda r: r[0])
                as_str = rng.random() < 0.3
                try:
                    out = TradesData.load_trades_h5(path, key=by_key, start_time=str(s) if as_str and s is not None else s, end_time=str(e) if as_str and e is not None else e, enable_multiprocessing=par, n_workers=2)
                    got = rows(out.data, with_side)
                    if not out.data.index.equals(pd.DatetimeIndex(out.data["timestamp"].values)):
                        f = f or "index differs from the timestamps"
                    if out.data["price"].dtype != np.float64 or out.data["amount"].dtype.kind != "f":
                        f = f or "column types changed"
                except (KeyError, ValueError) as x:
                    got = []
                    if want:
                        f = f or f"query {s} .. {e} raised {type(x).__name__}: {x}"
                if sorted(got) != sorted(want):
                    f = f or f"query {s} .. {e} key {by_key}: {len(got)} rows instead of {len(want)}"
                elif [r[0] for r in got] != [r[0] for r in want]:
                    f = f or f"query {s} .. {e}: not in time order"
                elif got != want:
                    f = f or f"query {s} .. {e}: trades at one moment are not in the order they were written"
        except Exception as x:
            f = f or f"raised {type(x).__name__}: {x}"
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
        yield f"history #{i}", not f, {"history": [str(h) for h in hist], "clause": f} if f else ""


def wmedian(sizes, weights):
    o = np.argsort(sizes, kind="stable")
    c = np.cumsum(weights[o].astype(float))
    return sizes[o][np.searchsorted(c, c[-1] * 0.5)]


@bounded("random stores of 1 to 3 months, 2 to 40 trades each (seeded); five reads each at 1 s, 5 s, 1 min, 15 min, 1 h, 1 day", "AddTimeBarH5 and TimeBarReader against bars built directly from the stored trades")
def time_bars(rng, budget, tier):
    from finmlkit.bar.io import AddTimeBarH5, TimeBarReader
    from finmlkit.bar.kit import TimeBarKit
    root = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    for i in range(10**6):
        path = os.path.join(root, f"s{i}", "t.h5")
        f, parts, info = "", {}, []
        try:
            for month in rng.sample(MONTHS, rng.choice([1, 2, 3])):
                t = table(rng, month, rng.choice([2, 3, 8, 20, 40]), True)
                if t[0][0] == t[0][-1]:
                    continue
                td = make(*t, False)
                td.save_h5(path)
                parts[month] = TimeBarKit(make(*t, False), pd.Timedelta(seconds=1)).build_ohlcv()
                info.append((month, t[0].tolist()))
            if not parts:
                continue
            add = AddTimeBarH5(path)
            r = add.process_all()
            if set(r) != {"/trades/" + m for m in parts} or not all(r.values()):
                f = f"process_all: {r}"
            if any(add.process_all().values()):
                f = f or "existing bars were rebuilt without overwrite"
            if rng.random() < 0.3:
                k = "/trades/" + rng.choice(sorted(parts))
                if add.process_key(k, overwrite=True) is not True:
                    f = f or "overwrite refused"
            rd = TimeBarReader(path)
            if sorted(rd.list_keys()) != sorted("/klines/" + m for m in parts):
                f = f or f"keys {rd.list_keys()}"
            allbars = pd.concat([parts[m] for m in sorted(parts)])
            for q in range(5):
                pick = lambda: pd.Timestamp(int(rng.choice(allbars.index.asi8)) + rng.choice([0, 0, 10**9, -10**9, 5 * 10**8]))
                s, e = rng.choice([None, pick(), pick().normalize()]), rng.choice([None, pick(), pick().normalize(), pick().normalize() + pd.Timedelta(days=1)])
                tf = rng.choice([None, None, "1s", "5s", "1min", "15min", "1h", "1D"])
                lim = e if e is None or e != e.normalize() else e + pd.Timedelta(days=1) - pd.Timedelta(1, "ns")
                sel = allbars[(allbars.index >= s if s is not None else True) & (allbars.index <= lim if lim is not None else np.ones(len(allbars), bool))]
                out = rd.read(str(s) if s is not None and rng.random() < .3 else s, e, tf)
                if tf is None or tf == "1s" and sel.index.is_unique:
                    if len(sel) == 0 and len(out) == 0:
                        continue
                    cols = [c for c in allbars.columns]
                    if len(out) != len(sel) or not np.array_equal(out.index.asi8, sel.index.asi8) or (tf is None and list(out.columns) != cols):
                        f = f or f"read {s} .. {e} {tf}: {len(out)} bars instead of {len(sel)}"
                        continue
                    for c in cols:
                        m = np.ones(len(sel), bool) if tf is None or c != "vwap" else sel["volume"].values > 0     # a price of no volume is not defined
                        if not np.allclose(out[c].values.astype(float)[m], sel[c].values.astype(float)[m], rtol=1e-6, equal_nan=True):
                            f = f or f"read {s} .. {e} {tf}: column {c} differs"
                    continue
                if len(sel) == 0:
                    if len(out):
                        f = f or "bars out of nothing"
                    continue
                want = {}
                for b in sorted(set(sel.index.floor(tf))):
                    g = sel[sel.index.floor(tf) == b]
                    v = g["volume"].values.astype(float)
                    want[b] = (g["open"].iloc[0], g["high"].max(), g["low"].min(), g["close"].iloc[-1], v.sum(), int(g["trades"].sum()), (g["vwap"].values * v).sum() / v.sum() if v.sum() > 0 else np.nan,
                               wmedian(g["median_trade_size"].values, g["trades"].values))
                if tf == "1D" and e is not None and e == e.normalize():
                    want = {b: x for b, x in want.items() if b <= e - pd.Timedelta(days=1)}
                if list(out.index) != list(want):
                    f = f or f"read {s} .. {e} {tf}: bars at {list(out.index)[:4]} instead of {list(want)[:4]}"
                    continue
                for b, x in want.items():
                    g = out.loc[b, ["open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size"]].values.astype(float)
                    if not np.allclose(g, np.array(x, dtype=float), rtol=1e-4, equal_nan=True):
                        f = f or f"read {s} .. {e} {tf}: bar {b} is {g.tolist()} instead of {x}"
        except Exception as x:
            f = f or f"raised {type(x).__name__}: {x}"
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
        yield f"bars #{i}", not f, {"months": str(info)[:1500], "clause": f} if f else ""
