"""TradesData preprocessing against a row-wise oracle."""
import numpy as np
import pandas as pd
from pyvc.decl import bounded

BOUND = "random trade tables of 1 to 40 rows (seeded): shuffled ids, duplicate ids, equal times, id gaps, four time units, resolutions and side options"
UNIT = {"s": 10**9, "ms": 10**6, "us": 10**3, "ns": 1}


def oracle(ts, px, am, ids, sd, unit, res):
    """list of [ns time, price, amount, side] after sort by id, dedup, stable order by (time, id), merging, truncation"""
    rows, seen = [], set()
    for i in np.argsort(ids, kind="stable"):
        if ids[i] not in seen:
            seen.add(ids[i])
            rows.append((int(ts[i]) * UNIT[unit], int(ids[i]), float(px[i]), float(am[i]), None if sd is None else int(sd[i])))
    by_id = list(rows)
    rows.sort(key=lambda r: r[:2])
    out = []
    for t, _, p, a, s in rows:
        if out and out[-1][0] == t and abs(out[-1][1] - p) < 1e-8 and out[-1][3] == s:
            out[-1][2] += a
        else:
            out.append([t, p, a, s])
    if res and res != unit:
        for r in out:
            r[0] = r[0] // UNIT[res] * UNIT[res]
    if sd is None:
        last = 0
        for i, r in enumerate(out):
            if i and r[1] != out[i - 1][1]:
                last = 1 if r[1] > out[i - 1][1] else -1
            r[3] = last
    gaps = [(a[1], b[1], a[0], b[0]) for a, b in zip(by_id, by_id[1:]) if b[1] - a[1] > 1]
    return out, gaps, len(by_id), len(seen) < len(ids)


@bounded(BOUND, "TradesData(preprocess=True): _convert_timestamps_to_ns, _sort_trades, _validate_data, _merge_trades, _apply_timestamp_resolution, _add_trade_side_info")
def preprocessing(rng, budget, tier):
    from finmlkit.bar.data_model import TradesData
    i = 0
    while True:
        i += 1
        n = rng.choice([1, 2, 3, 5, 8, 13, 25, 40])
        unit = rng.choice(["s", "ms", "us", "ns"])
        step = rng.choice([1, 30, 10**3, 45 * 10**3, 10**6, 10**9]) if unit != "s" else rng.choice([1, 45, 70])
        ts = (rng.choice([1_600_000_000, 1_600_000_000, 1_050_000_000, 2_100_000_000, 4_000_000_000]) * (10**9 // UNIT[unit]) + np.cumsum([rng.choice([0, 0, 1, 2, 3]) * step for _ in range(n)])).astype(np.int64)
        if unit == "s" and ts[-1] < 2**31 and rng.random() < 0.3:
            ts = ts.astype(np.int32)
        ids = np.cumsum([rng.choice([1, 1, 1, 2, 5, 0]) for _ in range(n)]) + 1000
        px = np.array([rng.choice([100.0, 100.0, 100.5, 101.0, 100.000000001]) for _ in range(n)])
        am = np.array([rng.choice([0.5, 1.0, 2.0, 0.25]) for _ in range(n)])
        if rng.random() < 0.6:
            o = list(range(n))
            rng.shuffle(o) if rng.random() < 0.5 else o.reverse()
            if rng.random() < 0.5:
                ts = ts[o] if rng.random() < 0.5 else ts
            else:
                ts, ids, px, am = ts[o], ids[o], px[o], am[o]
        mode = rng.choice(["maker", "side", "none"])
        bm = np.array([rng.random() < 0.5 for _ in range(n)])
        for k in range(n):              # a duplicate is the same trade twice
            j = list(ids).index(ids[k])
            ts[k], px[k], am[k], bm[k] = ts[j], px[j], am[j], bm[j]
        sd = np.where(bm, -1, 1).astype(np.int8)
        res = rng.choice([None, None, "s", "ms", "us", "ns"])
        given = rng.random() < 0.7
        kw = dict(is_buyer_maker=bm.copy()) if mode == "maker" else dict(side=sd.copy()) if mode == "side" else {}
        inp = [a.copy() for a in (ts, px, am, ids)]
        t = TradesData(*inp, timestamp_unit=unit if given else None, preprocess=True, proc_res=res, **kw)
        want, gaps, nid, dup = oracle(ts, px, am, ids, None if mode == "none" else sd, unit, res)
        d, det = t.data, None
        got = [[int(a), float(b), float(c), int(e)] for a, b, c, e in zip(d["timestamp"], d["price"], d["amount"], d["side"])]
        if len(got) != len(want):
            det = f"{len(got)} trades instead of {len(want)}"
        else:
            for k, (g, w) in enumerate(zip(got, want)):
                if g[0] != w[0] or abs(g[1] - w[1]) > 1e-12 or abs(g[2] - w[2]) > 1e-6 * max(1, w[2]) or g[3] != w[3]:
                    det = f"trade {k}: {g} instead of {w}"
                    break
        if det is None and any(not np.array_equal(x, y) for x, y in zip(inp, (ts, px, am, ids))):
            det = "the input arrays were modified"
        if det is None and not np.array_equal(d.index.values.astype("datetime64[ns]").astype(np.int64), d["timestamp"].values):
            det = "index is not the trade time"
        if det is None:
            big = [g for g in gaps if g[3] - g[2] > 60 * 10**9]
            rep = [(x["start_id"], x["end_id"], x["missing_ids"]) for x in t.discontinuities]
            if rep != [(a, b, b - a - 1) for a, b, _, _ in big]:
                det = f"discontinuities {rep} instead of {big}"
            elif abs(t.missing_pct - 100.0 * sum(b - a - 1 for a, b, _, _ in gaps) / nid) > 1e-9:
                det = f"missing_pct {t.missing_pct}"
            elif bool(t.data_ok) != (not dup and not big):
                det = f"data_ok {t.data_ok} with duplicates {dup}, large gaps {len(big)}"
        yield f"pre-{i}", det is None, det and {"what": det, "unit": unit, "mode": mode, "res": res, "ts": ts.tolist(), "id": ids.tolist(), "price": px.tolist(), "amount": am.tolist(), "side": sd.tolist()}


@bounded("fixed list of invalid inputs", "TradesData constructor validation, set_view_range")
def rejection(rng, budget, tier):
    from finmlkit.bar.data_model import TradesData
    t = np.arange(5, dtype=np.int64) * 10**9 + 1_600_000_000 * 10**9
    p = np.ones(5) * 100
    i = np.arange(5)

    def bad(name, exc, f):
        try:
            f()
        except exc:
            return name, True, None
        except Exception as e:
            return name, False, f"{type(e).__name__}: {e} instead of {exc}"
        return name, False, "accepted"
    yield bad("short price", ValueError, lambda: TradesData(t, p[:4], p, i))
    yield bad("short amount", ValueError, lambda: TradesData(t, p, p[:3], i))
    yield bad("short id", ValueError, lambda: TradesData(t, p, p, i[:2], preprocess=True))
    yield bad("short maker flag", (ValueError, IndexError), lambda: TradesData(t, p, p, i, is_buyer_maker=np.zeros(4, bool), preprocess=True))
    yield bad("long maker flag", (ValueError, IndexError), lambda: TradesData(t, p, p, i, is_buyer_maker=np.zeros(9, bool), preprocess=True))
    yield bad("unit", ValueError, lambda: TradesData(t, p, p, i, timestamp_unit="m", preprocess=True))
    yield bad("resolution", ValueError, lambda: TradesData(t, p, p, i, timestamp_unit="ns", preprocess=True, proc_res="m"))
    yield bad("no id", ValueError, lambda: TradesData(t, p, p, preprocess=True))
    yield bad("list", TypeError, lambda: TradesData(list(t), p, p, i))
    yield bad("list price", TypeError, lambda: TradesData(t, list(p), p, i))
    yield bad("list amount", TypeError, lambda: TradesData(t, p, list(p), i))
    yield bad("list id", TypeError, lambda: TradesData(t, p, p, list(i)))
    yield bad("list maker", TypeError, lambda: TradesData(t, p, p, i, is_buyer_maker=[True] * 5))
    yield bad("list side", TypeError, lambda: TradesData(t, p, p, i, side=[1] * 5))
    for u, e in (("s", 1_600_000_000), ("ms", 1_600_000_000_000), ("us", 1_600_000_000_000_000), ("ns", 1_600_000_000_000_000_000)):
        d = TradesData(np.array([e, e + 1], dtype=np.int64), p[:2], p[:2])
        yield f"unit of {e}", d.orig_timestamp_unit == u, d.orig_timestamp_unit
    d = TradesData(t, p, p, i, timestamp_unit="ns")
    yield bad("empty view", ValueError, lambda: d.set_view_range("2020-09-13 12:26:43", "2020-09-13 12:26:41"))
    yield bad("point view", ValueError, lambda: d.set_view_range("2020-09-13 12:26:41", "2020-09-13 12:26:41"))
    d.set_view_range("2020-09-13 12:26:41", "2020-09-13 12:26:43")
    yield "view", d.data["timestamp"].tolist() == t[1:4].tolist(), d.data["timestamp"].tolist()
