"""TBMLabel and SampleWeights (finmlkit/label/kit.py) against the contracts of the kernels and an independent oracle."""
import math
import numpy as np
import pandas as pd
from pyvc.decl import bounded
from .util import clause_fail, same, trades, trades_data
import contracts.label_tbm  # noqa: F401
import contracts.label_weights  # noqa: F401

BOUND = "random trade tables of 3 to 50 rows and 1 to 12 events (seeded), barrier, side and weight options drawn from small sets"


def scenario(rng):
    """trades, features, options"""
    n = rng.choice([3, 5, 8, 13, 21, 34, 50])
    ts, px, am, _ = trades(rng, n)
    m = rng.choice([1, 2, 3, 5, 8, 12])
    at = sorted(rng.choice(ts[:max(1, n - 1)].tolist()) + rng.choice([0, 0, 0, 1, -1, 10**8]) for _ in range(m))
    f = pd.DataFrame({"tgt": [rng.choice([0.001, 0.004, 0.01, 0.02]) for _ in range(m)], "x": [float(i) for i in range(m)]}, index=pd.to_datetime(np.array(at, dtype=np.int64)))
    if rng.random() < 0.5:
        f["event_idx"] = np.minimum(np.searchsorted(ts, np.array(at)), n - 1)
    for k in range(rng.choice([0, 0, 1, 2])):
        if k < m - 1:
            f.iloc[k, rng.choice([0, 1])] = np.nan
    meta = rng.random() < 0.5
    if meta:
        f["side"] = np.array([rng.choice([-1, 1, 1, 0]) for _ in range(m)], dtype=np.int64)
    hb = rng.choice([(1.0, 1.0), (2.0, 1.0), (1.0, 3.0), (-np.inf, 1.0), (1.0, np.inf), (0.5, 0.5)])
    vb = rng.choice(["1s", "2s", "5s", "10s", "100ms", "60s"])
    mc = rng.choice([None, "0s", "1s", "2s", "500ms"])
    mr = rng.choice([0.0, 0.002, 0.005, 0.01])
    return ts, px, am, f, meta, hb, vb, mc, mr


def kept(f, mr, hb):
    """rows after the leading incomplete ones whose target, scaled by the larger multiplier, is at least min_ret"""
    first = max(next(i for i in range(len(f)) if not pd.isna(f[c].iloc[i])) for c in f.columns)
    lab = f.index[first]
    g = f[f.index >= lab]
    with np.errstate(all="ignore"):
        return g[np.abs(g["tgt"].values) * max(hb) >= mr]


def touch_oracle(ts, px, e, tgt, hb, vb, mc, side):
    """first eligible touching trade, else the last trade within the vertical barrier"""
    s = 1 if side is None else side
    last = e
    for j in range(e + 1, len(ts)):
        if ts[j] - ts[e] > vb * 1e9:
            break
        last = j
        r = s * math.log(px[j] / px[e])
        if ts[j] - ts[e] >= mc * 1e9 and ((math.isfinite(hb[1]) and r >= tgt * hb[1]) or (math.isfinite(hb[0]) and r <= -tgt * hb[0])):
            return j
    return last


@bounded(BOUND, "TBMLabel: filtering of events, event indices, compute_labels output")
def tbm_label(rng, budget, tier):
    from finmlkit.label.kit import TBMLabel
    i = 0
    while True:
        i += 1
        ts, px, am, f, meta, hb, vb, mc, mr = scenario(rng)
        f0 = f.copy()
        td = trades_data(ts, px, am)
        want = kept(f, mr, hb)
        V, M = pd.Timedelta(vb).total_seconds(), 1.0 if mc is None else pd.Timedelta(mc).total_seconds()
        info = lambda what: {"what": what, "ts": ts.tolist(), "price": px.tolist(), "features": f0.reset_index().astype(str).to_dict("list"), "barriers": hb, "vertical": vb, "min_close": mc, "min_ret": mr, "meta": meta}
        try:
            t = TBMLabel(f, "tgt", mr, hb, pd.Timedelta(vb), is_meta=meta) if mc is None else TBMLabel(f, "tgt", mr, hb, pd.Timedelta(vb), pd.Timedelta(mc), meta)
        except ValueError as e:
            yield f"tbm-{i}", len(want) == 0, info(f"rejected: {e}")
            continue
        if len(want) == 0:
            yield f"tbm-{i}", False, info("no valid event, but accepted")
            continue
        want = want[want.index.values.astype("datetime64[ns]").astype(np.int64) + int(V * 1e9) <= ts[-1]]
        if len(want) == 0:
            try:
                t.compute_labels(td)
                yield f"tbm-{i}", False, info("no event can be evaluated, but labels were returned")
            except ValueError:
                yield f"tbm-{i}", True, "rejected"
            continue
        feats, out = t.compute_labels(td)
        d = None
        if not feats.equals(want):
            d = f"features kept: {feats.index.tolist()} instead of {want.index.tolist()}"
        if d is None and list(out.columns) != ["touch_time", "event_idx", "touch_idx", "labels", "returns", "vertical_touch_weights"]:
            d = f"columns {list(out.columns)}"
        if d is None:
            ev = want["event_idx"].values if "event_idx" in want else np.searchsorted(ts, want.index.values.astype("datetime64[ns]").astype(np.int64))
            sd = want["side"].values.astype(np.int64) if meta else None
            if not same(out["event_idx"].values, ev):
                d = f"event indices {out['event_idx'].tolist()} instead of {list(ev)}"
            elif not out.index.equals(want.index):
                d = "index of the output is not that of the events"
            else:
                key = "finmlkit/label/tbm.py:triple_barrier" + ("#meta" if meta else "#side")
                d = clause_fail(key, (ts, px, ev, want["tgt"].values, hb, V, M, sd, mr), (out["labels"].values, out["touch_idx"].values, out["returns"].values, out["vertical_touch_weights"].values)) or None
        if d is None:
            for k, e in enumerate(ev):
                s = None if sd is None else sd[k]
                j = touch_oracle(ts, px, e, want["tgt"].values[k], hb, V, M, s)
                if j == e:
                    continue            # no trade inside the vertical barrier
                r = (1 if s is None else s) * math.log(px[j] / px[e])
                lab = (1 if r >= mr else 0) if meta else (-1 if r < 0 else 1)
                g = out.iloc[k]
                if g["touch_idx"] != j or not same(g["returns"], r) or (g["labels"] != lab and abs(abs(r) - (mr if meta else 0)) > 1e-12):
                    d = f"event {k}: touch {g['touch_idx']} return {g['returns']} label {g['labels']} instead of {j}, {r}, {lab}"
                    break
                if pd.Timestamp(g["touch_time"]).value != ts[j]:
                    d = f"event {k}: touch time {g['touch_time']}"
                    break
        if d is None and not same(t.labels.values, out["labels"].values) or d is None and not same(t.event_returns.values, out["returns"].values):
            d = "labels / event_returns differ from the output"
        if d is None and not f.equals(f0):
            d = "the features passed in were modified"
        yield f"tbm-{i}", d is None, d and info(d)


def labelled(rng):
    n = rng.choice([3, 5, 8, 13, 21, 34])
    ts, px, am, _ = trades(rng, n)
    m = rng.choice([1, 2, 3, 5, 8])
    ev = np.array(sorted(rng.randrange(n) for _ in range(m)), dtype=np.int64)
    to = np.array([rng.randint(e, n - 1) for e in ev], dtype=np.int64)
    return ts, px, am, pd.DataFrame({"event_idx": ev, "touch_idx": to, "labels": [rng.choice([-1, 1]) for _ in range(m)]}, index=pd.to_datetime(ts[ev]))


@bounded(BOUND, "SampleWeights.compute_info_weights, TBMLabel.compute_weights")
def info_weights(rng, budget, tier):
    from finmlkit.label.kit import SampleWeights
    i = 0
    while True:
        i += 1
        ts, px, am, lab = labelled(rng)
        td = trades_data(ts, px, am)
        norm = rng.random() < 0.4
        ev, to = lab["event_idx"].values, lab["touch_idx"].values
        con = np.zeros(len(ts), dtype=int)
        for a, b in zip(ev, to):
            con[a:b + 1] += 1
        au = np.array([np.mean(1.0 / con[a:b + 1]) for a, b in zip(ev, to)])
        lr = np.concatenate([[0.0], np.log(px[1:] / px[:-1])])
        ra = np.array([abs(np.sum(lr[a:b + 1] / con[a:b + 1])) for a, b in zip(ev, to)])
        if norm and 0 < ra.sum() < 1e-9:
            continue                    # zero up to rounding: undecided
        try:
            o = SampleWeights.compute_info_weights(td, lab, norm) if norm else SampleWeights.compute_info_weights(td, lab)
        except ValueError:
            yield f"info-{i}", norm and ra.sum() <= 1e-12, {"what": "rejected", "event_idx": ev.tolist(), "touch_idx": to.tolist(), "price": px.tolist()}
            continue
        if norm and ra.sum() > 1e-9:
            ra = ra * len(ra) / ra.sum()
        d = None
        if not same(o["avg_uniqueness"].values, au):
            d = f"uniqueness {o['avg_uniqueness'].tolist()} instead of {au.tolist()}"
        elif not same(o["return_attribution"].values, ra):
            d = f"return attribution {o['return_attribution'].tolist()} instead of {ra.tolist()}"
        elif not o.index.equals(lab.index):
            d = "index differs"
        elif norm and ra.sum() <= 1e-12:
            d = "zero total accepted"
        yield f"info-{i}", d is None, d and {"what": d, "event_idx": ev.tolist(), "touch_idx": to.tolist(), "price": px.tolist(), "normalize": norm}


@bounded(BOUND, "SampleWeights.compute_final_weights")
def final_weights(rng, budget, tier):
    from finmlkit.label.kit import SampleWeights
    try:
        o = SampleWeights.compute_final_weights(pd.Series([0.5, 1.0, 0.25]), -1.0)
        ok = bool(np.isfinite(o["weights"]).all() and (o["weights"] >= 0).all())
        yield "intercept -1", ok, o["weights"].tolist()
    except (ZeroDivisionError, ValueError) as e:
        yield "intercept -1", False, f"{type(e).__name__} although -1 is an accepted intercept"
    i = 0
    while True:
        i += 1
        m = rng.choice([1, 2, 3, 5, 8, 13])
        ix = pd.RangeIndex(m) if rng.random() < 0.5 else pd.Index([f"e{k}" for k in range(m)])
        au = pd.Series([rng.choice([0.25, 0.5, 1.0, 0.125]) for _ in range(m)], index=ix)
        c = rng.choice([1.0, 0.0, 0.5, 0.25, -0.5, -0.25, 1, 0])
        ra = pd.Series([rng.choice([0.0, 0.5, 1.0, 2.0]) for _ in range(m)], index=ix) if rng.random() < 0.5 else None
        vt = pd.Series([rng.choice([0.0, 0.5, 1.0]) for _ in range(m)], index=ix) if rng.random() < 0.4 else None
        lb = pd.Series(np.array([rng.choice([-1, 0, 1]) for _ in range(m)], dtype=np.int8), index=ix) if rng.random() < 0.5 else None
        cum = np.cumsum(au.values)
        tot = cum[-1]
        raw = 1 - (tot - cum) * ((1 - c) / tot if c >= 0 else 1 / ((c + 1) * tot))
        if c < 0 and (np.abs(raw) < 1e-9).any():
            continue                    # zero up to rounding: undecided
        td = np.maximum(raw, 0)
        info = {"uniqueness": au.tolist(), "intercept": c, "attribution": None if ra is None else ra.tolist(), "vertical": None if vt is None else vt.tolist(), "labels": None if lb is None else lb.tolist()}
        comb, d = td.copy(), None
        bad = ra is not None and ra.sum() <= 0
        if not bad:
            comb = comb * (au.values if ra is None else ra.values * m / ra.sum())
            if vt is not None:
                comb = comb * vt.values
            bad = comb.mean() <= 0
            if abs(comb.mean()) < 1e-9 and (comb.mean() or c < 0):
                continue                # zero up to rounding: undecided
        try:
            o = SampleWeights.compute_final_weights(au, c, ra, vt, lb)
        except ValueError as e:
            yield f"final-{i}", bad, dict(info, what=f"rejected: {e}")
            continue
        if bad:
            yield f"final-{i}", False, dict(info, what="zero total weight accepted")
            continue
        w = comb / comb.mean()
        if lb is not None:
            u = np.unique(lb.values)
            f = {}
            for x in u:
                s = w[lb.values == x].sum()
                f[x] = w.sum() / (len(u) * s) if s > 0 else 0.0
            w = w * np.array([f[x] for x in lb.values])
        if not same(o["time_decay_weights"].values, td):
            d = f"time decay {o['time_decay_weights'].tolist()} instead of {td.tolist()}"
        elif not same(o["weights"].values, w):
            d = f"weights {o['weights'].tolist()} instead of {w.tolist()}"
        elif not o.index.equals(ix):
            d = "index differs"
        elif (ra is not None) != ("return_attribution" in o) or (vt is not None) != ("vertical_touch_weights" in o):
            d = f"columns {list(o.columns)}"
        elif ra is not None and not same(o["return_attribution"].values, ra.values * m / ra.sum()) or vt is not None and not same(o["vertical_touch_weights"].values, vt.values):
            d = "component columns differ"
        elif lb is None and not same(o["weights"].mean(), 1.0):
            d = "mean is not 1"
        yield f"final-{i}", d is None, d and dict(info, what=d)


@bounded("fixed list of invalid inputs", "compute_final_weights and TBMLabel validation")
def label_rejection(rng, budget, tier):
    from finmlkit.label.kit import SampleWeights, TBMLabel
    a = pd.Series([0.5, 1.0])
    b = pd.Series([0.5, 1.0], index=[5, 6])

    def bad(name, f):
        try:
            f()
        except ValueError:
            return name, True, None
        except Exception as e:
            return name, False, f"{type(e).__name__}: {e}"
        return name, False, "accepted"
    W = SampleWeights.compute_final_weights
    yield bad("array", lambda: W(a.values))
    yield bad("intercept above", lambda: W(a, 1.5))
    yield bad("intercept below", lambda: W(a, -1.5))
    yield bad("attribution index", lambda: W(a, 1.0, b))
    yield bad("vertical index", lambda: W(a, 1.0, None, b))
    yield bad("label index", lambda: W(a, 1.0, None, None, b))
    f = pd.DataFrame({"t": [0.1, 0.1]}, index=pd.to_datetime([10**9, 2 * 10**9]))
    v = pd.Timedelta("1s")
    yield bad("target", lambda: TBMLabel(f, "q", 0.0, (1.0, 1.0), v))
    yield bad("index", lambda: TBMLabel(f.reset_index(drop=True), "t", 0.0, (1.0, 1.0), v))
    yield bad("barriers", lambda: TBMLabel(f, "t", 0.0, (1.0,), v))
    yield bad("min_ret", lambda: TBMLabel(f, "t", -0.1, (1.0, 1.0), v))
    yield bad("side", lambda: TBMLabel(f, "t", 0.0, (1.0, 1.0), v, is_meta=True))
    yield bad("float side", lambda: TBMLabel(f.assign(side=1.0), "t", 0.0, (1.0, 1.0), v, is_meta=True))
    yield bad("trades", lambda: TBMLabel(f, "t", 0.0, (1.0, 1.0), v).compute_labels(f))
