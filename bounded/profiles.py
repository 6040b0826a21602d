"""Volume profiles (finmlkit/feature/core/volume.py) against an independent level-by-level oracle."""
import numpy as np
import pandas as pd
from pyvc.decl import bounded
from .util import same

BOUND = "random sequences of 1 to 14 bars with footprints of 1 to 12 levels (seeded), dyadic volumes, windows, bucket counts and shares drawn from small sets"
COVERS = ["finmlkit/feature/core/volume.py:VolumePro", "finmlkit/feature/core/volume.py:aggregate_footprint", "finmlkit/feature/core/volume.py:bucket_price_levels",
          "finmlkit/feature/core/volume.py:volume_profile_rolling", "finmlkit/feature/core/volume.py:volume_profile_developing", "finmlkit/feature/core/volume.py:trim_trailing_zeros"]


def bars(rng):
    """time-ordered bars: ts, highs, lows, levels, buys, sells, tick"""
    n = rng.choice([1, 2, 3, 5, 8, 14])
    step = rng.choice([[10**9], [10**9, 2 * 10**9, 7 * 10**9], [1, 10**9, 10**9 + 1], [0, 10**9, 3 * 10**9]])
    ts = 1_600_000_000_000_000_000 + np.cumsum([rng.choice(step) for _ in range(n)]).astype(np.int64)
    tick = rng.choice([0.25, 0.5, 1.0, 0.01])
    base, wide = rng.choice([4, 400, 40000]), rng.choice([1, 2, 4, 12])
    lv, bu, se = [], [], []
    # rounding to 8 digits in float32 (trim_trailing_zeros) is exact for small whole volumes only
    whole = rng.random() < 0.5
    vols = ([0.0, 1.0] if n > 8 else [0.0, 0.0, 1.0, 2.0]) if whole else [0.0, 0.25, 0.5, 1.0, 2.0, 8.0]
    for _ in range(n):
        base = max(1, base + rng.choice([0, 0, 1, -1, 3, -3]))
        m = rng.randint(1, wide)
        lv.append(np.arange(base, base + m, dtype=np.int32))
        for o in (bu, se):
            o.append(np.array([rng.choice(vols) for _ in range(m)], dtype=np.float32))
        if bu[-1].sum() + se[-1].sum() == 0:
            bu[-1][rng.randrange(m)] = 1.0
    hi = np.array([x[-1] for x in lv]) * tick
    lo = np.array([x[0] for x in lv]) * tick
    return ts, hi, lo, lv, bu, se, tick, whole


def total(lv, bu, se, js):
    """levels from the lowest to the highest of the bars js and the volume traded at each"""
    d = {p: 0.0 for p in range(min(int(lv[j][0]) for j in js), max(int(lv[j][-1]) for j in js) + 1)}
    for j in js:
        for p, b, s in zip(lv[j], bu[j], se[j]):
            d[int(p)] += float(b) + float(s)
    return sorted(d.items())


def buckets(prof, n_bins):
    """equal odd-width buckets of the levels; a level that starts a bucket of its own at the top end is its own bucket"""
    lo, hi = prof[0][0], prof[-1][0]
    w = max(1, (hi - lo) // n_bins)
    w += w % 2 == 0
    d = {}
    for p, v in prof:
        b = (p - lo) // w
        rep = hi if (hi - lo) % w == 0 and lo + b * w == hi else lo + b * w + (w - 1) // 2
        d[rep] = d.get(rep, 0.0) + v
    return sorted(d.items())


def value_area(prof, share):
    """POC: first level of the largest volume; area: grown two levels at a time towards the larger neighbour until it holds the share"""
    v = [x for _, x in prof]
    poc = max(range(len(v)), key=lambda i: (v[i], -i))
    a, c, thr = poc, poc, sum(v) * (share / 100.0)
    while sum(v[a:c + 1]) < thr:
        up, dn = v[c + 1:c + 3], v[max(0, a - 2):a]
        su = sum(up) if up else (0.0 if c == poc else -1.0)
        sd = sum(dn) if dn else (0.0 if a == poc else -1.0)
        if su >= sd:
            c = min(c + 2, len(v) - 1)
        if sd >= su:
            a = max(a - 2, 0)
    return prof[poc][0], prof[c][0], prof[a][0], (sum(x for p, x in prof if p > prof[poc][0]) / sum(v) if sum(v) > 0 else 0.0)


def expect(prof, n_bins, share):
    return value_area(prof if n_bins is None else buckets(prof, n_bins), share)


def numba_lists(lv, bu, se):
    from numba.typed import List
    return List(lv), List(bu), List(se)


def trimmed(prof):
    k = [i for i, (_, v) in enumerate(prof) if v != 0]
    return prof[k[0]:k[-1] + 1]


@bounded(BOUND, COVERS)
def profiles(rng, budget, tier):
    from finmlkit.feature.core import volume as V
    from finmlkit.bar.data_model import FootprintData
    i = 0
    while True:
        i += 1
        ts, hi, lo, lv, bu, se, tick, whole = bars(rng)
        n = len(ts)
        nb, share = rng.choice([None, 3, 5, 27]), rng.choice([25.0, 50.0, 62.5, 75.0, 100.0, 0.0])
        w = rng.choice([0.0, 1.0, 2.0, 3.5, 10.0, 60.0])
        if rng.random() < 0.15:  # a window that is no exact multiple of a second, on a clock that makes its edge matter
            w = rng.choice([1.001, 2.003])
            ts = int(ts[0]) + np.cumsum([rng.choice([1, 1, 2]) for _ in range(n)]).astype(np.int64) * int(round(w * 1e9))
        wn = int(round(w * 1e9))
        L = numba_lists(lv, bu, se)
        inp = {"ts": ts.tolist(), "levels": [x.tolist() for x in lv], "buy": [x.tolist() for x in bu], "sell": [x.tolist() for x in se], "tick": tick, "n_bins": nb, "va_pct": share, "window": w}
        d = None
        # one aggregation window
        a, b = sorted(rng.choice([int(t) + rng.choice([0, 0, 1, -1]) for t in ts]) for _ in range(2))
        js = [j for j in range(n) if a <= ts[j] <= b]
        if js:
            want = total(lv, bu, se, js)
            pl, tb, tsell = V.aggregate_footprint(ts, hi, lo, *L, a, b, tick)
            if not (same(pl, np.array([p for p, _ in want])) and same(np.asarray(tb) + np.asarray(tsell), np.array([v for _, v in want]))
                    and same(np.asarray(tb), np.array([v for _, v in total(lv, bu, [x * 0 for x in se], js)]))):
                d = f"aggregate_footprint over [{a}, {b}]: {np.asarray(pl).tolist()} {np.asarray(tb).tolist()} {np.asarray(tsell).tolist()} instead of {want}"
            k = nb or 4
            wb = buckets(want, k)
            bp, bv = V.bucket_price_levels(np.array([p for p, _ in want], dtype=np.int32), np.array([v for _, v in want], dtype=np.float32), k)
            if d is None and not (same(bp, np.array([p for p, _ in wb])) and same(bv, np.array([v for _, v in wb]))):
                d = f"bucket_price_levels({want}, {k}) = {np.asarray(bp).tolist()} {np.asarray(bv).tolist()} instead of {wb}"
            tp, tv = V.trim_trailing_zeros(np.array([p for p, _ in want], dtype=np.int32), np.array([v for _, v in want], dtype=np.float32))
            wt = trimmed(want)
            if d is None and not (same(tp, np.array([p for p, _ in wt])) and same(tv, np.array([v for _, v in wt]), rtol=1e-6)):
                d = f"trim_trailing_zeros({want}) = {np.asarray(tp).tolist()} {np.asarray(tv).tolist()}"
        # rolling
        exp = [None if ts[j] < ts[0] + wn else expect(total(lv, bu, se, [q for q in range(n) if ts[j] - wn <= ts[q] <= ts[j]]), nb, share) for j in range(n)]
        if d is None:
            r = V.volume_profile_rolling(ts, hi, lo, *L, w, nb, tick, share)
            for j in range(n):
                g = tuple(float(x[j]) for x in r)
                e = exp[j] or (0, 0, 0, 0)
                if not same(np.array(g), np.array(e, dtype=float), rtol=1e-6, atol=1e-6):
                    d = f"volume_profile_rolling: bar {j} {g} instead of {e}"
                    break
        # developing
        js = [j for j in range(n) if a <= ts[j] <= b]
        if d is None and js and (nb is None or whole):
            r = V.volume_profile_developing(ts, hi, lo, *L, a, b, nb, tick, share)
            if not same(r[0], ts[js[0]:js[-1] + 1]) or any(len(x) != len(js) for x in r):
                d = f"volume_profile_developing({a}, {b}): timestamps {np.asarray(r[0]).tolist()}"
            else:
                grid = [(p, 0.0) for p, _ in total(lv, bu, se, js)]
                for q, j in enumerate(js):
                    cur = dict(total(lv, bu, se, js[:q + 1]))
                    prof = [(p, cur.get(p, 0.0)) for p, _ in grid]
                    e = expect(prof if nb is None else trimmed(prof), nb, share)[:3]
                    g = tuple(int(x[q]) for x in r[1:])
                    if g != e:
                        d = f"volume_profile_developing({a}, {b}): bar {j} {g} instead of {e}"
                        break
        # the wrapper
        if d is None and nb is not None and w > 0 and len(set(ts.tolist())) == n:
            df = pd.DataFrame({"high": hi, "low": lo}, index=pd.to_datetime(ts))
            fl = [np.zeros(len(x), dtype=bool) for x in lv]
            tk = [np.zeros(len(x), dtype=np.int32) for x in lv]
            fp = FootprintData(ts, tick, *(V_obj(x) for x in (lv, bu, se, tk, tk, fl, fl)))
            vp = V.VolumePro(pd.Timedelta(wn, unit="ns"), nb, share)
            if rng.random() < 0.3:
                vp = V.VolumePro(pd.Timedelta(seconds=w + 1), nb + 2, 33.0)
                vp.reset_parameters(w, nb, share)
            got = vp.compute(df, fp)
            d = wrapper(got, exp, tick, "compute")
            if d is None:
                s, t = sorted(int(rng.choice(list(ts))) for _ in range(2))
                kind = rng.choice(["int", "ts", "str"])
                conv = {"int": int, "ts": pd.Timestamp, "str": lambda x: pd.Timestamp(x).isoformat(timespec="nanoseconds")}[kind]
                got = vp.compute_range(df, fp, conv(s), conv(t))
                js = [j for j in range(n) if s - wn <= ts[j] <= t]
                exp2 = [None if ts[j] < ts[js[0]] + wn else expect(total(lv, bu, se, [q for q in js if ts[j] - wn <= ts[q] <= ts[j]]), nb, share) for j in js]
                if not same(np.asarray(got[0]), ts[js]):
                    d = f"compute_range({s}, {t}, {kind}): bars {np.asarray(got[0]).tolist()}"
                else:
                    d = wrapper(got[1:], exp2, tick, f"compute_range({s}, {t}, {kind})")
        yield f"profile-{i}", d is None, d and {"what": d, **inp}


def V_obj(x):
    o = np.empty(len(x), dtype=object)
    for i, y in enumerate(x):
        o[i] = y
    return o


def wrapper(got, exp, tick, what):
    for j, e in enumerate(exp):
        g = np.array([float(x[j]) for x in got])
        w = np.array([np.nan, np.nan, np.nan, 0.0] if e is None else [e[0] * tick, e[1] * tick, e[2] * tick, e[3]])
        if not same(g, w, rtol=1e-6, atol=1e-6):
            return f"VolumePro.{what}: bar {j} {g.tolist()} instead of {w.tolist()}"
    return None
