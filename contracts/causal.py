"""C25: the value at an index depends on the inputs up to that index only.

Each lemma is stated over the *contract* of a kernel (proved on the code by the same check or by the property named in the note): two inputs
agree up to index K, whatever follows in either of them (also different lengths); then what the contract says about position K is the same."""
import ast
from pyvc.decl import Contract, REGISTRY, Lemma
from pyvc.dsl import *
from pyvc.base_specs import *
from . import feat_utils, feat_ma, feat_vol, feat_trend, feat_volume, feat_break, feat_time, feat_runs, sampling, bar_utils  # noqa: F401
F = "finmlkit/feature/core/"


def two(e, arrays):
    """the same expression over the second input"""
    t = ast.parse(e.strip(), mode="eval")
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and n.id in arrays:
            n.id += "__2"
    return ast.unparse(t)


def at(e, v):
    t = ast.parse(e.strip(), mode="eval")
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and n.id == "b":
            n.id = v
    return ast.unparse(t)


CAUSAL = {}


def causal(key, steps=(), extra=(), terms=None, agree=None, requires=(), heavy=False):
    """steps: 'expression in m' | (expression in m, first m[, condition]): proved equal for both inputs by induction on m up to K"""
    c = REGISTRY[key]
    arrays = [p for p, t in c.params if t.startswith("A_")]
    params = [f"{p}: {t}" for p, t in c.params] + [f"{p}__2: {dict(c.params)[p]}" for p in arrays] + ["K: int"]
    req = list(c.requires) + [two(r, arrays) for r in c.requires] + ["0 <= K"]
    req += agree or [x for a in arrays for x in (f"K < len({a})", f"K < len({a}__2)", f"forall(0, K + 1, lambda i: same({a}[i], {a}__2[i]))")]
    req += list(requires)
    pre = []
    for s in steps:
        if isinstance(s, str) and s.startswith("induct("):
            pre.append(s)
            continue
        s, lo, cond = (s, "0", None) if isinstance(s, str) else (tuple(s) + (None,))[:3]
        eq = f"same({s}, {two(s, arrays)})"
        g = f"implies({cond}, {eq})" if cond else eq
        hi = "K" if lo == "0" else "K + 1"
        pre.append(f"induct({lo}, {hi}, lambda m: {g})")
    ens = []
    for e in terms or [e for _, _, e, *_ in c.pointwise]:
        e = at(e, "K")
        ens.append(f"same({e}, {two(e, arrays)})")
    k = "lemma:causal/" + key.replace("finmlkit/", "").replace("feature/core/", "").replace(":", ".")
    CAUSAL[key] = k
    Lemma(k, params, requires=req, prelemmas=pre + list(extra), ensures=ens, cases=c.cases, note="lemma over the contract of " + key)


def win(*es, lo="K - window + 1", first=None):
    """folds over a window that ends at K"""
    return [(e.replace("LO", f"({lo})"), f"ite({lo} > K + 1, K + 1, {lo})", f"{lo} >= 0 and {lo} <= K + 1") for e in es]


causal(F + "utils.py:comp_zscore", win("asum(x, LO, m)"), extra=["implies(window <= K + 1, asum(x, K + 1 - window, K + 1) == asum(x__2, K + 1 - window, K + 1))",
       "induct(K + 1 - window, K + 1, lambda m: implies(window <= K + 1, sumof(K + 1 - window, m, lambda q: (x[q] - wmean(x, window, K)) ** 2) == sumof(K + 1 - window, m, lambda q: (x__2[q] - wmean(x__2, window, K)) ** 2)))"])
causal(F + "utils.py:comp_burst_ratio")
causal(F + "utils.py:pct_change")
causal(F + "ma.py:ewma", ["ew_num(y, span, m)"])
causal(F + "ma.py:sma", win("asum(array, LO, m)"))
causal(F + "momentum.py:roc")
causal(F + "momentum.py:rsi_wilder", ["ups(close, m)", "downs(close, m)", ("avg_up(close, window, m)", "0", "m >= window"), ("avg_down(close, window, m)", "0", "m >= window")])
X = [f"induct(K - length + 2, K + 1, lambda m: implies(length <= K + 1, {f}({a}, K - length + 1, m) == {f}({a}__2, K - length + 1, m)))" for f, a in (("amax", "high"), ("amin", "low"))]
causal(F + "momentum.py:stoch_k", extra=X)
V = F + "volatility.py:"
causal(V + "ewms", ["ew_w(y, span, m)", "ew_w2(y, span, m)", "ew_y(y, span, m)", "ew_yy(y, span, m)"])
TY = "(timestamps, y, half_life, m)"
causal(V + "ewmst_mean0", ["m0_u" + TY, "m0_v" + TY])
causal(V + "ewmst", [f"es_{x}" + TY for x in ("v", "v2", "y", "yy")])
causal(V + "true_range")
causal(V + "realized_vol", win("vcount(r, LO, m)"))
causal(V + "bollinger_percent_b", win("asum(close, LO, m)", "sumof(LO, m, lambda q: close[q] ** 2)"))
causal(V + "parkinson_range")
causal(V + "rolling_variance_nb", win("vcount(series, LO, m)", "vsum(series, LO, m)", "vsumsq(series, LO, m)"))
HLC = "high, low, close"
AT = win(f"tcount({HLC}, LO, m)", f"tsum({HLC}, LO, m)")
FULL = [(f"tcount({HLC}, 0, m)", "0", "m <= K + 1"), (f"tsum({HLC}, 0, m)", "0", "m <= K + 1")]
causal(V + "atr#sma", AT)
causal(V + "atr#ema", FULL + [(f"atr_ema({HLC}, window, m)", "0", "m >= window - 1")])
for kind in ("log", "simple"):
    causal(V + "variance_ratio_1_4_core#" + kind, [f"r1_{kind}(price, m)", f"r4_{kind}(price, m)"] + win(*[f"{q}_{kind}_{x}(price, LO, m)" for q in ("r1", "r4") for x in "nsq"]),
           requires=["len(price) >= window + 4", "len(price__2) >= window + 4"])
H3 = "(high, low, close, length, m)"
causal(F + "trend.py:adx_core", ["ad_tr(high, low, close, m)", "ad_pdm(high, low, m)", "ad_mdm(high, low, m)", "w_tr" + H3, "w_pdm(high, low, length, m)", "w_mdm(high, low, length, m)", "di_p" + H3, "di_m" + H3, "dxi" + H3, "adxi" + H3])
BS, SB = "volume_buy, volume_sell", "volume_sell, volume_buy"
causal(F + "volume.py:vpin", win(*[f"{f}({a}, LO, m)" for f, a in (("obs_sum", BS), ("obs_sum", SB), ("imb_sum", BS), ("nan_count", BS))], lo="K + 1 - window"))
causal(F + "volume.py:comp_flow_acceleration", win("asum(volumes, LO, m)", lo="K + 1 - recent_periods") + win("asum(volumes, LO, m)", lo="K + 1 - window"),
       extra=["induct(K + 1 - window, K + 1 - recent_periods, lambda m: implies(window <= K + 1 and recent_periods >= 0 and recent_periods <= window, asum(volumes, K + 1 - window, m) == asum(volumes__2, K + 1 - window, m)))"])
PV = "price, volume"
causal(F + "correlation.py:rolling_price_volume_correlation", ["p_ret(price, m)"] + win(*[f"pv_{x}({PV}, LO, m)" for x in ("n", "r", "v", "rr", "vv", "rv")]), terms=[feat_volume.CORR])
causal(F + "reversion.py:vwap_distance", ["induct(0, K + 1, lambda m: forall(0, m + 1, lambda i: asum(volume, i, m) == asum(volume__2, i, m) and dotp(close, volume, i, m) == dotp(close__2, volume__2, i, m)))", "vw_dist(close, volume, n_periods, is_log, m)"])
causal(F + "time.py:time_cues")
causal("finmlkit/feature/transforms.py:DirRunLen.numba_core", ["run_len(x, m)"])
C = F + "structural_break/cusum.py:"
causal(C + "cusum_test_developing", [(f"br_{nm}{'_crit' if c else ''}(y, 0, br_sigma(y, 0, K), K, m)", "0", "m < K") for nm, c in feat_break.PARTS])
P = "raw_time_series"
Q = f"{P}, threshold, len(threshold), "
causal("finmlkit/sampling/filters.py:cusum_filter", 
       agree=[f"K < len({P})", f"K < len({P}__2)", "2 <= len(raw_time_series)", "2 <= len(raw_time_series__2)", f"forall(0, K + 1, lambda i: {P}[i] == {P}__2[i])",
              f"(len(threshold) == 1 and len(threshold__2) == 1 and threshold[0] == threshold__2[0]) or (len(threshold) == len({P}) and len(threshold__2) == len({P}__2) and forall(0, K + 1, lambda i: threshold[i] == threshold__2[i]))"],
       extra=[f"induct(0, K, lambda m: same(cf_pos({Q}m), {two(f'cf_pos({Q}m)', [P, 'threshold'])}) and same(cf_neg({Q}m), {two(f'cf_neg({Q}m)', [P, 'threshold'])}) and cf_events({Q}m) == {two(f'cf_events({Q}m)', [P, 'threshold'])})"],
       terms=[f"cf_events({Q}b)", f"ite(cf_dn({Q}b), 1, 0)", f"ite(cf_up({Q}b), 1, 0)"])


# ---- lagged returns: the contract names the base bar by a property; it exists within the common prefix
@spec("A_int, real, int -> int")
def base_bar(t, target, m):
    """last bar up to m that is not after target"""
    return m if m <= 0 or t[m] <= target else base_bar(t, target, m - 1)


LR = REGISTRY[F + "utils.py:comp_lagged_returns"]
TARGET = "(timestamps[K] - W)"


def short(r):
    return r.replace("round_(return_window_sec * 1000000000.0)", "W")


J = f"base_bar(timestamps, {TARGET}, K)"
ARR = ["timestamps", "close", "result"]
CAUSAL[LR.key] = "lemma:causal/utils.py.comp_lagged_returns"
Lemma(CAUSAL[LR.key], [f"{p}: {t}" for p, t in LR.params] + ["result: A_float", "timestamps__2: A_int", "close__2: A_real", "result__2: A_float", "K: int", "W: int"],
      requires=LR.requires + [short(r) for r in LR.ensures] + [two(short(r), ARR) for r in LR.requires + LR.ensures] + ["W == round_(return_window_sec * 1000000000.0)", "0 <= K", "K < len(close)", "K < len(close__2)",
                                                                                           "forall(0, K + 1, lambda i: timestamps[i] == timestamps__2[i] and close[i] == close__2[i])"],
      prelemmas=[f"induct(0, K, lambda m: implies(timestamps[0] <= {TARGET}, 0 <= base_bar(timestamps, {TARGET}, m) and base_bar(timestamps, {TARGET}, m) <= m and timestamps[base_bar(timestamps, {TARGET}, m)] <= {TARGET} and "
                 f"implies(base_bar(timestamps, {TARGET}, m) < m, {TARGET} < timestamps[base_bar(timestamps, {TARGET}, m) + 1])))",
                 f"implies(timestamps[0] <= {TARGET} and W >= 1, {J} < K and timestamps[{J}] <= {TARGET} and {TARGET} < timestamps[{J} + 1])"],
      ensures=["same(result[K], result__2[K])"], note="lemma over the contract of " + LR.key)

causal("finmlkit/bar/utils.py:comp_trade_side_vector", ["tick_side(prices, m)"])
OK_ = f"max(0, K - {feat_break.WIN})"
causal(C + "cusum_test_rolling",
       [(f"br_{nm}{'_crit' if c else ''}(close_prices, {OK_}, br_sigma(close_prices, {OK_}, K - {OK_}), K - {OK_}, m)", "0", f"m < K - {OK_}") for nm, c in feat_break.PARTS],
       requires=["warmup_period + 2 <= len(close_prices)", "warmup_period + 2 <= len(close_prices__2)",
                 "forall(0, len(close_prices), lambda i: close_prices[i] > 0)", "forall(0, len(close_prices__2), lambda i: close_prices__2[i] > 0)"])
