from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np


# ---- symmetric CUSUM event filter
@spec("A_real, int, int -> real", macro=True)
def thr_at(th, m, i):
    return th[0] if m == 1 else th[i]


@spec("A_real, A_real, int, int -> real")
def cf_pos(p, th, m, i):
    """upward sum at i, before a possible event at i"""
    return 0.0 if i <= 0 else max(0.0, (0.0 if cf_up(p, th, m, i - 1) else cf_pos(p, th, m, i - 1)) + log_(p[i] / p[i - 1]))


@spec("A_real, A_real, int, int -> real")
def cf_neg(p, th, m, i):
    return 0.0 if i <= 0 else min(0.0, (0.0 if cf_dn(p, th, m, i - 1) else cf_neg(p, th, m, i - 1)) + log_(p[i] / p[i - 1]))


@spec("A_real, A_real, int, int -> bool", macro=True)
def cf_dn(p, th, m, i):
    return i >= 1 and cf_neg(p, th, m, i) < -thr_at(th, m, i)


@spec("A_real, A_real, int, int -> bool", macro=True)
def cf_up(p, th, m, i):
    return i >= 1 and (not cf_dn(p, th, m, i)) and cf_pos(p, th, m, i) > thr_at(th, m, i)


@spec("A_real, A_real, int, int -> int")
def cf_events(p, th, m, i):
    return 0 if i <= 0 else cf_events(p, th, m, i - 1) + (1 if cf_dn(p, th, m, i) or cf_up(p, th, m, i) else 0)


def g_filter(rng, n):
    n = rng.choice([n, n, n, 1]) if n > 1 else n
    p = 100.0 * np.exp(np.cumsum([rng.choice([0.0, rng.gauss(0, 0.01), 0.01, -0.01]) for _ in range(max(n, 1))]))
    m = rng.choice([1, n, n, n + 1])
    th = np.array([rng.choice([0.004, 0.01, 0.02, 0.0, 0.007]) for _ in range(m)])
    return (p, th)


Q = "raw_time_series, threshold, len(threshold), "
Contract("finmlkit/sampling/filters.py:cusum_filter", ["raw_time_series: A_real", "threshold: A_real"],
         requires=["forall(0, len(raw_time_series), lambda b: raw_time_series[b] > 0)"],
         raises=[("ValueError", "len(raw_time_series) <= 1 or (len(threshold) != 1 and len(threshold) != len(raw_time_series))")],
         ensures=[f"len(result) == cf_events({Q} len(raw_time_series) - 1)",
                  f"forall(1, len(raw_time_series), lambda j: implies(cf_dn({Q} j) or cf_up({Q} j), result[cf_events({Q} j) - 1] == j))",
                  "forall(0, len(result), lambda e: 1 <= result[e] and result[e] < len(raw_time_series))",
                  "forall(0, len(result) - 1, lambda e: result[e] < result[e + 1])"],
         templates=["forall(1, $k, lambda b: same($A[b], log_(raw_time_series[b] / raw_time_series[b - 1])))", "isnan($A[0])",
                    f"same($x, ite(cf_up({Q} $k), 0.0, cf_pos({Q} $k)))", f"same($x, ite(cf_dn({Q} $k), 0.0, cf_neg({Q} $k)))",
                    f"$n == cf_events({Q} $k)",
                    f"forall(1, $k, lambda j: implies(cf_dn({Q} j) or cf_up({Q} j), $A[cf_events({Q} j) - 1] == j and cf_events({Q} j) <= $n and cf_events({Q} j) >= 1))",
                    "forall(0, $n, lambda e: 1 <= $A[e] and $A[e] < $k)", "forall(0, $n - 1, lambda e: $A[e] < $A[e + 1])"],
         gen=g_filter)
