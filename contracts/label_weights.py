from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np


# ---- concurrency and uniqueness
def g_events(rng, n, nonempty=True):
    k = rng.randint(1 if nonempty else 0, 4)
    ev = np.array(sorted(rng.randrange(n) for _ in range(k)), dtype=np.int64)
    to = np.array([min(n - 1, e + rng.choice([0, 1, 2, 5])) for e in ev], dtype=np.int64)
    return ev, to


def g_uniq(rng, n):
    ev, to = g_events(rng, n)
    if rng.random() < 0.1:
        to = to[:-1]
    return (np.arange(n, dtype=np.int64), ev, to)


EVR = ["forall(0, len(event_idxs), lambda e: 0 <= event_idxs[e] and event_idxs[e] <= touch_idxs[e] and touch_idxs[e] < len({}))"]
CONC = "countof(0, len(event_idxs), lambda m: event_idxs[m] <= {} and {} <= touch_idxs[m])"
Contract("finmlkit/label/weights.py:average_uniqueness", ["timestamps: A_int", "event_idxs: A_int", "touch_idxs: A_int"],
         requires=["implies(len(event_idxs) == len(touch_idxs), " + EVR[0].format("timestamps") + ")", "len(event_idxs) <= 32767"],
         raises=[("ValueError", "len(event_idxs) != len(touch_idxs)")],
         pointwise=[(1, "len(timestamps)", CONC.format("b", "b")),
                    (0, "len(event_idxs)", "sumof(event_idxs[b], touch_idxs[b] + 1, lambda t: 1.0 / result[1][t]) / (touch_idxs[b] + 1 - event_idxs[b])")],
         ensures=["forall(0, len(event_idxs), lambda e: forall(event_idxs[e], touch_idxs[e] + 1, lambda t: result[1][t] >= 1))",
                  "forall(0, len(event_idxs), lambda e: 0 < result[0][e] and leq(result[0][e], 1))"],
         templates=["forall(0, $k, lambda e: forall(event_idxs[e], touch_idxs[e] + 1, lambda t: $A[t] >= 1))",
                    "forall(0, len($A), lambda t: $A[t] == countof(0, $k, lambda m: event_idxs[m] <= t and t <= touch_idxs[m]))",
                    "forall(0, len($A), lambda t: $A[t] == countof(0, $u, lambda m: event_idxs[m] <= t and t <= touch_idxs[m]) + ite($u2 <= t and t < $k, 1, 0))",
                    "same($x, sumof($u, $u2 + $k, lambda t: 1.0 / $B[t]))", "same($x, sumof($u, $k, lambda t: 1.0 / $B[t]))",
                    "forall(0, $k, lambda b: same($A[b], sumof(event_idxs[b], touch_idxs[b] + 1, lambda t: 1.0 / $B[t]) / (touch_idxs[b] + 1 - event_idxs[b])))"],
         gen=g_uniq)


# ---- return attribution
ATTR = "abs(sumof(event_idxs[{e}], touch_idxs[{e}] + 1, lambda j: ite(concurrency[j] > 0 and j >= 1, log_(close[j] / close[j - 1]) / concurrency[j], 0.0)))"


def g_attr(rng, n):
    n = max(2, n)
    ev, to = g_events(rng, n)
    conc = np.zeros(n, dtype=np.int16)
    for a, b in zip(ev, to):
        conc[a:b + 1] += 1
    if rng.random() < 0.2:
        conc[rng.randrange(n)] = 0
    close = np.array([rng.uniform(9, 11) for _ in range(n)]) if rng.random() < 0.85 else np.full(n, 10.0)
    return (ev, to, close, conc, rng.random() < 0.5)


Contract("finmlkit/label/weights.py:return_attribution", ["event_idxs: A_int", "touch_idxs: A_int", "close: A_real", "concurrency: A_int", "normalize: bool"],
         requires=["len(event_idxs) == len(touch_idxs)", "len(concurrency) == len(close)", EVR[0].format("close"), "forall(0, len(close), lambda b: close[b] > 0)"],
         raises=[("ValueError", "normalize and sumof(0, len(event_idxs), lambda e: " + ATTR.format(e="e") + ") <= 0")],
         pointwise=[(None, "len(event_idxs)", "ite(normalize, " + ATTR.format(e="b") + " * (len(event_idxs) / sumof(0, len(event_idxs), lambda e: " + ATTR.format(e="e") + ")), " + ATTR.format(e="b") + ")")],
         templates=["forall(1, $k, lambda b: same($A[b], log_(close[b] / close[b - 1])))", "isnan($A[0])",
                    "same($x, sumof($u, $k, lambda j: ite(concurrency[j] > 0 and j >= 1, log_(close[j] / close[j - 1]) / concurrency[j], 0.0)))",
                    "forall(0, $k, lambda b: same($A[b], " + ATTR.format(e="b") + "))"],
         gen=g_attr)


# ---- time decay: linear in the cumulated uniqueness, 1 at the newest event
def g_decay(rng, n):
    w = np.array([rng.choice([0.0, 0.25, 0.5, 1.0]) for _ in range(n)])
    if rng.random() < 0.1:
        w[:] = 0.0
    return (w, rng.choice([1.0, 0.5, 0.0, -0.25, -0.5, -0.99, 1.5, -1.5]))


W = "last_weight"
CUM = "asum(avg_uniqueness, 0, b + 1) / asum(avg_uniqueness, 0, len(avg_uniqueness))"
Contract("finmlkit/label/weights.py:time_decay", ["avg_uniqueness: A_real", "last_weight: real"],
         requires=["len(avg_uniqueness) >= 1", "forall(0, len(avg_uniqueness), lambda b: avg_uniqueness[b] >= 0)", "last_weight != -1"],
         raises=[("ValueError", "last_weight < -1 or last_weight > 1 or asum(avg_uniqueness, 0, len(avg_uniqueness)) == 0")],
         ensures=["len(result) == len(avg_uniqueness)",
                  f"implies({W} >= 0, forall(0, len(result), lambda b: same(result[b], {W} + (1 - {W}) * ({CUM}))))",
                  f"implies({W} < 0, forall(0, len(result), lambda b: same(result[b], max(0.0, 1 - (1 - {CUM}) / (1 + {W})))))",
                  "same(result[len(result) - 1], 1.0)"],
         gen=g_decay)


# ---- class balance: every class with positive weight gets the same total
def g_classes(rng, n):
    n = rng.choice([n, n, n, 0])
    pool = rng.choice([[-1, 1], [0, 1], [-1, 0, 1], [1], [-2, 0, 3, 5]])
    lab = np.array([rng.choice(pool) for _ in range(n)], dtype=np.int8)
    w = np.array([rng.choice([0.0, 0.5, 1.0, 2.0, rng.uniform(0, 3)]) for _ in range(n)])
    if n and rng.random() < 0.2:
        w[lab == lab[0]] = 0.0
    return (lab, w)


FT = "sumof(0, {hi}, lambda m: ite(labels[m] == result[0][c], result[3][m], 0.0))"
CW = "sumof(0, len(labels), lambda m: ite(labels[m] == {c}, base_w[m], 0.0))"
Contract("finmlkit/label/weights.py:class_balance_weights", ["labels: A_int", "base_w: A_real"],
         requires=["len(labels) == len(base_w)", "forall(0, len(base_w), lambda b: base_w[b] >= 0)"],
         pointwise=[(2, "len(result[0])", CW.format(c="result[0][b]")),
                    (1, "len(result[0])", "ite(" + CW.format(c="result[0][b]") + " > 0, sumof(0, len(result[0]), lambda c: result[2][c]) / (len(result[0]) * " + CW.format(c="result[0][b]") + "), 0.0)")],
         ensures=["forall(0, len(result[0]) - 1, lambda c: result[0][c] < result[0][c + 1])",
                  "forall(0, len(result[0]), lambda c: exists(0, len(labels), lambda m: labels[m] == result[0][c]))",
                  "len(result[3]) == len(labels)",
                  "forall(0, len(labels), lambda m: forall(0, len(result[0]), lambda c: implies(result[0][c] == labels[m], same(result[3][m], base_w[m] * result[1][c]))))",
                  "forall(0, len(labels), lambda m: result[3][m] >= 0)",
                  f"forall(0, len(result[0]), lambda c: implies(result[2][c] > 0, same({FT.format(hi='len(labels)')}, sumof(0, len(result[0]), lambda d: result[2][d]) / len(result[0]))))"],
         lemmas=[f"induct(0, len(labels), lambda q: forall(0, len(result[0]), lambda c: same({FT.format(hi='q')}, result[1][c] * sumof(0, q, lambda m: ite(labels[m] == result[0][c], base_w[m], 0.0)))))"],
         templates=["forall(0, len($A), lambda c: same($A[c], sumof(0, $k, lambda m: ite(labels[m] == $B[c], base_w[m], 0.0))))",
                    "forall(0, $k, lambda b: same($A[b], ite(" + CW.format(c="$B[b]") + " > 0, sumof(0, len($B), lambda c: $B8[c]) / (len($B) * " + CW.format(c="$B[b]") + "), 0.0)))",
                    "forall(0, $k, lambda m: forall(0, len($B), lambda c: implies($B[c] == labels[m], same($A[m], base_w[m] * $B8[c]))))",
                    "forall(0, $k, lambda m: $A[m] >= 0)", "forall(0, len($A), lambda m: $A[m] >= 0)"],
         gen=g_classes)
