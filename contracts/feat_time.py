from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np


@spec("int -> int")
def utc_second(t):
    """second of the UTC day"""
    return (t // 1000000000) % 86400


@spec("int -> int")
def weekday(t):
    """days since the last Monday (1 January 1970 was a Thursday)"""
    return (t // 86400000000000 + 3) % 7


TWO_PI = "6.283185307179586"
S = "utc_second(timestamps[b])"
DAY = f"({TWO_PI} * ({S} / 86400.0))"
WEEK = f"({TWO_PI} * (weekday(timestamps[b]) / 7.0))"
FLAGS = [f"{S} < 28800", f"25200 <= {S} and {S} < 54000", f"46800 <= {S} and {S} < 75600",
         f"(0 <= {S} and {S} < 60) or (25200 <= {S} and {S} < 25260) or (46800 <= {S} and {S} < 46860)", f"{S} % 3600 < 60"]


def times(rng, n):
    out = []
    for _ in range(n):
        base = rng.randint(-400, 30000) * 86400 + rng.choice([0, 1, 59, 60, 7, 8, 13, 15, 21]) * rng.choice([1, 60, 3600, 3600, 3600]) + rng.choice([0, 0, -1, 1, 59, 60])
        out.append(base * 1000000000 + rng.choice([0, 0, 1, 999999999, -1]))
    return np.array(out, dtype=np.int64)


Contract("finmlkit/feature/core/time.py:time_cues", ["timestamps: A_int"],
         pointwise=[(i, "len(timestamps)", f"{f}_({a})") for i, (f, a) in enumerate((("sin", DAY), ("cos", DAY), ("sin", WEEK), ("cos", WEEK)))],
         ensures=[f"len(result[{i + 4}]) == len(timestamps)" for i in range(5)] + [f"forall(0, len(timestamps), lambda b: result[{i + 4}][b] == ({f}))" for i, f in enumerate(FLAGS)]
         + [f"forall(0, len(timestamps), lambda b: same(result[{i}][b] * result[{i}][b] + result[{i + 1}][b] * result[{i + 1}][b], 1))" for i in (0, 2)],
         templates=[f"forall(0, $k, lambda b: $A[b] == ({f}))" for f in FLAGS] + ["forall($k, len(timestamps), lambda b: $A[b] == False)"],
         gen=lambda rng, n: (times(rng, n),))
