from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np

T = "finmlkit/feature/transforms.py:"


@spec("A_float, int -> int")
def run_len(x, i):
    """consecutive values of one direction ending at i; the first value (of no return) is not counted"""
    return 0 if i <= 0 or x[i] == 0 else (1 + run_len(x, i - 1) if i > 1 and ((x[i] > 0) == (x[i - 1] > 0)) and x[i - 1] != 0 else 1)


def rets(rng, n):
    x = np.array([rng.choice([0.0, 0.01, 0.5, -0.25, 1.0, -2.0]) for _ in range(n)])
    if rng.random() < 0.1:
        x = np.full(rng.choice([130, 300]), rng.choice([0.01, -1.0]))
    if rng.random() < 0.6:
        x[0] = np.nan
    return x


Contract(T + "DirRunLen.numba_core", ["x: A_float"], requires=["forall(1, len(x), lambda i: not isnan(x[i]))"],
         pointwise=[(None, "len(x)", "run_len(x, b)", 1)],
         ensures=["forall(0, len(x), lambda b: 0 <= result[b] and result[b] <= b)"],
         templates=["$n == run_len(x, $k)", "0 <= run_len(x, $k) and run_len(x, $k) <= $k", "$x == (0 if x[ite($k < 1, 1, $k)] == 0 else (1 if x[ite($k < 1, 1, $k)] > 0 else -1))",
                    "forall(0, $k, lambda b: 0 <= run_len(x, b) and run_len(x, b) <= b)"],
         gen=lambda rng, n: (rets(rng, n),))
