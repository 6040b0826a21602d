from pyvc.decl import Contract
from pyvc.dsl import *
from pyvc.base_specs import *
import numpy as np

V = "finmlkit/feature/core/volume.py:"


@spec("A_int, A_real, int, int, int -> real", fold=True)
def vol_above(p, v, a, lo, hi):
    """volume traded at levels above a"""
    return 0.0 if hi <= lo else vol_above(p, v, a, lo, hi - 1) + (v[hi - 1] if p[hi - 1] > a else 0.0)


def profile(rng, n):
    p = rng.choice([0, 100, 40000]) + np.arange(n, dtype=np.int32) * rng.choice([1, 1, 3])
    v = np.array([rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 2.0, 8.0]) for _ in range(n)], dtype=np.float32)
    if rng.random() < 0.1:
        v[:] = rng.choice([0.0, 1.0])
    return p, v


SORTED = ["len(price_levels) == len(volumes)", "forall(0, len(volumes), lambda i: volumes[i] >= 0)",
          "forall(0, len(volumes), lambda i: forall(0, i, lambda j: price_levels[j] < price_levels[i]))"]

Contract(V + "calc_volume_percentage_above_poc", ["price_levels: A_int", "volumes: A_real/float32", "poc_price: int"],
         requires=["len(price_levels) == len(volumes)", "forall(0, len(volumes), lambda i: volumes[i] >= 0)"],
         ensures=["same(result, ite(asum(volumes, 0, len(volumes)) <= 0, 0.0, vol_above(price_levels, volumes, poc_price, 0, len(volumes)) / asum(volumes, 0, len(volumes))))", "0 <= result and result <= 1"],
         templates=["same($x, vol_above(price_levels, volumes, poc_price, 0, $k))", "$x >= 0", "0 <= vol_above(price_levels, volumes, poc_price, 0, $k)",
                    "vol_above(price_levels, volumes, poc_price, 0, $k) <= asum(volumes, 0, $k)"],
         gen=lambda rng, n: (lambda p, v: (p, v, int(rng.choice(list(p)) + rng.choice([0, 0, 1, -1]))))(*profile(rng, n)))

N = "len(volumes)"
Contract(V + "comp_poc_hva_lva", ["price_levels: A_int", "volumes: A_real/float32", "va_pct: real"],
         requires=SORTED + ["len(volumes) >= 1", "0 <= va_pct and va_pct <= 100"],
         result=("int", "int", "int"), modular=True,
         ensures=[f"exists(0, {N}, lambda b: price_levels[b] == result[0] and forall(0, {N}, lambda j: volumes[j] <= volumes[b]) and forall(0, b, lambda j: volumes[j] < volumes[b]))",
                  f"exists(0, {N}, lambda a: price_levels[a] == result[2])", f"exists(0, {N}, lambda c: price_levels[c] == result[1])", "result[2] <= result[0] and result[0] <= result[1]",
                  f"forall(0, {N}, lambda a: forall(a, {N}, lambda c: implies(price_levels[a] == result[2] and price_levels[c] == result[1], asum(volumes, a, c + 1) >= asum(volumes, 0, {N}) * (va_pct / 100.0))))"],
         prelemmas=["induct(0, len(volumes), lambda m: forall(0, len(volumes) + 1, lambda j: implies(j <= m, asum(volumes, j, m) >= 0)))",
                    "induct(0, len(volumes), lambda m: forall(0, m + 1, lambda j: forall(j, m + 1, lambda i: asum(volumes, j, m) == asum(volumes, j, i) + asum(volumes, i, m))))",
                    f"asum(volumes, 0, {N}) * (va_pct / 100.0) <= asum(volumes, 0, {N})"],
         templates=[f"$n1 >= 1 and $n2 <= {N} - 2", "$n1 > $n2",
                    f"$n == price_levels[ite($n1 > {N}, {N}, $n1) - 1]", "$n == price_levels[ite($n1 < -1, 0, $n1 + 1)]",
                    f"$x == asum(volumes, ite($n2 < -1, 0, $n2 + 1), ite($n1 > {N}, {N}, $n1))",
                    f"implies($n1 < {N}, $x == asum(volumes, $n1, ite($n1 + 2 > {N}, {N}, $n1 + 2)))", f"implies($n1 >= {N}, $x == -1 or $x == 0)",
                    "implies($n1 >= 0, $x == asum(volumes, ite($n1 - 1 < 0, 0, $n1 - 1), $n1 + 1))", "implies($n1 < 0, $x == -1 or $x == 0)",
                    f"$x == -1 or $x >= 0", f"implies($x == -1, $n1 >= {N})", "implies($x == -1, $n1 < 0)"],
         gen=lambda rng, n: profile(rng, n) + (rng.choice([0.0, 25.0, 50.0, 62.5, 75.0, 100.0]),))

