PROP="C19"; FILE="finmlkit/feature/core/volatility.py"
EDITS=[(FILE,"""        # update U,V with unbiased recursion
        y_t = y[i]
""","""        # update U,V with unbiased recursion
        y_t = y[i]
        if np.isnan(y_t):
            out[i] = out[i - 1]
            continue
""")]
NEEDS="a missing observation where the floor or later decay matters"
BREAKS="a gap no longer decays the weights by the time that passed"
DEMO='''
import numpy as np
from finmlkit.feature.core.volatility import ewmst_mean0
t = np.array([0, 1, 2, 3], dtype=np.int64) * 10**9
a = ewmst_mean0(t, np.array([0.0, 1.0, np.nan, 3.0]), 1.0)
k = np.exp(-1.0)
u, v = (1 - k), (1 - k)
u, v = u * k, v * k
u, v = (1 - k) * 9 + k * u, (1 - k) + k * v
assert abs(a[3] - np.sqrt(u / v)) < 1e-9, (a[3], np.sqrt(u / v))
'''
