PROP="C18"; FILE="finmlkit/feature/core/momentum.py"
OLD="        if low[out_idx] == lo or high[out_idx] == hi:"
NEW="        if low[out_idx] == lo and high[out_idx] == hi or low[out_idx] == lo and low[t] > lo or high[out_idx] == hi and high[t] > hi:"
NEEDS="the window's highest bar leaves while the lowest stays and the new bar makes no new high"
BREAKS="the window maximum goes stale"
DEMO='''
import numpy as np
from finmlkit.feature.core.momentum import stoch_k
h = np.array([5.0, 9.0, 6.0, 6.0, 6.0, 6.0]); l = np.array([4.0, 4.5, 2.0, 3.0, 3.0, 3.0]); c = np.array([4.5, 5.0, 5.0, 5.0, 5.0, 5.0])
r = stoch_k(c, l, h, 3)
assert abs(r[4] - 100 * (5 - 2) / (6 - 2)) < 1e-9, r
'''
