PROP="C03"; FILE="finmlkit/bar/logic.py"
OLD="            sigma[i] = sigma[i-1]"
NEW="            sigma[i] = sigma[first_non_nan_idx]"
NEEDS="a volatility series with a gap after its value has changed"
BREAKS="gaps in the volatility series are filled with the first instead of the latest value, so bars close at the wrong threshold"
DEMO='''
import numpy as np
from finmlkit.bar.logic import _cusum_bar_indexer
ts = np.arange(5, dtype=np.int64)
p = np.array([100.0, 100.0, 100.0, 105.0, 105.0])
s = np.array([0.01, 0.5, 0.5, np.nan, 0.5])
r = list(_cusum_bar_indexer(ts, p, s, 0.0001, 1.0))
assert r == [0], r
'''
