PROP="C17"; FILE="finmlkit/feature/core/utils.py"
EDITS=[(FILE, "        lag_idx = np.searchsorted(timestamps, target_time, side='right') - 1", "        lag_idx = np.searchsorted(timestamps, target_time, side='left')\n        if timestamps[lag_idx] > target_time:\n            lag_idx -= 1")]
NEEDS="several bars closing at the very time one window before the current bar"
BREAKS="the lagged return is taken against the first instead of the latest bar at that time"
DEMO='''
import numpy as np
from finmlkit.feature.core.utils import comp_lagged_returns
t = np.array([0, 1, 2, 2, 3, 4], dtype=np.int64) * 10**9
r = comp_lagged_returns(t, np.array([1.0, 2.0, 4.0, 8.0, 16.0, 32.0]), 2.0, False)
assert r[5] == 3.0, r
'''
