PROP="C21"; FILE="finmlkit/feature/core/volume.py"
OLD="    window_interval_ns = int(window_size_sec * 1e9)\n    first_interval_idx"
NEW="    window_interval_ns = int(window_size_sec) * 1_000_000_000\n    first_interval_idx"
NEEDS="a rolling window that is not a whole number of seconds"
BREAKS="the rolling profile covers a shorter window than asked for"
DEMO='''
import numpy as np
from finmlkit.feature.core.volume import volume_profile_rolling
n = 8
ts = np.arange(n, dtype=np.int64) * 750_000_000
lv = [np.array([10 + i], dtype=np.int32) for i in range(n)]
v = [np.array([float(2 ** (n - i))], dtype=np.float32) for i in range(n)]
z = [np.zeros(1, dtype=np.float32) for i in range(n)]
hi = np.array([10.0 + i for i in range(n)])
poc = volume_profile_rolling(ts, hi, hi, lv, v, z, 1.5, None, 1.0, 70.0)[0]
assert poc[4] == 12, poc
'''
