PROP="C24"; FILE="finmlkit/feature/core/time.py"
OLD="        ts = timestamps[i] // 1_000_000_000   # seconds"
NEW="        ts = int(timestamps[i] / 1e9)   # seconds"
NEEDS="a timestamp within about 100 ns before a full second (or any before 1970)"
BREAKS="float64 seconds round the last nanoseconds of an hour up into the next one"
DEMO='''
import numpy as np
from finmlkit.feature.core.time import time_cues
t = np.array([1_700_000_000 // 86400 * 86400 * 10**9 + 8 * 3600 * 10**9 - 1], dtype=np.int64)
r = time_cues(t)
assert bool(r[4][0]) and not bool(r[8][0]), [x[0] for x in r]
'''
