PROP="C13"; FILE="finmlkit/label/weights.py"
OLD="        concurrency_slice = concurrency[start_idx:end_idx+1]\n"
NEW="        concurrency_slice = concurrency[start_idx:end_idx+1].astype(np.int8)\n"
NEEDS="more than 127 labels open at the same bar"
BREAKS="the overlap counts wrap around at 128 before they are inverted, so uniqueness turns negative or infinite"
DEMO='''
import numpy as np
from finmlkit.label.weights import average_uniqueness
t = np.arange(300, dtype=np.int64) * 10**9
e = np.arange(200, dtype=np.int64)
w, c = average_uniqueness(t, e, np.full(200, 299, dtype=np.int64))
assert int(c[250]) == 200, c[250]
assert abs(w[199] - 1 / 200) < 1e-12, w[199]
'''
